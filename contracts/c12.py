"""C12: records that contradict their checksum or length."""

from . import c11, codec


def tasks():
    return codec.task_digits() + codec.task_corrupt(codec.LINE) + c11.task_corrupt()
