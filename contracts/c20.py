"""C20: nothing an object has kept from earlier use (see codec.poison) takes part in loading or dumping."""

from . import c11, codec


def tasks():
    out = codec.task_digits() + codec.task_coding()
    for fmt in codec.BITS:
        out += codec.task_loads(fmt, ("bytes",))
    for fmt in codec.BITS:
        out += codec.task_dumps(fmt)
    out += codec.task_corrupt(codec.LINE) + c11.tasks() + c11.task_corrupt()
    for t in out:
        t.replay = None  # their cases are those of the formats' properties
    return out
