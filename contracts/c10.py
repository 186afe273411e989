"""C10: TI-TXT, ASCII hex space, RCA, COSMAC."""

from . import codec

FORMATS = "titxt ash rca cosmac".split()


def tasks():
    out = codec.task_digits()
    for fmt in FORMATS:
        out += codec.task_loads(fmt, replay=codec.roundtrip) + codec.task_dumps(fmt, codec.roundtrip)
    return out
