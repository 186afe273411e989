"""C08: Intel HEX."""

from . import codec

FORMATS = "ihex".split()


def tasks():
    out = codec.task_digits()
    for fmt in FORMATS:
        out += codec.task_loads(fmt, replay=codec.roundtrip) + codec.task_dumps(fmt, codec.roundtrip) + codec.task_records(fmt)
    return out
