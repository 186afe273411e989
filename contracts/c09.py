"""C09: Tektronix, extended Tektronix, MOS Technology, Signetics, EMON52, four-packed-code."""

from . import codec

FORMATS = "tek etek mostec sig emon52 fpc".split()


def tasks():
    out = codec.task_digits() + codec.task_coding(replay=True)
    for fmt in FORMATS:
        out += codec.task_loads(fmt, replay=codec.roundtrip) + codec.task_dumps(fmt, codec.roundtrip)
    return out
