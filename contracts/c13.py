"""C13: address range of the formats."""

from . import codec


def tasks():
    out = []
    for fmt in codec.BITS:
        out += codec.task_dumps(fmt, lambda fmt, key: codec.ranged(fmt))
    for fmt in [*codec.BITS, "shf", "bin"]:
        out += codec.task_dump(fmt)
    return out
