"""C08: round trip of ihex."""

from . import codecs

CODECS = "ihex".split(",")


def gen(rng, n):
    yield from codecs.gen(CODECS, rng, n)
    yield from extra(rng, n)


def extra(rng, n):
    return ()


check = codecs.check
