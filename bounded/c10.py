"""C10: round trip of titxt,ash,rca,cosmac."""

from . import codecs

CODECS = "titxt,ash,rca,cosmac".split(",")


def gen(rng, n):
    yield from codecs.gen(CODECS, rng, n)
    yield from extra(rng, n)


def extra(rng, n):
    return ()


check = codecs.check
