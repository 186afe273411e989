"""C09: round trip of tek,etek,mostec,sig,emon52,fpc."""

from . import codecs

CODECS = "tek,etek,mostec,sig,emon52,fpc".split(",")


def gen(rng, n):
    yield from codecs.gen(CODECS, rng, n)
    yield from extra(rng, n)


def extra(rng, n):
    return ()


check = codecs.check
