"""C06: joining."""

from .lib import attempt, content, hx, jsecs, merged, pairs, rand_sections, rb, usecs


def gen(rng, n):
    for how in ("list", "sorted", "image"):
        for gaps in ([0], [1], [0, 0], [0, 1], [1, 0], [1, 1], [0, 0, 0], [0, 1, 0], [1, 0, 1]):
            for sizes in ([1] * 4, [3, 1, 2, 5]):
                secs = []
                a = 0x40
                for g, k in zip([0] + gaps, sizes):
                    a += g
                    secs.append((a, rb(rng, k)))
                    a += k
                for rep in (True, False):
                    yield dict(secs=jsecs(secs), how=how, bytearrays=rep)
        yield dict(secs=[], how=how, bytearrays=True)
        yield dict(secs=[[0, "0102"]], how=how, bytearrays=True)
        yield dict(secs=[[0, "0102"], [2, "03"]], how=how, bytearrays=True)
    for _ in range(n):
        secs = rand_sections(rng, rng.choice([6, 8, 16]), maxn=8, lens=(1, 2, 3, 8), adjacent=0.5)
        yield dict(secs=jsecs(secs), how=rng.choice(["list", "sorted", "image"]), bytearrays=rng.random() < 0.7)


def check(c):
    from operator import attrgetter

    from objutils.image import Image
    from objutils.section import Section, join_sections
    from sortedcontainers import SortedList

    secs = usecs(c["secs"])
    objs = [Section(a, bytearray(d) if c["bytearrays"] else bytes(d)) for a, d in secs]
    ids = [id(o.data) for o in objs]
    keep = list(objs)
    if c["how"] == "list":
        res, e = attempt(lambda: join_sections(list(objs)))
    elif c["how"] == "sorted":
        res, e = attempt(lambda: join_sections(SortedList(objs, key=attrgetter("start_address"))))
    else:
        res, e = attempt(lambda: Image(objs).sections)
    if e is not None:
        return f"joining raised {e!r}"
    got = pairs(res)
    want = merged(secs)
    for (a, d), o, i in zip(secs, keep, ids):
        if o.start_address != a or bytes(o.data) != d or id(o.data) != i:
            return f"joining modified the section at {a:#x} that was passed in"
    if got != want:
        return f"joined to {[(hex(a), d.hex()) for a, d in got]}, expected {[(hex(a), d.hex()) for a, d in want]}"
    for r in res:
        if any(r.data is o.data for o in keep):
            return "result shares storage with a section passed in"
        if len(r.data):
            r.data[0] ^= 0xFF
    for (a, d), o in zip(secs, keep):
        if bytes(o.data) != d:
            return "result shares storage with a section passed in"
    # Two default sections must not share storage either.
    s1, s2 = Section(0), Section(0)
    s1.data.extend(b"x")
    if len(s2.data) or len(Section().data):
        return "sections created without data share storage"
    return None
