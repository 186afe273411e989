"""C05: dispatch by address."""

import copy

from .lib import attempt, content, hx, jsecs, pairs, rand_sections, rb, uh, usecs

OPS = ["read", "write", "read_numeric", "write_numeric", "read_numeric_array", "write_numeric_array", "read_string", "write_string", "read_ndarray", "write_ndarray"]


def args_for(rng, op):
    if op == "read":
        return [rng.randint(0, 20)]
    if op == "write":
        return [{"b": hx(rb(rng, rng.randint(0, 12)))}]
    dt = rng.choice(["uint8_le", "int16_be", "uint32_le", "int64_be", "uint16_le"])
    if op == "read_numeric":
        return [dt]
    if op == "write_numeric":
        return [rng.choice([0, 1, 100, 127, 70000, -1]), dt]
    if op == "read_numeric_array":
        return [rng.randint(0, 4), dt]
    if op == "write_numeric_array":
        return [[rng.randint(0, 100) for _ in range(rng.randint(0, 4))], dt]
    if op == "read_string":
        return ["latin1", rng.choice([-1, 0, 1, 5])]
    if op == "write_string":
        return [rng.choice(["", "a", "hello", "\xe4"]), "latin1"]
    if op == "read_ndarray":
        return [rng.choice([1, 2, 4]), "uint8_le", {"t": [-1]}]
    return [{"nd": hx(rb(rng, rng.choice([1, 2, 4])))}]


def gen(rng, n):
    fixed = [[[0x10, "01020304"], [0x14, "05060700"], [0x20, "0a0b"]], [[0, "01"]], [], [[0, "0102"], [2, "0304"], [0x10000, "ff"]]]
    for secs in fixed:
        top = max([a + len(d) // 2 for a, d in secs] + [0])
        pts = sorted({x for a, d in secs for x in (a - 1, a, a + len(d) // 2 - 1, a + len(d) // 2)} | {top + 5, 0, 1})
        for p in pts:
            for op in OPS:
                if op == "read":
                    for k in (0, 1, 2, 4, 5):
                        yield dict(secs=secs, addr=p, op=op, args=[k], join=False)
                elif op == "write":
                    for k in (0, 1, 4, 5):
                        yield dict(secs=secs, addr=p, op=op, args=[{"b": "ee" * k}], join=False)
                else:
                    yield dict(secs=secs, addr=p, op=op, args=args_for(rng, op), join=False)
    for _ in range(n):
        secs = rand_sections(rng, rng.choice([8, 16, 32]), maxn=5)
        k = rng.choice(secs)
        addr = rng.choice([k[0], k[0] - 1, k[0] + len(k[1]) - 1, k[0] + len(k[1]), rng.randint(0, 300), k[0] + rng.randint(0, len(k[1]))])
        op = rng.choice(OPS)
        c = dict(secs=jsecs(secs), addr=addr, op=op, args=args_for(rng, op), join=rng.random() < 0.5)
        if rng.random() < 0.5:  # accesses and insertions that come before
            c["history"] = h = []
            at = [a for a, d in secs] + [a + len(d) for a, d in secs] + [max([a + len(d) for a, d in secs] + [0])]
            for _ in range(rng.randint(1, 5)):
                o = rng.choice(OPS + ["get_section", "insert_section", "insert_section"])
                x = rng.choice(at + [addr, addr])
                h.append([o, x, [] if o == "get_section" else [hx(rb(rng, rng.randint(1, 4))), rng.random() < 0.7] if o == "insert_section" else args_for(rng, o)])
        yield c


def unarg(a):
    import numpy as np

    if isinstance(a, dict):
        if "b" in a:
            return uh(a["b"])
        if "t" in a:
            return tuple(a["t"])
        return np.frombuffer(uh(a["nd"]), dtype=np.uint8)
    return a


def check(c):
    import numpy as np
    from objutils.exceptions import InvalidAddressError
    from objutils.image import Image
    from objutils.section import Section

    secs = usecs(c["secs"])
    img = Image([Section(a, bytearray(d)) for a, d in secs], join=c["join"])
    for o, x, a in c.get("history", ()):
        if o == "insert_section":
            attempt(lambda: img.insert_section(uh(a[0]), x, join=a[1]))
        else:
            attempt(lambda: getattr(img, o)(x, *[unarg(y) for y in a]))
    model = content(pairs(img)) if c.get("history") else content(secs)
    if len(img) != len(model):
        return f"len(image) is {len(img)}, sections hold {len(model)} bytes"
    addr = c["addr"]
    if (addr in img) != (addr in model):
        return f"{addr:#x} in image is {addr in img}, expected {addr in model}"
    before = pairs(img)
    holder = [i for i, (a, d) in enumerate(before) if a <= addr < a + len(d)]
    g, ge = attempt(lambda: img.get_section(addr))
    if holder:
        if ge is not None or g is not img.sections[holder[0]]:
            return f"get_section({addr:#x}) returned {g!r} / {ge!r} instead of section #{holder[0]}"
    elif not isinstance(ge, InvalidAddressError):
        return f"get_section({addr:#x}) outside the image: {g!r} / {ge!r}"
    args = [unarg(a) for a in c["args"]]
    r, e = attempt(lambda: getattr(img, c["op"])(addr, *args))
    after = pairs(img)
    if not holder:
        if not isinstance(e, InvalidAddressError):
            return f"{c['op']} at {addr:#x} outside the image: expected InvalidAddressError, got {e!r} (result {r!r})"
        return None if after == before else "refused access changed the image"
    h = holder[0]
    ref = Section(before[h][0], bytearray(before[h][1]))
    rr, re_ = attempt(lambda: getattr(ref, c["op"])(addr, *copy.deepcopy(args)))
    if type(e) is not type(re_):
        return f"{c['op']} on the image raised {e!r}, on the section {re_!r}"
    eq = np.array_equal(r, rr) if isinstance(rr, np.ndarray) else r == rr
    if not eq:
        return f"{c['op']} on the image returned {r!r}, on the section {rr!r}"
    want = list(before)
    want[h] = (ref.start_address, bytes(ref.data))
    if after != want:
        return f"{c['op']} at {addr:#x}: image is {after}, expected {want}"
    return None
