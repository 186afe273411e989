"""C14: checksum functions equal their mathematical definitions.

For every frame of bytes (no bound on its length):
  lrc(w, c)        == c(sum of the bytes mod 2^w)
  xor, rotatedXOR  == fold of the byte-wise definition
  nibble_sum       == sum of both nibbles mod 256
  CHK_ADD_*        == sum of the (little-endian) words mod 2^w
  CHK_CRC_16*      == bit-serial division by the polynomial, register initialised / reflected / complemented as defined
  CHK_CRC_32       == zlib.crc32 of the frame (zlib trusted)
  rolb, rorb, reflect are the stated bijections
"""

import z3

from pyvc import folds

from .common import Gen, Seq, SInt, Task, VBuf, VBytes, VList, assume, attempt, as_int, call, concrete_value, cover, ctx, hx, idiv, imod, input_bytes, input_int, ite, land, method, mk, oblige, refused, term, v_eq, why, wrap

KINDS = {"bytes": VBytes, "bytearray": VBuf, "list": VList}


def frame_of(kind, multiple=1):
    n = None
    if multiple > 1:
        q = input_int("q", 0)
        n = q * multiple
    d = input_bytes("data", n)
    return KINDS[kind](d), d


def mod():
    import objutils.checksums as cs

    return cs


def total(d):
    return folds.seq_sum(d)


def equal(name, ok, r, want, width=None):
    cover("returned")
    if not ok:
        oblige(name + ": does not raise", False, why(r))
        return
    oblige(name, v_eq(r, want))
    if width is not None:
        oblige(name + ": within the width", land(wrap(r) >= 0, wrap(r) < (1 << width)))


def t_lrc(w, comp, kind):
    def h(c):
        cs = mod()
        f, d = frame_of(kind)
        cc = (cs.COMPLEMENT_NONE, cs.COMPLEMENT_ONES, cs.COMPLEMENT_TWOS)[comp]
        ok, r = attempt(cs.lrc, f, w, cc)
        s = imod(total(d), 1 << w)
        want = (s, (1 << w) - 1 - s, imod(-s, 1 << w))[comp]
        equal("the longitudinal redundancy check", ok, r, want, w)
        if comp == 0:
            equal("the default complement is none", *attempt(cs.lrc, f, w), want)

    return h


def x2(a, b):
    return wrap(a) ^ b


def t_xor(inv, kind):
    def h(c):
        cs = mod()
        f, d = frame_of(kind)
        ok, r = attempt(cs.xor, f, inv)
        equal("the exclusive or", ok, r, folds.fold_over(d, 0xFF if inv else 0, x2, 0, 255), 8)
        if inv:
            equal("inverted by default", *attempt(cs.xor, f), folds.fold_over(d, 0xFF, x2, 0, 255))

    return h


def rol8(v):
    return imod(wrap(v) * 2, 256) + idiv(wrap(v), 128)


def ror8(v):
    return idiv(wrap(v), 2) + imod(wrap(v), 2) * 128


def t_rxor(left, w, kind):
    def h(c):
        cs = mod()
        f, d = frame_of(kind)
        ok, r = attempt(cs.rotatedXOR, f, w, cs.ROTATE_LEFT if left else cs.ROTATE_RIGHT)
        rot = rol8 if left else ror8
        equal("the rotated exclusive or", ok, r, imod(folds.fold_over(d, 0, lambda a, x: rot(x2(a, x)), 0, 255), 1 << w), w)

    return h


def t_nibbles(kind):
    def h(c):
        f, d = frame_of(kind)
        ok, r = attempt(mod().nibble_sum, f)
        s = folds.gen_sum(Gen(d.length(), lambda i: idiv(wrap(d.get(i)), 16) + imod(wrap(d.get(i)), 16)))
        equal("the nibble sum", ok, r, imod(s, 256), 8)

    return h


def t_add(algo, size, bits, kind):
    def h(c):
        f, d = frame_of(kind, size)
        ok, r = attempt(mod().check, f, algo)
        if size == 1:
            s = total(d)
        else:
            q = ctx().inputs["q"]

            def word(i):
                v = 0
                for k in range(size):
                    v = v + wrap(d.get(wrap(i) * size + k)) * (1 << (8 * k))
                return v

            s = folds.gen_sum(Gen(idiv(d.length(), size), word))
        equal("the word sum", ok, r, imod(s, 1 << bits), bits)

    return h


def refl(v, n):
    r = 0
    for i in range(n):
        r = r + imod(idiv(wrap(v), 1 << i), 2) * (1 << (n - 1 - i))
    return r


def crc_step(width, poly, refin):
    def step(a, x):
        if refin:
            x = refl(x, 8)
        a = wrap(a) ^ (wrap(x) * (1 << (width - 8)))
        for _ in range(8):
            top = wrap(a) >= (1 << (width - 1))
            sh = imod(wrap(a) * 2, 1 << width)
            a = ite(top, wrap(sh) ^ poly, sh)
        return a

    return step


CRCS = {"CHK_CRC_16": (16, 0x8005, 0, True, True, 0), "CHK_CRC_16_CCITT": (16, 0x1021, 0xFFFF, False, False, 0)}


def t_crc(algo, kind):
    def h(c):
        width, poly, init, refin, refout, xorout = CRCS[algo]
        f, d = frame_of(kind)
        ok, r = attempt(mod().check, f, algo)
        reg = folds.fold_over(d, init, crc_step(width, poly, refin), 0, (1 << width) - 1)
        if refout:
            reg = refl(reg, width)
        equal("polynomial division", ok, r, wrap(reg) ^ xorout, width)

    return h


def t_crc32(kind):
    def h(c):
        f, d = frame_of(kind)
        ok, r = attempt(mod().check, f, "CHK_CRC_32")
        want = folds.apply("CRC32", d, 0)
        equal("the CRC-32 of the frame", ok, r, want, 32)

    return h


def t_rot(c):
    cs = mod()
    v = input_int("v", 0)
    b = imod(v, 256)
    for f, want in ((cs.rolb, rol8(b)), (cs.rorb, ror8(b))):
        ok, r = attempt(f, v)
        equal("rotation of the low byte", ok, r, want, 8)
    ok, r = attempt(cs.rorb, call(cs.rolb, [v]))
    equal("the rotations are inverse", ok, r, b)
    ok, r = attempt(cs.rolb, call(cs.rorb, [v]))
    equal("the rotations are inverse", ok, r, b)


def t_reflect(n):
    def h(c):
        cs = mod()
        v = input_int("v", 0)
        assume(v < (1 << n))
        ok, r = attempt(cs.reflect, v, n)
        equal("reflection reverses the bits", ok, r, refl(v, n), n)
        equal("reflection is an involution", *attempt(cs.reflect, r, n), v)

    return h


def t_bad(c):
    for a in ("CHK_USER_DEFINED", "nonsense"):
        refused("an unknown algorithm is refused", *attempt(mod().check, VBytes(input_bytes("data")), a), NotImplementedError)


def tasks():
    ts = []
    case = lambda fn, p: lambda i: dict(fn=fn, p=p, data=hx(i["data"]))  # noqa: E731
    for kind in KINDS:
        for w in (8, 16) if kind != "bytes" else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64):
            for comp in range(3):
                ts.append(Task(f"lrc[{w},{comp},{kind}]", t_lrc(w, comp, kind), covers=("returned",), replay=case("lrc", [w, comp])))
        for inv in (True, False):
            ts.append(Task(f"xor[{inv},{kind}]", t_xor(inv, kind), covers=("returned",), replay=case("xor", [inv])))
        for left in (True, False):
            for w in (4, 8):
                ts.append(Task(f"rotatedXOR[{'left' if left else 'right'},{w},{kind}]", t_rxor(left, w, kind), covers=("returned",), replay=case("rotl" if left else "rotr", [w])))
        ts.append(Task(f"nibble_sum[{kind}]", t_nibbles(kind), covers=("returned",), replay=case("nibble_sum", [])))
        for a, size, bits in (("11", 1, 8), ("12", 1, 16), ("14", 1, 32), ("22", 2, 16), ("24", 2, 32), ("44", 4, 32)):
            if size > 1 and kind == "list":
                continue
            ts.append(Task(f"CHK_ADD_{a}[{kind}]", t_add("CHK_ADD_" + a, size, bits, kind), covers=("returned",), replay=case("CHK_ADD_" + a, [])))
        for a in CRCS:
            ts.append(Task(f"{a}[{kind}]", t_crc(a, kind), covers=("returned",), replay=case(a, []), merge=True))
        ts.append(Task(f"CHK_CRC_32[{kind}]", t_crc32(kind), covers=("returned",), replay=case("CHK_CRC_32", [])))
    ts.append(Task("rolb, rorb", t_rot, covers=("returned",), replay=lambda i: dict(fn="rol", v=i["v"])))
    for n in (1, 2, 4, 8, 16, 32):
        ts.append(Task(f"reflect[{n}]", t_reflect(n), covers=("returned",), replay=lambda i, n=n: dict(fn="reflect", v=i["v"], n=n), merge=True))
    ts.append(Task("check: unknown algorithms", t_bad))
    return ts
