"""C12: corrupt records."""

import hashlib

from . import formats as F
from .lib import attempt, content, hx, jsecs, pairs, rand_sections, rb, usecs

# (name, start digit, digits) of the fields of the first line of a record with address `a` and n data bytes
LAYOUT = {
    "srec1": [("length", 2, 2), ("address", 4, 4), ("data", 8, None), ("checksum", -2, 2)],
    "srec2": [("length", 2, 2), ("address", 4, 6), ("data", 10, None), ("checksum", -2, 2)],
    "srec3": [("length", 2, 2), ("address", 4, 8), ("data", 12, None), ("checksum", -2, 2)],
    "ihex": [("length", 1, 2), ("address", 3, 4), ("data", 9, None), ("checksum", -2, 2)],
    "tek": [("address", 1, 4), ("length", 5, 2), ("acs", 7, 2), ("data", 9, None), ("checksum", -2, 2)],
    "etek": [("length", 1, 2), ("checksum", 4, 2), ("address", 6, 5), ("data", 11, None)],
    "mostec": [("length", 1, 2), ("address", 3, 4), ("data", 7, None), ("checksum", -4, 4)],
    "sig": [("address", 1, 4), ("length", 5, 2), ("acs", 7, 2), ("data", 9, None), ("checksum", -2, 2)],
    "emon52": [("length", 0, 2), ("data", 8, None), ("checksum", -4, 4)],
    "fpc": [("checksum", 0, 2), ("length", 2, 2), ("address", 8, 8), ("data", 16, None)],
}
LENPOS = {k: [x[1] for x in v if x[0] == "length"][0] for k, v in LAYOUT.items()}
CODECS = ["srec1", "srec2", "srec3", "ihex", "tek", "etek", "mostec", "sig", "emon52", "fpc"]


def record(codec, a, d):
    if codec.startswith("srec"):
        return F.srec(a, d, int(codec[4]))
    if codec == "fpc":
        return F.fpc_plain(a, d)
    if codec == "ihex":
        return F.ihex(a, d)
    return F.ENC[codec](a, d)


def relength(codec, a, d, ln):
    """A record whose checksums agree with its wrong length field."""
    if codec.startswith("srec"):
        n = {"1": 2, "2": 3, "3": 4}[codec[4]]
        b = bytes([ln]) + a.to_bytes(n, "big") + d
        return codec[0].upper() + codec[4] + (b + bytes([~sum(b) & 0xFF])).hex().upper()
    if codec == "ihex":
        b = bytes([ln]) + a.to_bytes(2, "big") + b"\0" + d
        return ":" + (b + bytes([-sum(b) & 0xFF])).hex().upper()
    if codec in ("tek", "sig"):
        f = F.nib if codec == "tek" else F.rxor
        h = a.to_bytes(2, "big") + bytes([ln])
        return ("/" if codec == "tek" else ":") + (h + bytes([f(h)]) + d + bytes([f(d)])).hex().upper()
    if codec == "etek":
        return f"%{ln:02X}6{F.nib(F.be(a, 3) + bytes([6, ln]) + d):02X}{a:05X}" + d.hex().upper()
    if codec == "mostec":
        b = bytes([ln]) + a.to_bytes(2, "big") + d
        return ";" + b.hex().upper() + f"{sum(b) & 0xFFFF:04X}"
    if codec == "emon52":
        return f"{ln:02X} {a:04X}:" + d.hex(" ").upper() + f" {sum(d) & 0xFFFF:04X}"
    p = d + bytes(-len(d) % 4)
    return f"{-(sum(F.be(a, 4)) + ln + sum(p[: ln - 4])) & 0xFF:02X}{ln:02X}0000{a:08X}" + p.hex().upper()


def wrap(codec, line):
    return F.quint(line) if codec == "fpc" else line


def name(codec):
    return "srec" if codec.startswith("srec") else codec


def parse(codec, line):
    """Independent strict parse of one data record line; None when it contradicts itself."""
    n = name(codec)
    try:
        if n == "srec":
            t = int(line[1])
            b = bytes.fromhex(line[2:])
            k = {1: 2, 2: 3, 3: 4}[t]
            if b[0] != len(b) - 1 or ~sum(b[:-1]) & 0xFF != b[-1]:
                return None
            return int.from_bytes(b[1 : 1 + k], "big"), b[1 + k : -1]
        if n == "ihex":
            b = bytes.fromhex(line[1:])
            if b[0] != len(b) - 5 or sum(b) & 0xFF:
                return None
            return int.from_bytes(b[1:3], "big"), b[4:-1]
        if n in ("tek", "sig"):
            f = F.nib if n == "tek" else F.rxor
            b = bytes.fromhex(line[1:])
            if b[2] != len(b) - 5 or f(b[:3]) != b[3] or f(b[4:-1]) != b[-1]:
                return None
            return int.from_bytes(b[:2], "big"), b[4:-1]
        if n == "etek":
            ln, cs, a = int(line[1:3], 16), int(line[4:6], 16), int(line[6:11], 16)
            d = bytes.fromhex(line[11:])
            if ln != 2 * (len(d) + 5) or cs != F.nib(F.be(a, 3) + bytes([6, ln]) + d):
                return None
            return a, d
        if n == "mostec":
            b = bytes.fromhex(line[1:])
            if b[0] != len(b) - 5 or sum(b[:-2]) & 0xFFFF != int.from_bytes(b[-2:], "big"):
                return None
            return int.from_bytes(b[1:3], "big"), b[3:-2]
        if n == "emon52":
            h, rest = line.split(":")
            d, cs = rest.rsplit(" ", 1)
            d = bytes.fromhex(d)
            if int(h[:2], 16) != len(d) or int(cs, 16) != sum(d) & 0xFFFF:
                return None
            return int(h[3:], 16), d
        if n == "fpc":
            b = bytes.fromhex(line)
            d = b[8:]
            k = b[1] - 4
            if not len(d) - 4 < k <= len(d) or k < 0:
                return None
            d = d[:k]
            if -(sum(b[4:8]) + b[1] + sum(d)) & 0xFF != b[0]:
                return None
            return int.from_bytes(b[4:8], "big"), d
    except (ValueError, IndexError):
        return None


def gen(rng, n):
    for codec in CODECS:
        for size in (1, 2, 4, 5, 16):
            a = rng.choice([0x0000, 0x0100, 0x1234, 0xFF00])
            d = rb(rng, size)
            line = record(codec, a, d)
            for fname, start, k in LAYOUT[codec]:
                s = start if start >= 0 else len(line) + start
                e = s + k if k else len(line) + (LAYOUT[codec][-1][1] if LAYOUT[codec][-1][1] < 0 else 0)
                for pos in range(s, e):
                    if line[pos] in " :":
                        continue
                    for delta in (1, 8, 15) if k else (rng.randint(1, 15),):
                        yield dict(op="digit", codec=codec, addr=a, data=hx(d), pos=pos, delta=delta)
            good = int(line[LENPOS[codec] : LENPOS[codec] + 2], 16)
            for ln in sorted({0, 1, 2, 3, 4, 5, good - 6, good - 4, good - 2, good - 1, good + 1, good + 2, good + 3, good + 4, good + 128, 255} - {good}):
                if 0 <= ln <= 255:
                    yield dict(op="length", codec=codec, addr=a, data=hx(d), ln=ln)
            yield dict(op="drop", codec=codec, addr=a, data=hx(d), pos=0)
            yield dict(op="add", codec=codec, addr=a, data=hx(d), byte=rng.randint(0, 255))
            yield dict(op="add", codec=codec, addr=a, data=hx(d), byte=0)
            yield dict(op="swaplen", codec=codec, addr=a, data=hx(d), byte=1)
    for k in ("checksum", "length", "data", "long", "short"):
        for size in (1, 3, 16, 20):
            yield dict(op="shf", what=k, data=hx(rb(rng, size)), addr=0x100)
    for _ in range(n):
        codec = rng.choice(CODECS)
        d = rb(rng, rng.choice([1, 2, 3, 8, 16, 32]))
        a = rng.getrandbits(16)
        line = record(codec, a, d)
        fname, start, k = rng.choice(LAYOUT[codec])
        s = start if start >= 0 else len(line) + start
        e = s + k if k else len(line) + (LAYOUT[codec][-1][1] if LAYOUT[codec][-1][1] < 0 else 0)
        pos = rng.randrange(s, e)
        if line[pos] in " :":
            continue
        yield dict(op="digit", codec=codec, addr=a, data=hx(d), pos=pos, delta=rng.randint(1, 15), where=rng.choice(["only", "first", "last"]))


def check_line(c):
    """One record given as text: accepted exactly as the reference reads it, or refused as contradicting."""
    import objutils
    from objutils.hexfile import InvalidRecordChecksumError, InvalidRecordLengthError

    ref = parse(c["codec"], c["line"])
    r, e = attempt(lambda: objutils.loads(name(c["codec"]), wrap(c["codec"], c["line"]) + "\n"))
    if ref is None:
        if e is None:
            return f"contradicting record {c['line']} was accepted: {[(hex(a), x.hex()) for a, x in pairs(r)]}"
        if not isinstance(e, (InvalidRecordChecksumError, InvalidRecordLengthError)):
            return f"contradicting record {c['line']} raised {e!r} instead of the checksum or length error"
    return None


def check(c):
    import objutils
    from objutils.hexfile import InvalidRecordChecksumError, InvalidRecordLengthError

    if c["op"] == "line":
        return check_line(c)

    d = bytes.fromhex(c["data"])
    if c["op"] == "shf":
        a = c["addr"]
        cs = hashlib.sha1(d).hexdigest()
        ln = len(d)
        body = d
        if c["what"] == "checksum":
            cs = cs[:-1] + format((int(cs[-1], 16) + 1) % 16, "x")
        elif c["what"] == "length":
            ln += 1
        elif c["what"] == "data":
            body = bytes([d[0] ^ 1]) + d[1:]
        elif c["what"] == "long":
            body = d + b"\0"
        else:
            body = d[:-1]
        good = b"\x77\x78"
        text = (
            '<?xml version="1.0" encoding="UTF-8"?>\n<dump name="x" blocks="0002">\n'
            f'<block name="a" address="{a:08x}" word_size="01" length="{ln:08x}" checksum="{cs}">{body.hex(" ")}</block>\n'
            f'<block name="b" address="00009000" word_size="01" length="00000002" checksum="{hashlib.sha1(good).hexdigest()}">77 78</block>\n</dump>'
        )
        r, e = attempt(lambda: objutils.loads("shf", text))
        if e is not None:
            return None
        m = content(pairs(r)) or {}
        if any(k < 0x9000 for k in m):
            return f"block with contradicting {c['what']} was loaded: {pairs(r)}"
        return None
    codec = c["codec"]
    line = record(codec, c["addr"], d)
    if parse(codec, line) != (c["addr"], d):
        raise AssertionError("reference encoder and parser disagree")
    good, e = attempt(lambda: objutils.loads(name(codec), wrap(codec, line) + "\n"))
    if e is not None or content(pairs(good)) != content([(c["addr"], d)]):
        return f"valid record {line} not accepted: {e!r}"
    if c["op"] == "digit":
        pos = c["pos"]
        bad = line[:pos] + format((int(line[pos], 16) + c["delta"]) % 16, "X") + line[pos + 1 :]
    elif c["op"] == "length":
        bad = relength(codec, c["addr"], d, c["ln"])
    else:
        lay = LAYOUT[codec]
        s = [x for x in lay if x[0] == "data"][0][1]
        tail = lay[-1][1] if lay[-1][1] < 0 else 0
        end = len(line) + tail
        sep = " " if codec == "emon52" else ""
        if codec == "emon52":
            end -= 1
        if c["op"] == "drop":
            if codec == "fpc":
                bad = line[:-8] if len(d) > 4 else line
            else:
                bad = line[: end - 2 - len(sep)] + line[end:] if len(d) > 1 else line
        elif c["op"] == "add":
            extra = f"{c['byte']:02X}" + sep
            if codec == "fpc":
                return None
            bad = line[:s] + extra + line[s:]
        else:
            lf = [x for x in lay if x[0] == "length"][0]
            v = int(line[lf[1] : lf[1] + 2], 16)
            bad = line[: lf[1]] + f"{(v + 1) & 0xFF:02X}" + line[lf[1] + 2 :]
    if bad == line:
        return None
    ref = parse(codec, bad)
    text = wrap(codec, bad)
    where = c.get("where", "only")
    other = wrap(codec, record(codec, 0x4000, b"\x11\x22"))
    if where == "first":
        text = text + "\n" + other
    elif where == "last":
        text = other + "\n" + text
    r, e = attempt(lambda: objutils.loads(name(codec), text + "\n"))
    if ref is not None:
        return None  # Happens to be consistent (e.g. a nibble sum with two changes).
    if isinstance(e, (InvalidRecordChecksumError, InvalidRecordLengthError)):
        return None
    if e is not None:
        # Not a well-formed record any more (e.g. an odd number of digits).
        return f"contradicting record {bad} raised {e!r} instead of the checksum or length error"
    return f"contradicting record {bad} (from {line}) was accepted: {[(hex(a), x.hex()) for a, x in pairs(r)]}"
