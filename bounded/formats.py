"""Independent reference encoders/decoders of the record formats (written from the format descriptions)."""

BITS = dict(srec=32, ihex=32, tek=16, mostec=16, sig=16, emon52=16, etek=20, fpc=16, ash=16, titxt=16, rca=16, cosmac=16)
# Highest width the reader of the format could take; between the two a writer may refuse or must round-trip.
HARD = dict(srec=32, ihex=32, tek=16, mostec=16, sig=16, emon52=16, etek=20, fpc=32, ash=32, titxt=32, rca=16, cosmac=16)
MAXROW = dict(srec=250, ihex=255, tek=255, mostec=255, sig=255, emon52=255, etek=122, fpc=251, ash=4096, titxt=4096, rca=4096, cosmac=4096)


def be(v, n):
    return v.to_bytes(n, "big")


def nib(bs):
    return sum((b >> 4) + (b & 15) for b in bs) & 0xFF


def rxor(bs):
    c = 0
    for b in bs:
        c ^= b
        c = ((c << 1) | (c >> 7)) & 0xFF
    return c


def srec(addr, data, typ=None):
    if typ is None:
        top = addr + max(len(data), 1) - 1
        typ = 1 if top < 1 << 16 else 2 if top < 1 << 24 else 3
    n = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}[typ]
    body = bytes([len(data) + n + 1]) + be(addr, n) + data
    return f"S{typ}" + (body + bytes([~sum(body) & 0xFF])).hex().upper()


def ihex(addr, data, typ=0):
    body = bytes([len(data)]) + be(addr, 2) + bytes([typ]) + data
    return ":" + (body + bytes([-sum(body) & 0xFF])).hex().upper()


def tek(addr, data):
    h = be(addr, 2) + bytes([len(data)])
    return "/" + (h + bytes([nib(h)]) + data + bytes([nib(data)])).hex().upper()


def etek(addr, data):
    ln = 2 * (len(data) + 5)
    cs = nib(be(addr, 3) + bytes([6, ln]) + data)
    return f"%{ln:02X}6{cs:02X}{addr:05X}" + data.hex().upper()


def mostec(addr, data):
    body = bytes([len(data)]) + be(addr, 2) + data
    return ";" + body.hex().upper() + f"{sum(body) & 0xFFFF:04X}"


def sig(addr, data):
    h = be(addr, 2) + bytes([len(data)])
    return ":" + (h + bytes([rxor(h)]) + data + bytes([rxor(data)])).hex().upper()


def emon52(addr, data):
    return f"{len(data):02X} {addr:04X}:" + data.hex(" ").upper() + f" {sum(data) & 0xFFFF:04X}"


ALPHA = "".join(chr(x) for x in range(37, 123) if x != 42)


def quint(words):
    """hex digits (multiple of eight) -> FPC line"""
    out = "$"
    for i in range(0, len(words), 8):
        v = int(words[i : i + 8], 16)
        q = ""
        for _ in range(5):
            q = ALPHA[v % 85] + q
            v //= 85
        out += q
    return out


def unquint(line):
    out = ""
    assert line[0] == "$" and len(line) % 5 == 1, line
    for i in range(1, len(line), 5):
        v = 0
        for ch in line[i : i + 5]:
            v = v * 85 + ALPHA.index(ch)
        out += f"{v:08X}"
    return out


def fpc_plain(addr, data):
    ln = len(data) + 4
    cs = -(sum(be(addr, 4)) + ln + sum(data)) & 0xFF
    pad = b"\0" * (-len(data) % 4)
    return f"{cs:02X}{ln:02X}0000{addr:08X}" + (data + pad).hex().upper()


def fpc(addr, data):
    return quint(fpc_plain(addr, data))


def ihex_file(secs, row=16, linear=True):
    out = []
    for a, d in secs:
        i = 0
        while i < len(d):
            x = a + i
            k = min(row, len(d) - i, 0x10000 - (x & 0xFFFF))
            out.append(ihex(0, be(x >> 16, 2), 4))
            out.append(ihex(x & 0xFFFF, d[i : i + k]))
            i += k
    out.append(":00000001FF")
    return "\n".join(out) + "\n"


ENC = dict(srec=srec, tek=tek, etek=etek, mostec=mostec, sig=sig, emon52=emon52, fpc=fpc)
EOF = dict(srec=None, tek="/000000"+"00", etek=None, mostec=";00", sig=":00", emon52=None, fpc=quint("00000000"))


def encode_file(codec, secs, row=16):
    if codec == "ihex":
        return ihex_file(secs, row)
    out = []
    kw = {}
    if codec == "srec":
        top = max(a + len(d) - 1 for a, d in secs)
        kw["typ"] = 1 if top < 1 << 16 else 2 if top < 1 << 24 else 3
    for a, d in secs:
        for i in range(0, len(d), row):
            out.append(ENC[codec](a + i, d[i : i + row], **kw))
    if EOF[codec]:
        out.append(EOF[codec])
    return "\n".join(out) + "\n"


class Bad(Exception):
    pass


def _hex(s, what):
    if len(s) % 2:
        raise Bad(f"odd number of digits in {what}")
    try:
        return bytes.fromhex(s)
    except ValueError:
        raise Bad(f"not hexadecimal: {what} {s!r}") from None


def decode_srec(text):
    """Strict reference parser; returns (address->byte, headers)."""
    mem, hdr = {}, []
    for ln in text.split("\n"):
        ln = ln.strip("\r")
        if not ln:
            continue
        if ln[0] != "S" or ln[1] not in "01235789":
            raise Bad(f"record {ln!r}")
        t = int(ln[1])
        b = _hex(ln[2:], "record")
        n = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}[t]
        if b[0] != len(b) - 1:
            raise Bad(f"length field {b[0]} but {len(b) - 1} bytes follow in {ln!r}")
        if ~sum(b[:-1]) & 0xFF != b[-1]:
            raise Bad(f"checksum of {ln!r}")
        if len(b) < n + 2:
            raise Bad(f"short record {ln!r}")
        addr = int.from_bytes(b[1 : 1 + n], "big")
        data = b[1 + n : -1]
        if t == 0:
            hdr.append(data)
        elif t in (1, 2, 3):
            for i, x in enumerate(data):
                if addr + i in mem:
                    raise Bad(f"address {addr + i:#x} twice")
                mem[addr + i] = x
        elif data:
            raise Bad("data in a count/termination record")
    return mem, hdr


def decode_ihex(text):
    mem, base, eof = {}, 0, False
    for ln in text.split("\n"):
        ln = ln.strip("\r")
        if not ln:
            continue
        if eof:
            raise Bad("record after the end-of-file record")
        if ln[0] != ":":
            raise Bad(f"record {ln!r}")
        b = _hex(ln[1:], "record")
        if len(b) < 5 or b[0] != len(b) - 5:
            raise Bad(f"length field of {ln!r}")
        if sum(b) & 0xFF:
            raise Bad(f"checksum of {ln!r}")
        off = int.from_bytes(b[1:3], "big")
        t, data = b[3], b[4:-1]
        if t == 0:
            for i, x in enumerate(data):
                k = base + off + i
                if k in mem:
                    raise Bad(f"address {k:#x} twice")
                mem[k] = x
        elif t == 1:
            eof = True
        elif t in (2, 4):
            if len(data) != 2:
                raise Bad("extended address of wrong size")
            base = int.from_bytes(data, "big") << (4 if t == 2 else 16)
        elif t in (3, 5):
            pass
        else:
            raise Bad(f"record type {t}")
    if not eof:
        raise Bad("no end-of-file record")
    return mem
