"""Small programs; each is run by CPython and by the models of pyvc (selftest.py)."""

import binascii
import bisect
import re
import struct
from functools import reduce
from io import BytesIO
from operator import itemgetter

LINE = re.compile(r"^:(?P<len>[0-9a-fA-F]{2})(?P<addr>[0-9a-fA-F]{4})(?P<type>0[01])(?P<data>.*)$")


# integers ------------------------------------------------------------------------------------------------------------
def i_divmod(a, b):
    return (a // 7, a % 7, a // 256, a % 256, divmod(a, 10), b % 1000)


def i_arith(a, b):
    return (a + b * 3 - 7, -a, abs(b), a * a, max(a, b), min(a, b))


def i_shift(a, b):
    return ((a << 3) + 1, a >> 4, a >> 1)


def i_mask(a, b):
    return (a & 0xFF, a & 0x7F0, a | 0x80, a ^ 0xFF, a & ~3, ~a)


def i_bits(a, b):
    return (a & b, a | b, a ^ b)


def i_rotate(a, b):
    a &= 0xFF
    return ((a << 1) & 0xFF) | (a >> 7)


def i_chain(a, b):
    return (a < b <= 300, a == b, a != b, not a, bool(b), a and b, a or b)


def i_range(a, b):
    out = []
    for x in range(a, b, 7):
        out.append(x * 2)
    return out


def i_rangelen(a, b):
    return (len(range(a, b)), len(range(a, b, 5)), len(range(b, a, -3)))


def i_while(a, b):
    n = abs(a)
    k = 0
    while n > 0:
        n -= 9
        k += 1
    return (k, n)


def i_carry(a, b):
    n = (abs(a) + abs(b)) * 37
    while n > 0xFF:
        n = (n >> 8) + (n & 0xFF)
    return n


def i_hex(a, b):
    a = abs(a)
    return f"{a:04X}" + "%02x" % (a & 0xFF) + "{:08X}".format(a) + str(b) + "{0:d}".format(b)


def i_pad(a, b):
    a = abs(a)
    return f"{a:5d}|{a:<6d}|{a:>6d}|{a:06d}|{a:02X}|{a:#x}"


def i_tobytes(a, b):
    a = abs(a) & 0xFFFF
    return (a.to_bytes(4, "big"), a.to_bytes(2, "little"))


def i_overflow(a, b):
    return struct.pack(">B", a)


def i_pack(a, b):
    a &= 0xFFFF
    return struct.pack(">HBI", a, a & 0xFF, a * 3) + struct.pack("<hQ", (a & 0xFF) - 128, a)


def i_sorted(a, b):
    return (sorted([a, b, 5]), sorted([a, b, 5], reverse=True))


def i_bisect(a, b):
    xs = [-4, 0, 2, 2, 9, 40, 1000]
    return (bisect.bisect_left(xs, a), bisect.bisect_right(xs, a), bisect.bisect(xs, b))


def i_try(a, b):
    try:
        if a > b:
            raise ValueError("x")
        return a // (b - b)
    except ZeroDivisionError:
        return "zero"
    except ValueError:
        return "value"
    finally:
        a += 1


def i_neglist(a, b):
    return [10, 20, 30, 40][a]


def i_chr(a, b):
    return chr(abs(a) % 256) + chr(65 + b % 26)


# bytes ---------------------------------------------------------------------------------------------------------------
def b_slices(d, i):
    return (d[i:], d[:i], d[1:i], d[-3:], d[:-2], d[i : i + 4], d[::1])


def b_index(d, i):
    return d[i]


def b_find(d, i):
    return (d.find(b"\x00"), d.find(b"\x00", i), d.find(b"\x07"))


def b_sum(d, i):
    return sum(d) + sum(x & 0x0F for x in d) + sum(d, 5)


def b_xor(d, i):
    x = 0
    for v in d:
        x ^= v
    return x


def b_hexjoin(d, i):
    return "".join([f"{x:02X}" for x in d]) + " " + " ".join("{:02X}".format(x) for x in d)


def b_hexmethod(d, i):
    return (d.hex(), bytes.fromhex(d.hex()), binascii.unhexlify(d.hex()))


def b_hexlify(d, i):
    return binascii.hexlify(d)


def b_int(d, i):
    return (int.from_bytes(d[:4], "big"), int.from_bytes(d[:2], "little"))


def b_intfixed(d, i):
    if len(d) < 4:
        raise ValueError
    d = d[0:4]
    return (int.from_bytes(d, "big"), int.from_bytes(d, "little"), int.from_bytes(d[0:2], "big", signed=True))


def b_unpack(d, i):
    return struct.unpack(">HB", d[0:3]) + struct.unpack_from("<h", d, i)


def b_chunks(d, i):
    return [d[k : k + 3] for k in range(0, len(d), 3)]


def b_array(d, i):
    r = bytearray(d)
    r[1:3] = b"\xaa\xbb\xcc"
    r.append(i & 0xFF)
    r.extend(d[:2])
    return bytes(r)


def b_assign(d, i):
    r = bytearray(d)
    r[i] = 0x55
    return r


def b_prefix(d, i):
    return (d.startswith(b"\x00"), d.endswith(b"\xff"), d == b"\x00\x01", d == d[:], 7 in d)


def b_repeat(d, i):
    return d + b"\x00" * (8 - len(d)) + bytes(3) + bytes([i & 0xFF, 1])


def b_enumerate(d, i):
    t = 0
    for k, v in enumerate(d):
        t += (k + 1) * v
    return t


def b_zip(d, i):
    return [a - b for a, b in zip(d, d[1:])]


def b_filter(d, i):
    return bytes(x for x in d if x > 9)


def b_anyall(d, i):
    return (any(x == 0 for x in d), all(x < 200 for x in d))


def b_maxmin(d, i):
    return (max(d), min(d))


def b_reduce(d, i):
    return reduce(lambda a, b: (a + b) & 0xFF, d, 0)


def b_reversed(d, i):
    return (bytes(reversed(d)), d[::-1])


def b_break(d, i):
    k = 0
    for k, v in enumerate(d):
        if v == 0xFF:
            break
    else:
        k = -1
    return k


def b_runs(d, i):
    out = []
    prev = None
    n = 0
    for v in d:
        if v == prev:
            n += 1
        else:
            if prev is not None:
                out.append((prev, n))
            prev, n = v, 1
    if prev is not None:
        out.append((prev, n))
    return out


def b_file(d, i):
    f = BytesIO(d)
    a = f.read(2)
    p = f.tell()
    f.seek(1)
    b = f.read()
    return (a, p, b, f.read(), f.tell())


def b_filewrite(d, i):
    f = BytesIO()
    f.write(d)
    f.write(b"!")
    return f.getvalue()


def b_join(d, i):
    return b"".join([d[:2], b"-", d[2:]])


def b_joingen(d, i):
    return b"".join(bytes([x, 0]) for x in d)


def b_lastzero(d, i):
    p = d.find(b"\x00", i)
    if p < 0:
        raise EOFError
    return d[i:p]


def b_latin1(d, i):
    return (d.decode("latin1"), d.decode("latin1").encode("latin1"))


def b_ascii(d, i):
    return d.decode("ascii")


def b_decode_handler(d, i):
    return (d.decode("ascii", "ignore"), str(d, "ascii", "replace"), d.decode("ascii", errors="backslashreplace"))


def b_listops(d, i):
    xs = list(d)
    xs.insert(1, 300)
    y = xs.pop()
    xs.append(7)
    return (xs, y, len(xs), xs[-1], xs.index(300), xs.count(7))


def b_dict(d, i):
    h = {}
    for v in (1, 2, 3):
        h[v] = d[v]
    return (h.get(2), h.get(9), len(h), 3 in h)


def b_sortpairs(d, i):
    return sorted([(d[0], 1), (d[1], 2), (d[2], 3)], key=itemgetter(0))


def b_memory(d, i):
    m = memoryview(d)
    return (bytes(m[1:3]), len(m), m.tobytes())


# text ----------------------------------------------------------------------------------------------------------------
def t_hex(d, i):
    s = d.hex().upper()
    return [int(s[k : k + 2], 16) for k in range(0, len(s), 2)]


def t_fields(d, i):
    line = f"S1{len(d) + 3:02X}{i:04X}" + "".join("%02X" % b for b in d)
    return (int(line[2:4], 16), int(line[4:8], 16), line[8:], line.startswith("S1"), line[0])


def t_fixed(d, i):
    d = d[:3]
    i &= 0xFFFF
    line = f"S1{len(d) + 3:02X}{i:04X}" + "".join("%02X" % b for b in d)
    return (int(line[2:4], 16), int(line[4:8], 16), line[8:], len(line), line[0], line.endswith("00"))


def t_format(d, i):
    i &= 0xFFFF
    return (f"{i:04X}", f"{i:04x}".upper(), f"{i:04X}"[1:3], int(f"{i:04X}"[2:], 16), f"{i:04X}" + "\n", ("%04X" % i).strip(), f" {i:02X} ".strip())


def t_split(d, i):
    line = f"{i:04X} " + " ".join(f"{b:02X}" for b in d)
    a = line.split(" ")
    return (a[0], line.lower())


def t_splitfixed(d, i):
    i &= 0xFFFF
    line = f"{i:04X} {i & 255:02X} {i >> 8:02X}"
    a = line.split(" ")
    return (a[0], len(a), a[2], len(line.split()), line.split()[1], line.strip())


def t_lines(d, i):
    s = "".join(f"{b:02X}\n" for b in d)
    return s.encode("ascii")


def t_encode_handler(d, i):
    s = d.decode("latin1")
    return (s.encode("ascii", "replace"), bytes(s, "ascii", "ignore"))


def t_regex(d, i):
    line = f":{len(d):02X}{i:04X}00" + "".join("%02X" % b for b in d)
    m = LINE.match(line)
    return (m.group("len"), int(m.group("addr"), 16), m.group("data"))


def t_regexfixed(d, i):
    i &= 0xFFFF
    line = f":{i & 255:02X}{i:04X}00"
    m = LINE.match(line)
    return (m.group("len"), int(m.group("addr"), 16), m.group("data"), m.group("type"))


def t_unhex(d, i):
    return binascii.unhexlify(d.hex()[:5])


def t_replace(d, i):
    i &= 0xFFFF
    return ("{:04X}".format(i) + "-" + "%04X" % i).replace("-", "")


def t_just(d, i):
    return (f"{i:X}".rjust(6, "0"), f"{i:X}".zfill(8), f"{i:d}".ljust(6) + "|")


INTS = [i_divmod, i_arith, i_shift, i_mask, i_bits, i_rotate, i_chain, i_range, i_rangelen, i_while, i_carry, i_hex, i_pad, i_tobytes, i_overflow, i_pack, i_sorted, i_bisect, i_try, i_neglist, i_chr]
BYTES = [v for k, v in list(globals().items()) if k[:2] in ("b_", "t_")]
INT_POINTS = [(0, 1), (5, 3), (-7, 2), (300, -4), (-1, -1), (3, 40), (65535, 7), (255, 256), (-256, 0), (2, 0)]
BYTE_POINTS = [(b"\x00\x01", 0), (b"", 0), (b"ABC", 1), (b"\xff\x00\x80\x7f", 2), (b"\x07\x07\x07\x01\x01", 1), (b"\x10\x20\x30\x00\xff\xfe\x00", 5), (bytes(range(250, 256)) + b"0", 6)]
