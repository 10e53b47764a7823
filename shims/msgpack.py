# Offline stand-in for msgpack: packb/unpackb for JSON-like values and bytes.
import struct

version = (1, 2, 1)


class UnpackException(Exception):
    pass


class ExtraData(UnpackException, ValueError):
    pass


class OutOfData(UnpackException):
    pass


class FormatError(ValueError, UnpackException):
    pass


def _pack(o, out):
    if o is None:
        out += b"\xc0"
    elif o is False:
        out += b"\xc2"
    elif o is True:
        out += b"\xc3"
    elif isinstance(o, int):
        if 0 <= o < 128:
            out.append(o)
        elif -32 <= o < 0:
            out += struct.pack("b", o)
        elif 0 <= o < 1 << 8:
            out += b"\xcc" + struct.pack(">B", o)
        elif 0 <= o < 1 << 16:
            out += b"\xcd" + struct.pack(">H", o)
        elif 0 <= o < 1 << 32:
            out += b"\xce" + struct.pack(">I", o)
        elif 0 <= o < 1 << 64:
            out += b"\xcf" + struct.pack(">Q", o)
        elif -(1 << 7) <= o < 0:
            out += b"\xd0" + struct.pack(">b", o)
        elif -(1 << 15) <= o < 0:
            out += b"\xd1" + struct.pack(">h", o)
        elif -(1 << 31) <= o < 0:
            out += b"\xd2" + struct.pack(">i", o)
        elif -(1 << 63) <= o < 0:
            out += b"\xd3" + struct.pack(">q", o)
        else:
            raise OverflowError("Integer value out of range")
    elif isinstance(o, float):
        out += b"\xcb" + struct.pack(">d", o)
    elif isinstance(o, str):
        b = o.encode("utf-8")
        n = len(b)
        if n < 32:
            out.append(0xa0 | n)
        elif n < 1 << 8:
            out += b"\xd9" + struct.pack(">B", n)
        elif n < 1 << 16:
            out += b"\xda" + struct.pack(">H", n)
        else:
            out += b"\xdb" + struct.pack(">I", n)
        out += b
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        n = len(b)
        out += (b"\xc4" + struct.pack(">B", n) if n < 1 << 8 else
                b"\xc5" + struct.pack(">H", n) if n < 1 << 16 else b"\xc6" + struct.pack(">I", n))
        out += b
    elif isinstance(o, (list, tuple)):
        n = len(o)
        out += (bytes([0x90 | n]) if n < 16 else
                b"\xdc" + struct.pack(">H", n) if n < 1 << 16 else b"\xdd" + struct.pack(">I", n))
        for x in o:
            _pack(x, out)
    elif isinstance(o, dict):
        n = len(o)
        out += (bytes([0x80 | n]) if n < 16 else
                b"\xde" + struct.pack(">H", n) if n < 1 << 16 else b"\xdf" + struct.pack(">I", n))
        for k, v in o.items():
            _pack(k, out)
            _pack(v, out)
    else:
        raise TypeError(f"can not serialize {type(o)!r} object")


def packb(o, **kwa):
    out = bytearray()
    _pack(o, out)
    return bytes(out)


def _unpack(b, i):
    def need(n):
        if i + n > len(b):
            raise OutOfData("Unpack failed: incomplete input")

    def at(fmt, off):
        n = struct.calcsize(fmt)
        need(off + n)
        return struct.unpack_from(fmt, b, i + off)[0]
    need(1)
    c = b[i]

    def s(n, off, i=i):
        if i + off + n > len(b):
            raise OutOfData("Unpack failed: incomplete input")
        return bytes(b[i + off:i + off + n]), i + off + n

    def arr(n, j):
        out = []
        for _ in range(n):
            v, j = _unpack(b, j)
            out.append(v)
        return out, j

    def mp(n, j):
        out = {}
        for _ in range(n):
            k, j = _unpack(b, j)
            v, j = _unpack(b, j)
            out[k] = v
        return out, j

    if c < 0x80:
        return c, i + 1
    if c < 0x90:
        return mp(c & 15, i + 1)
    if c < 0xa0:
        return arr(c & 15, i + 1)
    if c < 0xc0:
        v, j = s(c & 31, 1)
        return v.decode("utf-8"), j
    if c >= 0xe0:
        return c - 256, i + 1
    if c == 0xc0:
        return None, i + 1
    if c == 0xc2:
        return False, i + 1
    if c == 0xc3:
        return True, i + 1
    if c in (0xc4, 0xc5, 0xc6):
        f = {0xc4: ">B", 0xc5: ">H", 0xc6: ">I"}[c]
        return s(at(f, 1), 1 + struct.calcsize(f))
    if c in (0xd9, 0xda, 0xdb):
        f = {0xd9: ">B", 0xda: ">H", 0xdb: ">I"}[c]
        v, j = s(at(f, 1), 1 + struct.calcsize(f))
        return v.decode("utf-8"), j
    nums = {0xca: ">f", 0xcb: ">d", 0xcc: ">B", 0xcd: ">H", 0xce: ">I", 0xcf: ">Q",
            0xd0: ">b", 0xd1: ">h", 0xd2: ">i", 0xd3: ">q"}
    if c in nums:
        return at(nums[c], 1), i + 1 + struct.calcsize(nums[c])
    if c in (0xdc, 0xdd):
        f = ">H" if c == 0xdc else ">I"
        return arr(at(f, 1), i + 1 + struct.calcsize(f))
    if c in (0xde, 0xdf):
        f = ">H" if c == 0xde else ">I"
        return mp(at(f, 1), i + 1 + struct.calcsize(f))
    raise FormatError(f"Unpack failed: type {c:#x}")


def unpackb(b, **kwa):
    b = bytes(b)
    try:
        v, j = _unpack(b, 0)
    except OutOfData as ex:
        raise ValueError("Unpack failed: incomplete input") from ex
    if j != len(b):
        raise ExtraData("unpack(b) received extra data.")
    return v


dumps, loads = packb, unpackb


def dump(o, f, **kwa):
    f.write(packb(o))


def load(f, **kwa):
    return unpackb(f.read())


pack, unpack = dump, load
