# Offline stand-in for cbor2: dumps/loads of JSON-like values and bytes (definite lengths).
import struct


class CBORError(Exception):
    pass


class CBORDecodeError(CBORError):
    pass


class CBORDecodeEOF(CBORDecodeError, EOFError):
    pass


class CBORDecodeValueError(CBORDecodeError, ValueError):
    pass


class CBOREncodeError(CBORError):
    pass


def _head(major, n):
    major <<= 5
    if n < 24:
        return bytes([major | n])
    if n < 1 << 8:
        return bytes([major | 24]) + struct.pack(">B", n)
    if n < 1 << 16:
        return bytes([major | 25]) + struct.pack(">H", n)
    if n < 1 << 32:
        return bytes([major | 26]) + struct.pack(">I", n)
    return bytes([major | 27]) + struct.pack(">Q", n)


def _enc(o, out):
    if o is None:
        out += b"\xf6"
    elif o is False:
        out += b"\xf4"
    elif o is True:
        out += b"\xf5"
    elif isinstance(o, int):
        if abs(o) >= 1 << 64:
            raise CBOREncodeError("bignum unsupported by shim")
        out += _head(0, o) if o >= 0 else _head(1, -1 - o)
    elif isinstance(o, float):
        out += b"\xfb" + struct.pack(">d", o)
    elif isinstance(o, str):
        b = o.encode("utf-8")
        out += _head(3, len(b)) + b
    elif isinstance(o, (bytes, bytearray, memoryview)):
        b = bytes(o)
        out += _head(2, len(b)) + b
    elif isinstance(o, (list, tuple)):
        out += _head(4, len(o))
        for x in o:
            _enc(x, out)
    elif isinstance(o, dict) or hasattr(o, "items"):
        out += _head(5, len(o))
        for k, v in o.items():
            _enc(k, out)
            _enc(v, out)
    else:
        raise CBOREncodeError(f"cannot serialize type {type(o)!r}")


def dumps(o, **kwa):
    out = bytearray()
    _enc(o, out)
    return bytes(out)


def _dec(b, i):
    def take(n):
        nonlocal i
        if i + n > len(b):
            raise CBORDecodeEOF("premature end of stream")
        v = b[i:i + n]
        i += n
        return v
    c = take(1)[0]
    major, info = c >> 5, c & 31
    if major == 7:
        if info == 20:
            return False, i
        if info == 21:
            return True, i
        if info in (22, 23):
            return None, i
        if info == 25:
            return struct.unpack(">e", take(2))[0], i
        if info == 26:
            return struct.unpack(">f", take(4))[0], i
        if info == 27:
            return struct.unpack(">d", take(8))[0], i
        raise CBORDecodeValueError(f"unsupported simple {info}")
    if info < 24:
        n = info
    elif info <= 27:
        size = 1 << (info - 24)
        n = int.from_bytes(take(size), "big")
    else:
        raise CBORDecodeValueError(f"unsupported additional info {info}")
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major == 2:
        return bytes(take(n)), i
    if major == 3:
        return bytes(take(n)).decode("utf-8"), i
    if major == 4:
        out = []
        for _ in range(n):
            v, i = _dec(b, i)
            out.append(v)
        return out, i
    if major == 5:
        out = {}
        for _ in range(n):
            k, i = _dec(b, i)
            v, i = _dec(b, i)
            out[k] = v
        return out, i
    raise CBORDecodeValueError(f"unsupported major type {major}")


def loads(b, **kwa):
    return _dec(bytes(b), 0)[0]


def dump(o, f, **kwa):
    f.write(dumps(o))


def load(f, **kwa):
    return loads(f.read())
