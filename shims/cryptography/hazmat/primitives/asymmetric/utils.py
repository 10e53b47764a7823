def _int(n):
    b = n.to_bytes((n.bit_length() + 8) // 8 or 1, "big")
    return b"\x02" + bytes([len(b)]) + b


def encode_dss_signature(r, s):
    body = _int(r) + _int(s)
    return b"\x30" + bytes([len(body)]) + body


def decode_dss_signature(der):
    n = der[3]
    r = int.from_bytes(der[4:4 + n], "big")
    m = der[5 + n]
    s = int.from_bytes(der[6 + n:6 + n + m], "big")
    return r, s
