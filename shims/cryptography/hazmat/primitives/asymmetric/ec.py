import hashlib
import hmac
from functools import lru_cache
from ....exceptions import InvalidSignature
from .utils import encode_dss_signature, decode_dss_signature


class _Curve:
    def __init__(self, name, p, a, b, gx, gy, n):
        self.name, self.p, self.a, self.b, self.g, self.n = name, p, a, b, (gx, gy), n

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            lam = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            lam = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (lam * lam - P[0] - Q[0]) % p
        return x, (lam * (P[0] - x) - P[1]) % p

    def mul(self, k, P):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R


_R1 = _Curve("secp256r1", 2**256 - 2**224 + 2**192 + 2**96 - 1, -3,
             0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,
             0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
             0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5,
             0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551)
_K1 = _Curve("secp256k1", 2**256 - 2**32 - 977, 0, 7,
             0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
             0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8,
             0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141)


class SECP256R1:
    name, curve = "secp256r1", _R1


class SECP256K1:
    name, curve = "secp256k1", _K1


class ECDSA:
    def __init__(self, alg):
        self.alg = alg


def _e(ser, alg):
    return int.from_bytes(hashlib.new(alg.alg.name, bytes(ser)).digest(), "big")


@lru_cache(maxsize=4096)
def _mulg(name, d):
    c = _R1 if name == "secp256r1" else _K1
    return c.mul(d, c.g)


class EllipticCurvePrivateKey:
    def __init__(self, d, curve):
        self.d, self.curve = d, curve

    def public_key(self):
        return EllipticCurvePublicKey(_mulg(self.curve.name, self.d), self.curve)

    def sign(self, ser, alg):
        c, e = self.curve.curve, _e(ser, alg)
        k = int.from_bytes(hmac.new(self.d.to_bytes(32, "big"), bytes(ser), "sha512").digest(), "big") % (c.n - 1) + 1
        r = c.mul(k, c.g)[0] % c.n
        s = pow(k, -1, c.n) * (e + r * self.d) % c.n
        return encode_dss_signature(r, s)


class EllipticCurvePublicKey:
    def __init__(self, point, curve):
        self.point, self.curve = point, curve

    @classmethod
    def from_encoded_point(cls, curve, data):
        c, data = curve.curve, bytes(data)
        if len(data) != 33 or data[0] not in (2, 3):
            raise ValueError("invalid point encoding")
        x = int.from_bytes(data[1:], "big")
        y2 = (x * x * x + c.a * x + c.b) % c.p
        y = pow(y2, (c.p + 1) // 4, c.p)
        if y * y % c.p != y2:
            raise ValueError("point not on curve")
        if y & 1 != data[0] & 1:
            y = c.p - y
        return cls((x, y), curve)

    def public_bytes(self, encoding=None, format=None):
        return bytes([2 | self.point[1] & 1]) + self.point[0].to_bytes(32, "big")

    def verify(self, der, ser, alg):
        c, e = self.curve.curve, _e(ser, alg)
        r, s = decode_dss_signature(der)
        if not (0 < r < c.n and 0 < s < c.n):
            raise InvalidSignature()
        w = pow(s, -1, c.n)
        P = c.add(c.mul(e * w % c.n, c.g), c.mul(r * w % c.n, self.point))
        if P is None or P[0] % c.n != r:
            raise InvalidSignature()


def derive_private_key(d, curve, *pa):
    return EllipticCurvePrivateKey(d, curve)
