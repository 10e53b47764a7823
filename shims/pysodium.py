# Offline stand-in for pysodium. Ed25519 and X25519 come from the OpenSSL libcrypto that Python's
# own ssl module links (real signatures); sealed boxes are XSalsa20-Poly1305 in Python.
# crypto_pwhash is Argon2id for small memory limits (keri's temp=True); above 1 MiB a deterministic
# stand-in that is NOT Argon2id, because the real one is unusably slow in Python.
import ctypes
import ctypes.util
import hashlib
import hmac
import os
from functools import lru_cache
import struct
from _argon2 import argon2id

crypto_sign_SEEDBYTES = 32
crypto_sign_BYTES = 64
crypto_sign_PUBLICKEYBYTES = 32
crypto_sign_SECRETKEYBYTES = 64
crypto_box_SEALBYTES = 48
crypto_pwhash_SALTBYTES = 16
crypto_pwhash_ALG_ARGON2I13 = 1
crypto_pwhash_ALG_ARGON2ID13 = 2
crypto_pwhash_ALG_DEFAULT = 2
crypto_pwhash_OPSLIMIT_MIN = 1
crypto_pwhash_MEMLIMIT_MIN = 8192
crypto_pwhash_OPSLIMIT_INTERACTIVE = 2
crypto_pwhash_MEMLIMIT_INTERACTIVE = 67108864
crypto_pwhash_OPSLIMIT_MODERATE = 3
crypto_pwhash_MEMLIMIT_MODERATE = 268435456
crypto_pwhash_OPSLIMIT_SENSITIVE = 4
crypto_pwhash_MEMLIMIT_SENSITIVE = 1073741824

import ssl  # noqa: loads libcrypto
_c = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
_P = ctypes.c_void_p
for _n, _a in (("EVP_PKEY_new_raw_private_key", [ctypes.c_int, _P, ctypes.c_char_p, ctypes.c_size_t]),
               ("EVP_PKEY_new_raw_public_key", [ctypes.c_int, _P, ctypes.c_char_p, ctypes.c_size_t]),
               ("EVP_MD_CTX_new", []), ("EVP_PKEY_CTX_new", [_P, _P])):
    getattr(_c, _n).restype = _P
    getattr(_c, _n).argtypes = _a
_c.EVP_PKEY_get_raw_public_key.argtypes = [_P, ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t)]
_c.EVP_DigestSignInit.argtypes = [_P, _P, _P, _P, _P]
_c.EVP_DigestVerifyInit.argtypes = [_P, _P, _P, _P, _P]
_c.EVP_DigestSign.argtypes = [_P, ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t), ctypes.c_char_p, ctypes.c_size_t]
_c.EVP_DigestVerify.argtypes = [_P, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]
_c.EVP_MD_CTX_free.argtypes = [_P]
_c.EVP_PKEY_free.argtypes = [_P]
_c.EVP_PKEY_CTX_free.argtypes = [_P]
_c.EVP_PKEY_derive_init.argtypes = [_P]
_c.EVP_PKEY_derive_set_peer.argtypes = [_P, _P]
_c.EVP_PKEY_derive.argtypes = [_P, ctypes.c_char_p, ctypes.POINTER(ctypes.c_size_t)]
NID_ED25519, NID_X25519 = 1087, 1034


def randombytes(n):
    return os.urandom(n)


def _check(name, val, size):
    if len(val) != size:
        raise ValueError(f"{name}: expected {size} bytes, got {len(val)}")
    return bytes(val)


@lru_cache(maxsize=65536)
def _pub(nid, seed):
    key = _c.EVP_PKEY_new_raw_private_key(nid, None, seed, 32)
    buf, n = ctypes.create_string_buffer(32), ctypes.c_size_t(32)
    _c.EVP_PKEY_get_raw_public_key(key, buf, ctypes.byref(n))
    _c.EVP_PKEY_free(key)
    return buf.raw


def crypto_sign_seed_keypair(seed):
    seed = _check("seed", seed, 32)
    pk = _pub(NID_ED25519, seed)
    return pk, seed + pk


def crypto_sign_keypair():
    return crypto_sign_seed_keypair(randombytes(32))


@lru_cache(maxsize=65536)
def _sign(msg, seed):
    key = _c.EVP_PKEY_new_raw_private_key(NID_ED25519, None, seed, 32)
    ctx = _c.EVP_MD_CTX_new()
    _c.EVP_DigestSignInit(ctx, None, None, None, key)
    buf, n = ctypes.create_string_buffer(64), ctypes.c_size_t(64)
    ok = _c.EVP_DigestSign(ctx, buf, ctypes.byref(n), msg, len(msg))
    _c.EVP_MD_CTX_free(ctx)
    _c.EVP_PKEY_free(key)
    if ok != 1:
        raise ValueError("sign failed")
    return buf.raw


def crypto_sign_detached(m, sk):
    return _sign(bytes(m), _check("sk", sk, 64)[:32])


@lru_cache(maxsize=65536)
def _verify(sig, msg, pk):
    key = _c.EVP_PKEY_new_raw_public_key(NID_ED25519, None, pk, 32)
    if not key:
        return False
    ctx = _c.EVP_MD_CTX_new()
    _c.EVP_DigestVerifyInit(ctx, None, None, None, key)
    ok = _c.EVP_DigestVerify(ctx, sig, len(sig), msg, len(msg))
    _c.EVP_MD_CTX_free(ctx)
    _c.EVP_PKEY_free(key)
    return ok == 1


def crypto_sign_verify_detached(sig, msg, pk):
    if not _verify(_check("sig", sig, 64), bytes(msg), _check("pk", pk, 32)):
        raise ValueError("signature verification failed")


P25519 = 2 ** 255 - 19


def crypto_sign_pk_to_box_pk(pk):
    y = int.from_bytes(_check("pk", pk, 32), "little") & ((1 << 255) - 1)
    u = (1 + y) * pow(1 - y, P25519 - 2, P25519) % P25519
    return u.to_bytes(32, "little")


def crypto_sign_sk_to_box_sk(sk):
    h = bytearray(hashlib.sha512(bytes(sk)[:32]).digest()[:32])
    h[0] &= 248
    h[31] &= 127
    h[31] |= 64
    return bytes(h)


def crypto_scalarmult_curve25519_base(sk):
    return _pub(NID_X25519, _check("sk", sk, 32))


def crypto_scalarmult_curve25519(sk, pk):
    key = _c.EVP_PKEY_new_raw_private_key(NID_X25519, None, _check("sk", sk, 32), 32)
    peer = _c.EVP_PKEY_new_raw_public_key(NID_X25519, None, _check("pk", pk, 32), 32)
    ctx = _c.EVP_PKEY_CTX_new(key, None)
    _c.EVP_PKEY_derive_init(ctx)
    _c.EVP_PKEY_derive_set_peer(ctx, peer)
    buf, n = ctypes.create_string_buffer(32), ctypes.c_size_t(32)
    ok = _c.EVP_PKEY_derive(ctx, buf, ctypes.byref(n))
    _c.EVP_PKEY_CTX_free(ctx)
    _c.EVP_PKEY_free(peer)
    _c.EVP_PKEY_free(key)
    if ok != 1:
        raise ValueError("scalarmult failed")
    return buf.raw


def crypto_sign_sk_to_pk(sk):
    return bytes(sk)[32:]


def crypto_sign_sk_to_seed(sk):
    return bytes(sk)[:32]


def crypto_box_keypair():
    sk = randombytes(32)
    return crypto_scalarmult_curve25519_base(sk), sk


def _salsa_rounds(x):
    def r(a, n):
        a &= 0xFFFFFFFF
        return ((a << n) | (a >> (32 - n))) & 0xFFFFFFFF
    for _ in range(10):
        for a, b, c, d in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11),
                           (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            x[b] ^= r(x[a] + x[d], 7)
            x[c] ^= r(x[b] + x[a], 9)
            x[d] ^= r(x[c] + x[b], 13)
            x[a] ^= r(x[d] + x[c], 18)
    return x


_SIG = struct.unpack("<4I", b"expand 32-byte k")


def _salsa_state(key, inp):
    k, n = struct.unpack("<8I", key), struct.unpack("<4I", inp)
    return [_SIG[0], *k[:4], _SIG[1], *n, _SIG[2], *k[4:], _SIG[3]]


def _hsalsa20(key, inp):
    x = _salsa_rounds(_salsa_state(key, inp))
    return struct.pack("<8I", x[0], x[5], x[10], x[15], x[6], x[7], x[8], x[9])


def _xsalsa20(key, nonce, n):
    sub = _hsalsa20(key, nonce[:16])
    out, i = b"", 0
    while len(out) < n:
        st = _salsa_state(sub, nonce[16:24] + struct.pack("<Q", i))
        x = _salsa_rounds(list(st))
        out += struct.pack("<16I", *[(a + b) & 0xFFFFFFFF for a, b in zip(st, x)])
        i += 1
    return out[:n]


def _poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0FFFFFFC0FFFFFFC0FFFFFFC0FFFFFFF
    s = int.from_bytes(key[16:32], "little")
    a, p = 0, (1 << 130) - 5
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b"\x01", "little")) * r % p
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, "little")


def _secretbox(key, nonce, msg):
    stream = _xsalsa20(key, nonce, 32 + len(msg))
    c = bytes(a ^ b for a, b in zip(msg, stream[32:]))
    return _poly1305(stream[:32], c) + c


def crypto_box_seal(msg, pk):
    esk = randombytes(32)
    epk = crypto_scalarmult_curve25519_base(esk)
    nonce = hashlib.blake2b(epk + bytes(pk), digest_size=24).digest()
    key = _hsalsa20(crypto_scalarmult_curve25519(esk, bytes(pk)), b"\0" * 16)
    return epk + _secretbox(key, nonce, bytes(msg))


def crypto_box_seal_open(c, pk, sk):
    c, pk, sk = bytes(c), bytes(pk), bytes(sk)
    epk, tag, ct = c[:32], c[32:48], c[48:]
    nonce = hashlib.blake2b(epk + pk, digest_size=24).digest()
    key = _hsalsa20(crypto_scalarmult_curve25519(sk, epk), b"\0" * 16)
    stream = _xsalsa20(key, nonce, 32 + len(ct))
    if not hmac.compare_digest(_poly1305(stream[:32], ct), tag):
        raise ValueError("sealed box: decryption failed")
    return bytes(a ^ b for a, b in zip(ct, stream[32:]))


@lru_cache(maxsize=65536)
def _pwhash(outlen, passwd, salt, ops, mem, alg):
    if mem <= 1 << 20:
        return argon2id(passwd, salt, ops, mem // 1024, outlen, alg)
    seed = hashlib.sha256(repr((ops, mem, alg)).encode()).digest()
    return hashlib.pbkdf2_hmac("sha256", passwd, salt + seed, 1, outlen)


def crypto_pwhash(outlen, passwd, salt, opslimit, memlimit, alg=crypto_pwhash_ALG_DEFAULT):
    if isinstance(passwd, str):
        passwd = passwd.encode()
    return _pwhash(outlen, bytes(passwd), _check("salt", salt, 16), opslimit, memlimit, alg)
