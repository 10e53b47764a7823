# Argon2id v1.3, one lane, pure Python (for the tiny "MIN" cost limits keri uses when temp=True).
import struct
from hashlib import blake2b

M64 = (1 << 64) - 1


def _H(x, n):
    x = struct.pack("<I", n) + x
    if n <= 64:
        return blake2b(x, digest_size=n).digest()
    v = blake2b(x, digest_size=64).digest()
    out, left = v[:32], n - 32
    while left > 64:
        v = blake2b(v, digest_size=64).digest()
        out += v[:32]
        left -= 32
    return out + blake2b(v, digest_size=left).digest()


def _P(v, ix):
    def G(a, b, c, d):
        a, b, c, d = ix[a], ix[b], ix[c], ix[d]
        va, vb, vc, vd = v[a], v[b], v[c], v[d]
        L = 0xFFFFFFFF
        va = (va + vb + 2 * (va & L) * (vb & L)) & M64
        t = vd ^ va
        vd = (t >> 32) | (t << 32) & M64
        vc = (vc + vd + 2 * (vc & L) * (vd & L)) & M64
        t = vb ^ vc
        vb = (t >> 24) | (t << 40) & M64
        va = (va + vb + 2 * (va & L) * (vb & L)) & M64
        t = vd ^ va
        vd = (t >> 16) | (t << 48) & M64
        vc = (vc + vd + 2 * (vc & L) * (vd & L)) & M64
        t = vb ^ vc
        vb = (t >> 63) | (t << 1) & M64
        v[a], v[b], v[c], v[d] = va, vb, vc, vd
    for q in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
              (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
        G(*q)


def _G(X, Y):
    R = [a ^ b for a, b in zip(X, Y)]
    Q = list(R)
    for i in range(8):
        _P(Q, range(16 * i, 16 * i + 16))
    for i in range(8):
        _P(Q, [16 * j + 2 * i + k for j in range(8) for k in (0, 1)])
    return [a ^ b for a, b in zip(Q, R)]


def argon2id(password, salt, t, mem_kib, outlen, alg=2):
    p = 1
    h0 = blake2b(struct.pack("<6I", p, outlen, mem_kib, t, 0x13, alg) + struct.pack("<I", len(password)) + password +
                 struct.pack("<I", len(salt)) + salt + struct.pack("<II", 0, 0), digest_size=64).digest()
    m = 4 * p * (mem_kib // (4 * p))
    q, seg = m // p, m // p // 4
    B = [None] * q
    for i in (0, 1):
        B[i] = list(struct.unpack("<128Q", _H(h0 + struct.pack("<II", i, 0), 1024)))
    zero = [0] * 128
    for pas in range(t):
        for sl in range(4):
            indep = alg == 1 or (alg == 2 and pas == 0 and sl < 2)
            addr = None
            inp = [pas, 0, sl, m, t, alg, 0] + [0] * 121
            for i in range(seg):
                if indep and (i % 128 == 0 or addr is None):
                    inp[6] += 1
                    addr = _G(zero, _G(zero, inp))
                if pas == 0 and sl == 0 and i < 2:
                    continue
                cur = sl * seg + i
                prev = B[cur - 1 if cur else q - 1]
                rand = addr[i % 128] if indep else prev[0]
                j1 = rand & 0xFFFFFFFF
                if pas == 0:
                    area = (i - 1) if sl == 0 else sl * seg + i - 1
                else:
                    area = q - seg + i - 1
                x = (j1 * j1) >> 32
                z = area - 1 - ((area * x) >> 32)
                start = 0 if pas == 0 else (0 if sl == 3 else (sl + 1) * seg)
                new = _G(prev, B[(start + z) % q])
                B[cur] = new if pas == 0 else [a ^ b for a, b in zip(new, B[cur])]
    return _H(struct.pack("<128Q", *B[q - 1]), outlen)
