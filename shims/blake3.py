# Offline pure-Python BLAKE3 (hash mode only), cached: keri hashes the same events repeatedly.
from functools import lru_cache
import struct

IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19)
PERM = (2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8)
CHUNK_START, CHUNK_END, PARENT, ROOT = 1, 2, 4, 8
M32 = 0xFFFFFFFF


def _sched():
    idx = list(range(16))
    out = []
    for _ in range(7):
        out.append(tuple(idx))
        idx = [idx[p] for p in PERM]
    return out


def _gen():
    """Generate an unrolled compression function (about 4x faster than a loop)."""
    lines = ["def compress(cv, m, counter, blen, flags):",
             " v0,v1,v2,v3,v4,v5,v6,v7=cv",
             " v8,v9,v10,v11=%d,%d,%d,%d" % IV[:4],
             " v12=counter&M;v13=(counter>>32)&M;v14=blen;v15=flags",
             " " + ",".join("m%d" % i for i in range(16)) + "=m"]
    quads = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
             (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]
    for rnd in _sched():
        for g, (a, b, c, d) in enumerate(quads):
            x, y = rnd[2 * g], rnd[2 * g + 1]
            lines.append(
                f" v{a}=(v{a}+v{b}+m{x})&M;t=v{d}^v{a};v{d}=((t>>16)|(t<<16))&M;"
                f"v{c}=(v{c}+v{d})&M;t=v{b}^v{c};v{b}=((t>>12)|(t<<20))&M;"
                f"v{a}=(v{a}+v{b}+m{y})&M;t=v{d}^v{a};v{d}=((t>>8)|(t<<24))&M;"
                f"v{c}=(v{c}+v{d})&M;t=v{b}^v{c};v{b}=((t>>7)|(t<<25))&M")
    lines.append(" return (" + ",".join(f"v{i}^v{i+8}" for i in range(8)) + "," +
                 ",".join(f"v{i+8}^cv[{i}]" for i in range(8)) + ")")
    ns = {"M": M32}
    exec("\n".join(lines), ns)
    return ns["compress"]


compress = _gen()


def _words(block):
    return struct.unpack("<16I", block.ljust(64, b"\0"))


def _chunk(data, counter):
    """-> (cv, words, counter, blen, flags) of the last block, not yet compressed."""
    cv = IV
    blocks = [data[i:i + 64] for i in range(0, len(data), 64)] or [b""]
    for i, block in enumerate(blocks):
        flags = (CHUNK_START if i == 0 else 0) | (CHUNK_END if i == len(blocks) - 1 else 0)
        if i == len(blocks) - 1:
            return cv, _words(block), counter, len(block), flags
        cv = compress(cv, _words(block), counter, 64, flags)[:8]


def _tree(chunks, base):
    if len(chunks) == 1:
        return _chunk(chunks[0], base)
    half = 1
    while half * 2 < len(chunks):
        half *= 2
    left = compress(*_tree(chunks[:half], base))[:8]
    right = compress(*_tree(chunks[half:], base + half))[:8]
    return IV, left + right, 0, 64, PARENT


@lru_cache(maxsize=65536)
def _digest(data, length):
    chunks = [data[i:i + 1024] for i in range(0, len(data), 1024)] or [b""]
    cv, words, counter, blen, flags = _tree(chunks, 0)
    out, i = b"", 0
    while len(out) < length:
        out += struct.pack("<16I", *compress(cv, words, i if True else counter, blen, flags | ROOT))
        i += 1
    return out[:length]


class blake3:
    digest_size = 32
    block_size = 64
    name = "blake3"

    def __init__(self, data=b"", **kwa):
        self._data = bytes(data)

    def update(self, data):
        self._data += bytes(data)
        return self

    def digest(self, length=32, seek=0):
        return _digest(self._data, length)

    def hexdigest(self, length=32):
        return self.digest(length).hex()


__version__ = "1.0.8-shim"
