"""Keccak-256, only to generate plausible topics (the specification has its own)."""
RC = []
ROT = [[0] * 5 for _ in range(5)]


def _init():
    r = 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1:
                c |= 1 << ((1 << j) - 1)
            r = ((r << 1) ^ (0x171 if r & 0x80 else 0)) & 0xFF if r & 0x80 else r << 1
        RC.append(c)
    x, y = 1, 0
    for t in range(24):
        ROT[x][y] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5


_init()
M = (1 << 64) - 1


def rol(v, n):
    return ((v << n) | (v >> (64 - n))) & M if n else v


def perm(a):
    for rc in RC:
        c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
        d = [c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for x in range(5)]
        a = [[a[x][y] ^ d[x] for y in range(5)] for x in range(5)]
        b = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                b[y][(2 * x + 3 * y) % 5] = rol(a[x][y], ROT[x][y])
        a = [[b[x][y] ^ (~b[(x + 1) % 5][y] & M & b[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        a[0][0] ^= rc
    return a


def keccak256(data):
    data = bytes(data)
    p = bytearray(data + b"\x01" + b"\0" * (-(len(data) + 1) % 136))
    p[-1] |= 0x80
    a = [[0] * 5 for _ in range(5)]
    for o in range(0, len(p), 136):
        for i in range(17):
            a[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], "little")
        a = perm(a)
    return list(b"".join(a[i % 5][i // 5].to_bytes(8, "little") for i in range(4)))


if __name__ == "__main__":
    print(bytes(keccak256(b"")).hex(), bytes(keccak256(b"transfer(address,uint256)")).hex()[:8])
