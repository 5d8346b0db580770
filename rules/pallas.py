"""The Pallas curve, for checking constants found in the program: hashing to the curve and fixed-base window tables.

Independent of the crates the program uses; the parameters are those of the Zcash protocol specification (5.4.9.6, 5.4.9.8)."""
import hashlib

P = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
Q = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
ISO_A = 0x18354a2eb0ea8c9c49be2d7258370742b74134581a27a59f92bb4b0b657a014b
ISO_B = 1265
Z = P - 13
ISO = (
    0x0e38e38e38e38e38e38e38e38e38e38e4081775473d8375b775f6034aaaaaaab,
    0x3509afd51872d88e267c7ffa51cf412a0f93b82ee4b994958cf863b02814fb76,
    0x17329b9ec525375398c7d7ac3d98fd13380af066cfeb6d690eb64faef37ea4f7,
    0x1c71c71c71c71c71c71c71c71c71c71c8102eea8e7b06eb6eebec06955555580,
    0x1d572e7ddc099cff5a607fcce0494a799c434ac1c96b6980c47f2ab668bcd71f,
    0x325669becaecd5d11d13bf2a7f22b105b4abf9fb9a1fc81c2aa3af1eae5b6604,
    0x1a12f684bda12f684bda12f684bda12f7642b01ad461bad25ad985b5e38e38e4,
    0x1a84d7ea8c396c47133e3ffd28e7a09507c9dc17725cca4ac67c31d8140a7dbb,
    0x3fb98ff0d2ddcadd303216cce1db9ff11765e924f745937802e2be87d225b234,
    0x025ed097b425ed097b425ed097b425ed0ac03e8e134eb3e493e53ab371c71c4f,
    0x0c02c5bcca0e6b7f0790bfb3506defb65941a3a4a97aa1b35a28279b1d1b42ae,
    0x17033d3c60c68173573b3d7f7d681310d976bbfabbc5661d4d90ab820b12320a,
    0x40000000000000000000000000000000224698fc094cf91b992d30ecfffffde5,
)


def inv(x):
    return pow(x, P - 2, P)


def is_square(x):
    return x % P == 0 or pow(x, (P - 1) // 2, P) == 1


def sqrt(x):
    """a square root (Tonelli-Shanks), or None"""
    x %= P
    if not is_square(x):
        return None
    if x == 0:
        return 0
    s, t = 32, (P - 1) >> 32
    c = pow(5, t, P)
    r, u, m = pow(x, (t + 1) // 2, P), pow(x, t, P), s
    while u != 1:
        i, v = 0, u
        while v != 1:
            v = v * v % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        r, c = r * b % P, b * b % P
        u, m = u * c % P, i
    return r


def add(a, b):
    """affine addition on y^2 = x^3 + 5; None is the identity"""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        l = 3 * a[0] * a[0] * inv(2 * a[1]) % P
    else:
        l = (b[1] - a[1]) * inv(b[0] - a[0]) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def neg(a):
    return None if a is None else (a[0], -a[1] % P)


def mul(k, a):
    r = None
    while k:
        if k & 1:
            r = add(r, a)
        a = add(a, a)
        k >>= 1
    return r


def hash_to_field(domain, msg):
    h = lambda d: hashlib.blake2b(d, digest_size=64).digest()
    dst = domain + b"-pallas_XMD:BLAKE2b_SSWU_RO_"
    dst += bytes([len(dst)])
    b0 = h(bytes(128) + msg + bytes([0, 128, 0]) + dst)
    b1 = h(b0 + b"\x01" + dst)
    b2 = h(bytes(x ^ y for x, y in zip(b0, b1)) + b"\x02" + dst)
    return [int.from_bytes(x, "big") % P for x in (b1, b2)]


def sswu(u):
    g = lambda x: (x * x * x + ISO_A * x + ISO_B) % P
    tv = (Z * Z * pow(u, 4, P) + Z * u * u) % P
    x1 = (-ISO_B * inv(ISO_A) * (1 + inv(tv))) % P if tv else ISO_B * inv(Z * ISO_A) % P
    x = x1 if is_square(g(x1)) else Z * u * u * x1 % P
    y = sqrt(g(x))
    if u % 2 != y % 2:
        y = P - y
    n = lambda *c: sum(k * pow(x, len(c) - 1 - i, P) for i, k in enumerate(c)) % P
    i = ISO
    return (n(*i[0:4]) * inv(n(1, i[4], i[5])) % P, y * n(*i[6:10]) * inv(n(1, i[10], i[11], i[12])) % P)


def group_hash(domain, msg):
    a, b = (sswu(u) for u in hash_to_field(domain, msg))
    return add(a, b)


def window_table(base, n, h=8):
    """the points a fixed-base multiplication in n windows looks up, window by window"""
    out, w = [], base
    for _ in range(n - 1):
        row, x = [], add(w, w)
        for _ in range(h):
            row.append(x)
            x = add(x, w)
        out.append(row)
        for _ in range(3):
            w = add(w, w)
    s = sum(2 ** (3 * j + 1) for j in range(n - 1)) % Q
    x, row = neg(mul(s, base)), []
    for _ in range(h):
        row.append(x)
        x = add(x, w)
    out.append(row)
    return out
