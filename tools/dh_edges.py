"""Writes harness/dh_edges.inc: private keys and public values whose X25519 or X448 result is a chosen
number (tiny, just below the prime, at limb boundaries), which no random exchange gives."""
import os, random
random.seed(7)
def ladder(k, u, p, a24):
    x1, x2, z2, x3, z3, s = u, 1, 0, u, 1, 0
    for t in reversed(range(k.bit_length())):
        b = k >> t & 1; s ^= b
        if s: x2, x3, z2, z3 = x3, x2, z3, z2
        s = b
        A = x2 + z2; AA = A * A; B = x2 - z2; BB = B * B; E = AA - BB; C = x3 + z3; D = x3 - z3
        DA = D * A; CB = C * B; x3 = (DA + CB) ** 2 % p; z3 = u * (DA - CB) ** 2 % p; x2 = AA * BB % p; z2 = E * (AA + a24 * E) % p
    if s: x2, x3, z2, z3 = x3, x2, z3, z2
    return x2, z2
def x(k, u, p, a24):
    X, Z = ladder(k, u, p, a24); return X * pow(Z, p - 2, p) % p
def gen(name, p, A, n, l, lt, bits, limbs):
    a24 = (A - 2) // 4; cand = list(range(2, 60)) + [p - i for i in range(2, 60)]
    for w in limbs:
        for i in range(0, bits, w):
            for d in (-2, -1, 0, 1, 2): cand.append((1 << i) + d)
            cand.append(p - (1 << i)); cand.append(((1 << bits) - 1) ^ ((1 << min(i + w, bits)) - (1 << i))); cand.append(((1 << bits) - 1) >> (bits - i - 1))
    cand = sorted({c % p for c in cand} - {0, 1}); random.shuffle(cand); out = []
    for t in cand:
        rhs = (t ** 3 + A * t * t + t) % p; order = l if pow(rhs, (p - 1) // 2, p) == 1 else lt
        if ladder(order, t, p, a24)[1] % p: continue       # not in the prime-order subgroup
        k = bytearray(random.randbytes(n)); kc = bytearray(k)
        if n == 32: kc[0] &= 248; kc[31] = kc[31] & 127 | 64
        else: kc[0] &= 252; kc[55] |= 128
        K = int.from_bytes(kc, "little"); q = x(pow(K, -1, order), t, p, a24)
        assert x(K, q, p, a24) == t
        out.append((bytes(k), q.to_bytes(n, "little"), t.to_bytes(n, "little")))
        if len(out) == 120: break
    h = lambda b: "{" + ",".join(map(str, b)) + "}"
    return "static const uint8_t %s[][3][%d] = {\n" % (name, n) + "".join("{%s,%s,%s},\n" % tuple(map(h, o)) for o in out) + "};\n"
p = 2**255 - 19; l = 2**252 + 27742317777372353535851937790883648493
s = gen("edges25519", p, 486662, 32, l, (2 * p + 2 - 8 * l) // 4, 255, [51, 25, 26, 64, 32])
p = 2**448 - 2**224 - 1; l = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
s += gen("edges448", p, 156326, 56, l, (2 * p + 2 - 4 * l) // 4, 448, [56, 28, 64, 224])
open(os.path.join(os.path.dirname(__file__), "../harness/dh_edges.inc"), "w").write("// written by tools/dh_edges.py\n" + s)
