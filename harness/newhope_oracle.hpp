// Independent NewHope (USENIX 2016 parameters): O(n^2) evaluation instead of an NTT,
// SHAKE/SHA3/ChaCha20 from libcrypto.
#ifndef NEWHOPE_ORACLE_HPP
#define NEWHOPE_ORACLE_HPP
#include "oracle.hpp"
#include "nh_network.inc"
#include "nh_retry.inc"
namespace newhope {
static const int N = 1024; static const uint32_t Q = 12289;
typedef std::vector<uint32_t> Poly;
struct Tab {
    uint32_t psi[2 * N], ipsi[2 * N]; int rev[N]; uint32_t ninv;
    static uint32_t pw(uint64_t b, uint32_t e) { uint64_t r = 1; b %= Q; while (e) { if (e & 1) r = r * b % Q; b = b * b % Q; e >>= 1; } return r; }
    Tab() {
        uint32_t p = 7, ip = pw(7, Q - 2); psi[0] = ipsi[0] = 1;
        for (int i = 1; i < 2 * N; ++i) { psi[i] = psi[i - 1] * p % Q; ipsi[i] = ipsi[i - 1] * ip % Q; }
        for (int i = 0; i < N; ++i) { int r = 0; for (int b = 0; b < 10; ++b) if (i >> b & 1) r |= 512 >> b; rev[i] = r; }
        ninv = pw(N, Q - 2);
    }
};
inline const Tab &tab() { static Tab t; return t; }
// values of the polynomial whose coefficient rev(i) is x[i], at psi^(2k+1)
inline Poly fwd(const Poly &x) {
    const Tab &t = tab(); Poly out(N);
    for (int k = 0; k < N; ++k) {
        uint64_t acc = 0;
        for (int i = 0; i < N; ++i) acc += (uint64_t)x[i] * t.psi[(t.rev[i] * (2 * k + 1)) & 2047];
        out[k] = acc % Q;
    }
    return out;
}
inline Poly inv(const Poly &v) {
    const Tab &t = tab(); Poly out(N);
    for (int j = 0; j < N; ++j) {
        uint64_t acc = 0;
        for (int k = 0; k < N; ++k) acc += (uint64_t)v[k] * t.ipsi[(j * (2 * k + 1)) & 2047];
        out[j] = acc % Q * t.ninv % Q;
    }
    return out;
}
inline Bytes chacha(const uint8_t *key, const uint8_t nonce[8], size_t len) {
    uint8_t iv[16] = {0}; memcpy(iv + 8, nonce, 8);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); Bytes z(len, 0), o(len); int l;
    if (!EVP_EncryptInit_ex(c, EVP_chacha20(), 0, key, iv) || !EVP_EncryptUpdate(c, o.data(), &l, z.data(), len)) vh::die("chacha");
    EVP_CIPHER_CTX_free(c); return o;
}
inline Bytes sha3(const uint8_t *p, size_t n) {
    Bytes o(32); unsigned l; EVP_Digest(p, n, o.data(), &l, EVP_sha3_256(), 0); return o;
}
// A 32-byte string whose SHA3-256 is a seed for which the first 2688 bytes of SHAKE128 do not yield a
// polynomial, so that a second round is needed (about one seed in two million), or for which they only just do
// (a column with exactly 64 usable values); tools/nh_retry.c finds them.
inline Bytes rare_prefix(uint64_t n) {
    uint64_t k = n & 1 ? nh_retry[(n >> 1) % (sizeof nh_retry / sizeof *nh_retry)] : nh_tight[(n >> 1) % (sizeof nh_tight / sizeof *nh_tight)]; Bytes p(32, 0);
    for (int i = 0; i < 8; ++i) p[i] = k >> 8 * i;
    return p;
}
inline int &retries() { static int r = 0; return r; }
inline int &tight() { static int r = 0; return r; }
inline Poly uniform(const uint8_t seed[32]) {
    const size_t CH = 168 * 16;
    for (int round = 1;; ++round) {
        Bytes s(CH * round);
        EVP_MD_CTX *c = EVP_MD_CTX_new();
        EVP_DigestInit_ex(c, EVP_shake128(), 0); EVP_DigestUpdate(c, seed, 32);
        if (!EVP_DigestFinalXOF(c, s.data(), s.size())) vh::die("xof");
        EVP_MD_CTX_free(c);
        const uint8_t *b = s.data() + CH * (round - 1);
        std::vector<uint32_t> x(CH / 2);
        for (size_t i = 0; i < x.size(); ++i) x[i] = b[2 * i] | b[2 * i + 1] << 8;
        for (int col = 0; col < 16; ++col)
            for (auto &p : nh_network)
                if (x[col + 16 * p[0]] > 5 * Q - 1) std::swap(x[col + 16 * p[0]], x[col + 16 * p[1]]);
        bool ok = true;
        for (int i = 1008; i < 1024; ++i) if (x[i] > 61444) ok = false;
        if (!ok) { retries()++; continue; }
        for (int i = 1024; i < 1040; ++i) if (x[i] > 61444) { tight()++; break; }
        Poly a(N); for (int i = 0; i < N; ++i) a[i] = x[i] % Q;
        return a;
    }
}
inline Poly noise(const uint8_t *seed, uint8_t nonce) {
    uint8_t n[8] = {nonce}; Bytes b = chacha(seed, n, 4 * N); Poly p(N);
    for (int i = 0; i < N; ++i) {
        int a = __builtin_popcount(b[4 * i]) + __builtin_popcount(b[4 * i + 1]);
        int c = __builtin_popcount(b[4 * i + 2]) + __builtin_popcount(b[4 * i + 3]);
        p[i] = (Q + a - c) % Q;
    }
    return p;
}
inline Bytes pack(const Poly &p) {
    Bytes o(1792, 0);
    for (int i = 0; i < N; ++i) for (int b = 0; b < 14; ++b) if (p[i] >> b & 1) { size_t pos = (size_t)i * 14 + b; o[pos / 8] |= 1 << (pos % 8); }
    return o;
}
inline Poly unpack(const uint8_t *d) {
    Poly p(N);
    for (int i = 0; i < N; ++i) { uint32_t v = 0; for (int b = 0; b < 14; ++b) { size_t pos = (size_t)i * 14 + b; v |= (uint32_t)(d[pos / 8] >> (pos % 8) & 1) << b; } p[i] = v % Q; }
    return p;
}
inline Poly mul(const Poly &a, const Poly &b) { Poly r(N); for (int i = 0; i < N; ++i) r[i] = a[i] * b[i] % Q; return r; }
inline Poly add(const Poly &a, const Poly &b) { Poly r(N); for (int i = 0; i < N; ++i) r[i] = (a[i] + b[i]) % Q; return r; }
inline int iround_div(int64_t x, int64_t d) { return (int)((x + d / 2) / d); } // x >= 0
// distance of x (>=0) to the nearest multiple of m
inline int64_t dist(int64_t x, int64_t m) { int64_t r = ((x % m) + m) % m; return r < m - r ? r : m - r; }
inline Bytes rec(const Poly &v, const std::vector<int> &c) {
    Bytes key(32, 0);
    for (int i = 0; i < 256; ++i) {
        int64_t s = 0;
        for (int l = 0; l < 4; ++l) {
            int64_t shift = l < 3 ? 2 * c[256 * l + i] + c[768 + i] : c[768 + i];
            s += dist(8 * (int64_t)v[256 * l + i] - (int64_t)Q * shift, 8 * Q);
        }
        if (s < 8 * (int64_t)Q) key[i >> 3] |= 1 << (i & 7);
    }
    return sha3(key.data(), 32);
}
inline std::vector<int> helprec(const Poly &v, const uint8_t *seed) {
    uint8_t n[8] = {0, 0, 0, 0, 0, 0, 0, 3}; Bytes rb = chacha(seed, n, 32);
    std::vector<int> c(N);
    for (int i = 0; i < 256; ++i) {
        int bit = rb[i >> 3] >> (i & 7) & 1; int64_t k = 0; int v0[4], v1[4], t[4];
        for (int l = 0; l < 4; ++l) {
            int64_t x = 8 * (int64_t)v[256 * l + i] + 4 * bit, fl = x / Q;
            v0[l] = (fl >> 1) + (fl & 1);                 // round(x/2q)
            int64_t f1 = fl - 1; v1[l] = (f1 >> 1) + (f1 & 1);
            k += std::llabs(x - 2 * (int64_t)v0[l] * Q);
        }
        bool far = k >= 2 * (int64_t)Q;
        for (int l = 0; l < 4; ++l) t[l] = far ? v1[l] : v0[l];
        for (int l = 0; l < 3; ++l) c[256 * l + i] = (t[l] - t[3]) & 3;
        c[768 + i] = ((far ? 1 : 0) + 2 * t[3]) & 3;
    }
    return c;
}
struct Alice { Bytes pub; Poly s; };
inline Alice keygen(const Bytes &random64) {
    Alice r; Bytes seed = sha3(random64.data(), 32); const uint8_t *ns = random64.data() + 32;
    Poly a = uniform(seed.data());
    r.s = fwd(noise(ns, 0));
    r.pub = pack(add(mul(a, r.s), fwd(noise(ns, 1))));
    r.pub.insert(r.pub.end(), seed.begin(), seed.end());
    return r;
}
// Bob: his message and the shared key
inline void sharedb(const Bytes &random32, const Bytes &apub, Bytes &bpub, Bytes &key) {
    const uint8_t *ns = random32.data();
    Poly pka = unpack(apub.data()), a = uniform(apub.data() + 1792), sp = fwd(noise(ns, 0));
    bpub = pack(add(mul(a, sp), fwd(noise(ns, 1))));
    Poly v = add(inv(mul(pka, sp)), noise(ns, 2));
    std::vector<int> c = helprec(v, ns);
    for (int i = 0; i < 256; ++i) bpub.push_back(c[4 * i] | c[4 * i + 1] << 2 | c[4 * i + 2] << 4 | c[4 * i + 3] << 6);
    key = rec(v, c);
}
inline Bytes shareda(const Poly &s, const Bytes &bpub) {
    Poly bp = unpack(bpub.data()); std::vector<int> c(N);
    for (int i = 0; i < N; ++i) c[i] = bpub[1792 + i / 4] >> (2 * (i & 3)) & 3;
    return rec(inv(mul(s, bp)), c);
}
}
#endif
