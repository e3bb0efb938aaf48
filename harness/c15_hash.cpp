// HashState, HMAC/HKDF and PBKDF2 against libcrypto and the RFC definitions.
//   --mode ops   random operation sequences on one object
//   --mode huge  messages beyond 2^32 bits / 2^32 bytes (plain build)
#include "oracle.hpp"
extern "C" {
#include <noise/protocol.h>
}
using oracle::Hash;
static const int IDS[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
static const char *NAMES[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};

struct Exact { // heap copy of exactly the right size, at an odd alignment
    uint8_t *raw, *p; size_t n;
    Exact(size_t n_, size_t off) : n(n_) { raw = (uint8_t *)malloc(n + off + (n + off ? 0 : 1)); p = raw + off; memset(p, 0xA5, n); }
    Exact(const Bytes &b, size_t off) : Exact(b.size(), off) { if (n) memcpy(p, b.data(), n); }
    ~Exact() { free(raw); } Exact(const Exact &) = delete;
    Bytes get() const { return Bytes(p, p + n); }
    bool untouched() const { for (size_t i = 0; i < n; ++i) if (p[i] != 0xA5) return false; return true; }
};
static size_t pick_len(vh::Rng &r, size_t B) {
    switch (r.below(9)) {
    case 0: return r.below(4);
    case 1: return B - 1 + r.below(3);
    case 2: return 2 * B - 1 + r.below(3);
    case 3: return B * r.range(1, 6);
    case 4: return B * r.range(1, 4) - r.range(1, 20);
    case 5: return r.chance(1, 6) ? r.range(2000, 70000) : r.below(600);
    default: return r.below(3 * B);
    }
}
static void ops(uint64_t, vh::Rng &r) {
    int hi = r.below(4); Hash h = (Hash)hi; size_t HL = oracle::hashlen(h), B = oracle::blocklen(h); const char *N = NAMES[hi];
    NoiseHashState *s = 0; int e = r.chance(1, 2) ? noise_hashstate_new_by_id(&s, IDS[hi]) : noise_hashstate_new_by_name(&s, N);
    if (e || !s) { vh::viol("create", "%s: create gave %x", N, e); return; }
    if (noise_hashstate_get_hash_id(s) != IDS[hi] || noise_hashstate_get_hash_length(s) != HL || noise_hashstate_get_block_length(s) != B)
        vh::viol("lengths", "%s: id, hash or block length wrong", N);
    if (noise_hashstate_get_max_hash_length() != 64 || noise_hashstate_get_max_block_length() != 128) vh::viol("max-lengths", "max lengths wrong");
    bool live = false; Bytes acc; std::string trace = N; int n = vh::ctx().thorough ? 40 : 25;
    for (int k = 0; k < n; ++k) {
        vh::describe(trace.size() > 300 ? trace.substr(trace.size() - 300) : trace);
        int op = r.below(11); if (!live && r.chance(1, 2)) op = 0;
        switch (op) {
        case 0: if (noise_hashstate_reset(s)) vh::viol("reset", "%s: reset failed", N); live = true; acc.clear(); trace += " R"; break;
        case 1: case 2: case 3: case 4: {
            if (!live) break;
            Exact d(r.bytes(pick_len(r, B)), r.below(9)); Bytes c = d.get(); trace += vh::fmt(" u%zu", c.size());
            if ((e = noise_hashstate_update(s, d.p, d.n))) vh::viol("update", "%s: update gave %x", N, e);
            if (d.get() != c) vh::viol("update-writes", "%s: update changed its input", N);
            acc.insert(acc.end(), c.begin(), c.end()); break;
        }
        case 5: {
            if (!live) break;
            if (r.chance(1, 4)) {
                size_t wl; do wl = r.pick(std::vector<size_t>{0, 1, HL - 1, HL + 1, 32, 64, 2 * HL}); while (wl == HL);
                Exact o(wl, 0); e = noise_hashstate_finalize(s, o.p, wl); trace += vh::fmt(" f%zu!", wl);
                if (e != NOISE_ERROR_INVALID_LENGTH || !o.untouched()) vh::viol("finalize-length", "%s: finalize with length %zu gave %x", N, wl, e);
                vh::ev("wrong_lengths_rejected"); break;
            }
            Exact o(HL, r.below(9)); e = noise_hashstate_finalize(s, o.p, HL); trace += vh::fmt(" F(%zu)", acc.size()); live = false;
            Bytes w = oracle::hash(h, acc);
            if (e || o.get() != w) vh::viol(std::string("digest-") + N, "%s of %zu bytes in chunks (%x): got %s want %s", N, acc.size(), e, vh::hex(o.get()).c_str(), vh::hex(w).c_str());
            vh::ev("digests_streamed"); break;
        }
        case 6: { // hash_one, output anywhere including over the data
            size_t dl = pick_len(r, B); live = false; Exact m(r.bytes(dl + HL), r.below(9)); Bytes all = m.get(); size_t dp = r.below(HL + 1), hp = r.below(dl + 1);
            bool wrong = r.chance(1, 6); size_t hl = wrong ? HL - 1 : HL; trace += vh::fmt(" one%zu@%zu,%zu", dl, dp, hp);
            Bytes w = all, d(all.begin() + dp, all.begin() + dp + dl), o = oracle::hash(h, d);
            if (!wrong) memcpy(&w[hp], o.data(), HL);
            e = noise_hashstate_hash_one(s, m.p + dp, dl, m.p + hp, hl);
            if (e != (wrong ? NOISE_ERROR_INVALID_LENGTH : 0) || m.get() != w) vh::viol("hash-one", "%s: hash_one of %zu bytes at %zu into %zu gave %x or a wrong value", N, dl, dp, hp, e);
            vh::ev(wrong ? "wrong_lengths_rejected" : "digests_one"); break;
        }
        case 7: {
            size_t a = pick_len(r, B), b = pick_len(r, B); live = false; Exact m(r.bytes(a + b + HL), r.below(9)); Bytes all = m.get();
            size_t ap = r.below(b + HL + 1), bp = r.below(a + HL + 1), hp = r.below(a + b + 1); bool wrong = r.chance(1, 6); size_t hl = wrong ? HL + 1 : HL;
            if (wrong && hp + hl > all.size()) hp = 0;
            trace += vh::fmt(" two%zu,%zu@%zu", a, b, hp);
            Bytes w = all, o = oracle::hash(h, Bytes(all.begin() + ap, all.begin() + ap + a), Bytes(all.begin() + bp, all.begin() + bp + b));
            if (!wrong) memcpy(&w[hp], o.data(), HL);
            e = noise_hashstate_hash_two(s, m.p + ap, a, m.p + bp, b, m.p + hp, hl);
            if (e != (wrong ? NOISE_ERROR_INVALID_LENGTH : 0) || m.get() != w) vh::viol("hash-two", "%s: hash_two of %zu+%zu bytes gave %x or a wrong value", N, a, b, e);
            vh::ev(wrong ? "wrong_lengths_rejected" : "digests_two"); break;
        }
        case 8: {
            size_t kl = r.chance(1, 2) ? HL : pick_len(r, B); live = false; Exact key(r.bytes(kl), r.below(9)), d(r.bytes(pick_len(r, B)), r.below(9));
            auto ol = [&]() -> size_t { return r.chance(1, 2) ? HL : r.chance(1, 10) ? HL + 1 : r.below(HL + 1); };
            size_t l1 = ol(), l2 = ol(); Exact o1(l1, r.below(9)), o2(l2, r.below(9)); bool bad = l1 > HL || l2 > HL; trace += vh::fmt(" hkdf%zu,%zu>%zu,%zu", kl, d.n, l1, l2);
            Bytes kc = key.get(), dc = d.get();
            e = noise_hashstate_hkdf(s, key.p, kl, d.p, d.n, o1.p, l1, o2.p, l2);
            if (bad) { if (e != NOISE_ERROR_INVALID_LENGTH || !o1.untouched() || !o2.untouched()) vh::viol("hkdf-length", "%s: hkdf with outputs %zu,%zu gave %x", N, l1, l2, e); vh::ev("wrong_lengths_rejected"); break; }
            Bytes w1, w2; oracle::hkdf2(h, kc, dc, w1, w2); w1.resize(l1); w2.resize(l2);
            if (e || o1.get() != w1 || o2.get() != w2) vh::viol(std::string("hkdf-") + N, "%s: hkdf key %zu data %zu outputs %zu,%zu wrong (%x)", N, kl, dc.size(), l1, l2, e);
            if (key.get() != kc || d.get() != dc) vh::viol("hkdf-writes", "%s: hkdf changed its inputs", N);
            vh::ev("hkdf_outputs"); break;
        }
        case 9: {
            if (r.chance(1, 2)) break;
            live = false; size_t it = r.chance(1, 8) ? r.range(20, 300) : r.range(1, 8), ol = r.chance(1, 2) ? r.below(4 * HL) : HL * r.range(0, 4); if (it > 20) ol = ol % (HL + 1); if (r.chance(1, 30)) { it = 1 + r.below(2); ol = HL * r.range(250, 530) + r.below(HL); }
            Exact pw(r.bytes(pick_len(r, B) % 400), 0), salt(r.bytes(pick_len(r, B) % 400), 0), o(ol, r.below(9)); trace += vh::fmt(" pbkdf2 %zu,%zu i%zu>%zu", pw.n, salt.n, it, ol);
            e = noise_hashstate_pbkdf2(s, pw.p, pw.n, salt.p, salt.n, it, o.p, ol);
            Bytes w = oracle::pbkdf2(h, pw.get(), salt.get(), it, ol);
            if (e || o.get() != w) vh::viol(std::string("pbkdf2-") + N, "%s: pbkdf2 of %zu/%zu, %zu iterations, %zu bytes wrong (%x)", N, pw.n, salt.n, it, ol, e);
            vh::ev("pbkdf2_outputs"); break;
        }
        case 10: { // null arguments are refused and disturb nothing
            uint8_t b[64], c[64]; memset(c, 0xA5, 64); memcpy(b, c, 64); int es[12], m = 0;
            es[m++] = noise_hashstate_update(s, 0, 0); es[m++] = noise_hashstate_finalize(s, 0, HL); es[m++] = noise_hashstate_hash_one(s, 0, 0, b, HL);
            es[m++] = noise_hashstate_hash_one(s, b, 5, 0, HL); es[m++] = noise_hashstate_hash_two(s, b, 5, 0, 0, b, HL); es[m++] = noise_hashstate_hash_two(s, 0, 0, b, 5, b, HL);
            es[m++] = noise_hashstate_hkdf(s, 0, 0, b, 5, b, HL, b, HL); es[m++] = noise_hashstate_hkdf(s, b, 5, 0, 0, b, HL, b, HL); es[m++] = noise_hashstate_hkdf(s, b, 5, b, 5, b, HL, 0, HL);
            es[m++] = noise_hashstate_pbkdf2(s, 0, 0, b, 5, 1, b, HL); es[m++] = noise_hashstate_pbkdf2(s, b, 5, 0, 0, 1, b, HL); es[m++] = noise_hashstate_update(0, b, 5);
            for (int i = 0; i < m; ++i) if (es[i] != NOISE_ERROR_INVALID_PARAM) vh::viol("null-args", "%s: call %d with a null argument gave %x", N, i, es[i]);
            if (memcmp(b, c, 64)) vh::viol("null-writes", "%s: a refused call wrote output", N);
            vh::ev("null_arguments_refused"); trace += " null"; break;
        }
        }
        vh::eval();
    }
    noise_hashstate_free(s); vh::sig(trace); if (vh::ctx().cur % 700 == 0) vh::sample(trace.substr(0, 160));
}
// PBKDF2 with counts that do not fit small integers.
static void hugekdf(uint64_t i, vh::Rng &r) {
    int hi = (i + vh::ctx().seed) % 4; Hash h = (Hash)hi; bool out = i % 2; size_t HL = oracle::hashlen(h), it = out ? 1 : 65536 + r.below(9000), ol = out ? HL * (65536 + r.below(20)) + r.below(HL) : r.below(2 * HL) + 1;
    vh::describe(vh::fmt("pbkdf2 %s %zu iterations, %zu bytes", NAMES[hi], it, ol)); NoiseHashState *s = 0; if (noise_hashstate_new_by_id(&s, IDS[hi])) { vh::viol("create", "create"); return; }
    Bytes pw = r.bytes(r.below(70)), salt = r.bytes(r.below(70)), o(ol), w; pw.push_back(1); salt.push_back(1); int e = noise_hashstate_pbkdf2(s, pw.data(), pw.size(), salt.data(), salt.size(), it, o.data(), ol); w = oracle::pbkdf2(h, pw, salt, it, ol);
    if (e || o != w) vh::viol(std::string("pbkdf2-huge-") + NAMES[hi], "%s: pbkdf2 of %zu iterations, %zu bytes wrong (%x)", NAMES[hi], it, ol, e);
    noise_hashstate_free(s); vh::eval(); vh::ev("huge_pbkdf2"); vh::sig(vh::ctx().desc);
}
static void huge(uint64_t i, vh::Rng &r) {
    if (i >= 5) return hugekdf(i, r);
    int hi = i % 2 ? 2 : 0; Hash h = (Hash)hi; uint64_t len = hi == 0 ? (1ULL << 32) + 3 * 64 + 5 : (1ULL << 29) + 64 + 9; // 2^32 bytes, 2^32 bits
    if (i >= 2) { static const int o[] = {2, 1, 3}; hi = o[(i - 2) % 3]; h = (Hash)hi; len = hi == 2 ? (1ULL << 32) + 77 : (1ULL << 29) + 777; }
    vh::describe(vh::fmt("%s of %llu bytes", NAMES[hi], (unsigned long long)len));
    NoiseHashState *s = 0; if (noise_hashstate_new_by_id(&s, IDS[hi])) { vh::viol("create", "create"); return; }
    noise_hashstate_reset(s); Bytes buf = r.bytes(1 << 20); EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, oracle::md(h), 0);
    for (uint64_t done = 0; done < len;) {
        size_t n = std::min<uint64_t>(len - done, done ? buf.size() : 12345); noise_hashstate_update(s, buf.data(), n); EVP_DigestUpdate(c, buf.data(), n); done += n;
    }
    Bytes a(oracle::hashlen(h)), w(a.size()); noise_hashstate_finalize(s, a.data(), a.size()); EVP_DigestFinal_ex(c, w.data(), 0); EVP_MD_CTX_free(c);
    if (a != w) vh::viol(std::string("digest-huge-") + NAMES[hi], "%s of %llu bytes: got %s want %s", NAMES[hi], (unsigned long long)len, vh::hex(a).c_str(), vh::hex(w).c_str());
    noise_hashstate_free(s); vh::eval(); vh::ev("huge_digests"); vh::sig(vh::ctx().desc);
}
int main(int argc, char **argv) {
    std::string m; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode")) m = argv[i + 1];
    return vh::run(argc, argv, [&](uint64_t i, vh::Rng &r) { if (m == "huge") huge(i, r); else ops(i, r); }, m == "huge" ? 300 : 60);
}
