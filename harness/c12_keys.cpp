// Key objects and public-key primitives against libcrypto and an independent NewHope.
//   --mode dh       C12: X25519 / X448 values, special points, DHState life cycle
//   --mode newhope  C13
//   --mode sign     C14: Ed25519 values, forgeries, SignState life cycle
#include "newhope_oracle.hpp"
#include "dh_edges.inc"
extern "C" {
#include <noise/protocol.h>
}
using oracle::Dh;
struct Exact {
    uint8_t *raw, *p; size_t n;
    Exact(size_t n_, size_t off = 0, uint8_t f = 0xA5) : n(n_) { raw = (uint8_t *)malloc(n + off + (n + off ? 0 : 1)); p = raw + off; memset(p, f, n); }
    Exact(const Bytes &b, size_t off = 0) : Exact(b.size(), off) { if (n) memcpy(p, b.data(), n); }
    ~Exact() { free(raw); } Exact(const Exact &) = delete;
    Bytes get() const { return Bytes(p, p + n); }
};
static bool allzero(const Bytes &b) { for (auto x : b) if (x) return false; return true; }
static std::string fingerprint(const Bytes &pub, bool full) {
    Bytes h = oracle::hash(oracle::SHA256, pub); std::string s; size_t n = full ? 32 : 16;
    for (size_t i = 0; i < n; ++i) { char b[4]; snprintf(b, 4, "%02x", h[i]); if (i) s += ":"; s += b; } return s;
}
// little-endian integer helpers for special coordinates
static Bytes le_add(Bytes a, int64_t d) { int64_t c = d; for (auto &x : a) { c += x; x = (uint8_t)c; c >>= 8; } return a; }
static Bytes prime(Dh d) {
    if (d == oracle::X25519) { Bytes p(32, 0xff); p[0] = 0xed; p[31] = 0x7f; return p; }
    Bytes p(56, 0xff); p[28] = 0xfe; return p;
}
static bool geq(const Bytes &a, const Bytes &b) { for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] > b[i]; return true; }
static Bytes special_public(Dh d, vh::Rng &r) {
    size_t n = oracle::dhlen(d); Bytes z(n, 0);
    switch (r.below(12)) {
    case 10: case 11: { // extreme limbs for some way of cutting the number up
        static const int w[] = {25, 26, 28, 32, 51, 56, 64}; int step = w[r.below(7)]; Bytes b(n, 0);
        for (size_t lo = 0; lo < 8 * n; lo += step) { int k = r.below(4); for (size_t i = lo; i < lo + step && i < 8 * n; ++i) if (k == 1 || (k == 2 && i != lo) || (k == 3 && i == lo)) b[i / 8] |= 1 << (i % 8); }
        return b; }
    case 0: return z;
    case 1: return le_add(z, r.range(1, 20));
    case 2: return le_add(prime(d), -(int64_t)r.range(1, 3));
    case 3: return le_add(prime(d), r.below(4));
    case 4: if (d == oracle::X25519) return le_add(prime(d), r.below(19)); return Bytes(n, 0xff);
    case 5: { Bytes b(n, 0xff); b[0] = r.next(); return b; }
    case 6: if (d == oracle::X25519) { // points of order 8
            static const uint8_t o8[2][32] = {{0xe0,0xeb,0x7a,0x7c,0x3b,0x41,0xb8,0xae,0x16,0x56,0xe3,0xfa,0xf1,0x9f,0xc4,0x6a,0xda,0x09,0x8d,0xeb,0x9c,0x32,0xb1,0xfd,0x86,0x62,0x05,0x16,0x5f,0x49,0xb8,0x00},
                {0x5f,0x9c,0x95,0xbc,0xa3,0x50,0x8c,0x24,0xb1,0xd0,0xb1,0x55,0x9c,0x83,0xef,0x5b,0x04,0x44,0x5c,0xc4,0x58,0x1c,0x8e,0x86,0xd8,0x22,0x4e,0xdd,0xd0,0x9f,0x11,0x57}};
            int k = r.below(2); Bytes b(o8[k], o8[k] + 32); if (r.chance(1, 2)) b[31] |= 0x80; return b; } return z;
    case 7: { Bytes b = r.bytes(n); b[n - 1] |= 0x80; return b; }
    case 8: { Bytes b(n, 0); b[r.below(n)] = 1 << r.below(8); return b; }
    default: return r.bytes(n);
    }
}
static Bytes special_private(size_t n, vh::Rng &r) {
    switch (r.below(6)) { case 0: return Bytes(n, 0xff); case 1: { Bytes b(n, 0); b[r.below(n)] = 1 << r.below(8); return b; } case 2: { Bytes b(n, 0xff); b[r.below(n)] = 0; return b; } case 3: return Bytes(n, 0); default: return r.bytes(n); }
}
struct M { int type = 0; Bytes priv, pub; bool exact = true; }; // 0 none, 1 public, 2 pair

static void mode_dh(vh::Rng &r) {
    const int NS = 4; NoiseDHState *s[NS]; M m[NS]; Dh d[NS]; std::string tr; std::set<Bytes> generated;
    for (int i = 0; i < NS; ++i) {
        d[i] = i == 3 ? (r.chance(1, 2) ? oracle::X25519 : oracle::X448) : i == 0 ? (r.chance(2, 3) ? oracle::X25519 : oracle::X448) : d[0];
        int e = r.chance(1, 2) ? noise_dhstate_new_by_id(&s[i], d[i] == oracle::X25519 ? NOISE_DH_CURVE25519 : NOISE_DH_CURVE448) : noise_dhstate_new_by_name(&s[i], d[i] == oracle::X25519 ? "25519" : "448");
        if (e) { vh::viol("create", "create gave %x", e); return; }
        size_t n = oracle::dhlen(d[i]);
        if (noise_dhstate_get_public_key_length(s[i]) != n || noise_dhstate_get_private_key_length(s[i]) != n || noise_dhstate_get_shared_key_length(s[i]) != n || noise_dhstate_is_ephemeral_only(s[i]))
            vh::viol("lengths", "key lengths wrong");
    }
    tr = d[0] == oracle::X25519 ? "25519" : "448"; int ops = vh::ctx().thorough ? 40 : 24;
    for (int k = 0; k < ops; ++k) {
        int i = r.below(NS), j = r.below(NS), e; size_t n = oracle::dhlen(d[i]); const char *nm = d[i] == oracle::X25519 ? "25519" : "448";
        vh::describe(tr.size() > 300 ? tr.substr(tr.size() - 300) : tr);
        bool cleared_ok = false; M before = m[i]; int op = r.below(15);
        switch (op) {
        case 0: {
            tr += vh::fmt(" gen%d", i);
            e = r.chance(1, 2) ? noise_dhstate_generate_keypair(s[i]) : noise_dhstate_generate_dependent_keypair(s[i], d[i] == d[j] ? s[j] : 0);
            Exact a(n), b(n); int e2 = noise_dhstate_get_keypair(s[i], a.p, n, b.p, n);
            if (e || e2) vh::viol("generate", "%s: generate gave %x/%x", nm, e, e2);
            m[i] = M{2, a.get(), b.get()};
            if (oracle::dh_public(d[i], m[i].priv) != m[i].pub) vh::viol("generated-pair", "%s: generated public key does not belong to the private key", nm);
            if (!generated.insert(m[i].priv).second || allzero(m[i].priv)) vh::viol("generated-repeat", "%s: generated private key repeats or is zero", nm);
            vh::ev("keypairs_generated"); break;
        }
        case 1: case 2: {
            Exact p(special_private(n, r), r.below(8)); tr += vh::fmt(" priv%d", i); Bytes pb = p.get();
            e = noise_dhstate_set_keypair_private(s[i], p.p, n); if (e) vh::viol("set-private", "%s: set_keypair_private gave %x", nm, e);
            m[i] = M{2, pb, oracle::dh_public(d[i], pb)}; vh::ev("public_keys_derived"); break;
        }
        case 3: {
            Bytes pb = special_private(n, r), pub = oracle::dh_public(d[i], pb); bool bad = r.chance(1, 2);
            if (bad) pub[r.below(n)] ^= 1 << r.below(8);
            Exact p(pb, r.below(8)), q(pub, r.below(8)); tr += vh::fmt(" pair%d%s", i, bad ? "!" : "");
            e = noise_dhstate_set_keypair(s[i], p.p, n, q.p, n);
            if (!bad) { if (e) vh::viol("set-keypair", "%s: set_keypair with a right pair gave %x", nm, e); m[i] = M{2, pb, pub}; }
            else { if (e != NOISE_ERROR_INVALID_PUBLIC_KEY) vh::viol("set-keypair-mismatch", "%s: set_keypair with a public key that does not belong gave %x", nm, e); cleared_ok = true; vh::ev("mismatched_pairs_rejected"); }
            break;
        }
        case 4: case 5: case 6: {
            Bytes pub; if (m[j].type && d[j] == d[i] && r.chance(1, 3)) pub = m[j].pub; else pub = special_public(d[i], r);
            Exact q(pub, r.below(8)); tr += vh::fmt(" pub%d", i); e = noise_dhstate_set_public_key(s[i], q.p, n);
            if (e) vh::viol("set-public", "%s: set_public_key gave %x", nm, e); m[i] = M{1, Bytes(), pub}; break;
        }
        case 7: if (r.chance(1, 2)) { noise_dhstate_clear_key(s[i]); m[i] = M(); tr += vh::fmt(" clr%d", i); }
                else { if ((e = noise_dhstate_set_null_public_key(s[i]))) vh::viol("set-null", "%s: set_null gave %x", nm, e); m[i] = M{1, Bytes(), Bytes(n, 0)}; tr += vh::fmt(" null%d", i); } break;
        case 8: {
            e = noise_dhstate_copy(s[i], s[j]); tr += vh::fmt(" cp%d<%d", i, j);
            if (e != (d[i] == d[j] ? 0 : NOISE_ERROR_NOT_APPLICABLE)) vh::viol("copy", "%s: copy gave %x", nm, e);
            if (d[i] == d[j]) m[i] = m[j]; break;
        }
        case 9: { // wrong lengths and null arguments change nothing
            size_t w = r.pick(std::vector<size_t>{0, n - 1, n + 1, 2 * n}); if (r.chance(1, 3)) w = d[i] == oracle::X25519 ? 56 : 32; Exact x(w), y(n); Bytes xc = x.get(), yc = y.get(); tr += vh::fmt(" len%zu", w);
            int es[8] = {noise_dhstate_set_public_key(s[i], x.p, w), noise_dhstate_set_keypair_private(s[i], x.p, w), noise_dhstate_set_keypair(s[i], x.p, w, y.p, n), noise_dhstate_set_keypair(s[i], y.p, n, x.p, w),
                noise_dhstate_get_public_key(s[i], x.p, w), noise_dhstate_get_keypair(s[i], x.p, w, y.p, n), noise_dhstate_get_keypair(s[i], y.p, n, x.p, w), noise_dhstate_calculate(s[i], s[i], x.p, w)};
            for (int q = 0; q < 8; ++q) if (es[q] != NOISE_ERROR_INVALID_LENGTH && !(q == 7 && m[i].type != 2 && es[q] == NOISE_ERROR_INVALID_PRIVATE_KEY) && !(q == 5 || q == 6 ? m[i].type != 2 && es[q] == NOISE_ERROR_INVALID_STATE : false)) vh::viol("wrong-length", "%s: call %d with length %zu gave %x", nm, q, w, es[q]);
            if (x.get() != xc || y.get() != yc) vh::viol("wrong-length-writes", "%s: a call refused for its length wrote output", nm);
            int ns[8] = {noise_dhstate_set_public_key(s[i], 0, n), noise_dhstate_set_keypair_private(s[i], 0, n), noise_dhstate_set_keypair(s[i], y.p, n, 0, n), noise_dhstate_set_keypair(s[i], 0, n, y.p, n), noise_dhstate_get_public_key(s[i], 0, n), noise_dhstate_calculate(s[i], 0, y.p, n), noise_dhstate_calculate(s[i], s[i], 0, n), noise_dhstate_copy(s[i], 0)};
            for (int q = 0; q < 8; ++q) if (ns[q] != NOISE_ERROR_INVALID_PARAM) vh::viol("null-args", "%s: call %d with a null argument gave %x", nm, q, ns[q]);
            { int was = noise_dhstate_get_role(s[i]), ro = r.chance(1, 2) ? (int)(0x5200 + r.below(4)) : (int)r.pick(std::vector<uint32_t>{0, 1, 2, 0x5201, 0x5202, 0x5203, 0x5200, 0x100, 0x15201, 0x80000000u, (uint32_t)r.next()}); bool ok = ro == 0 || ro == NOISE_ROLE_INITIATOR || ro == NOISE_ROLE_RESPONDER;
              e = noise_dhstate_set_role(s[i], ro); if (e != (ok ? 0 : NOISE_ERROR_INVALID_PARAM) || noise_dhstate_get_role(s[i]) != (ok ? ro : was) || noise_dhstate_set_role(0, NOISE_ROLE_INITIATOR) != NOISE_ERROR_INVALID_PARAM || noise_dhstate_get_role(0)) vh::viol("role", "%s: set_role %x gave %x, role %x", nm, ro, e, noise_dhstate_get_role(s[i])); vh::ev(ok ? "roles_set" : "roles_refused"); }
            vh::ev("refused_calls"); break;
        }
        case 14: { // a private key and a public value whose result is a chosen number at a carry boundary
            if (d[i] != d[j] || i == j) break;
            bool c25 = d[i] == oracle::X25519; size_t x = r.below(c25 ? sizeof edges25519 / sizeof *edges25519 : sizeof edges448 / sizeof *edges448); const uint8_t *t = c25 ? edges25519[x][0] : edges448[x][0];
            Bytes kb(t, t + n), qb(t + n, t + 2 * n), wb(t + 2 * n, t + 3 * n), ow; tr += vh::fmt(" edge%d,%d", i, j);
            if (c25 && r.chance(1, 4)) qb[31] |= 0x80; // ignored by X25519
            if (!oracle::dh(d[i], kb, qb, ow) || ow != wb) vh::die("edge table");
            Exact p(kb, r.below(8)), q(qb, r.below(8)), o(n, r.below(8));
            if ((e = noise_dhstate_set_keypair_private(s[i], p.p, n)) || (e = noise_dhstate_set_public_key(s[j], q.p, n)) || (e = noise_dhstate_calculate(s[i], s[j], o.p, n)) || o.get() != wb)
                vh::viol(std::string("edge-") + nm, "%s: priv %s pub %s gave %x %s want %s", nm, vh::hex(kb, 56).c_str(), vh::hex(qb, 56).c_str(), e, vh::hex(o.get(), 56).c_str(), vh::hex(wb, 56).c_str());
            m[i] = M{2, kb, oracle::dh_public(d[i], kb)}; m[j] = M{1, Bytes(), qb}; vh::ev("chosen_results"); break;
        }
        default: { // calculate
            Exact o(n, r.below(8)); tr += vh::fmt(" dh%d,%d", i, j); e = noise_dhstate_calculate(s[i], s[j], o.p, n);
            if (d[i] != d[j]) { if (e != NOISE_ERROR_INVALID_PARAM) vh::viol("calc-mixed", "calculate over different algorithms gave %x", e); break; }
            if (m[i].type != 2) { if (e != NOISE_ERROR_INVALID_PRIVATE_KEY) vh::viol("calc-nopriv", "%s: calculate without a private key gave %x", nm, e); break; }
            if (!m[j].type) { if (!e && !allzero(o.get())) vh::viol("calc-nopub", "%s: calculate without a public key gave a shared key", nm); break; }
            if (allzero(m[j].pub)) { if (e || !allzero(o.get())) vh::viol("calc-null", "%s: the null public key gave %x %s", nm, e, vh::hex(o.get()).c_str()); vh::ev("null_agreements"); break; }
            Bytes w; bool ok = oracle::dh(d[i], m[i].priv, m[j].pub, w); bool nc = d[i] == oracle::X448 && geq(m[j].pub, prime(d[i]));
            if (!ok) { if (e ? e != NOISE_ERROR_INVALID_PUBLIC_KEY : !allzero(o.get())) vh::viol("calc-loworder", "%s: low-order point gave %x %s", nm, e, vh::hex(o.get()).c_str()); vh::ev("low_order_points"); break; }
            if (nc && e == NOISE_ERROR_INVALID_PUBLIC_KEY) { vh::ev("non_canonical_refused"); break; }
            if (e || o.get() != w) vh::viol(std::string("shared-") + nm, "%s: priv %s pub %s gave %x %s want %s", nm, vh::hex(m[i].priv, 56).c_str(), vh::hex(m[j].pub, 56).c_str(), e, vh::hex(o.get(), 56).c_str(), vh::hex(w, 56).c_str());
            vh::ev(m[j].type == 2 ? "agreements_between_pairs" : "shared_secrets_compared");
            if (m[j].type == 2) { Exact o2(n); if (noise_dhstate_calculate(s[j], s[i], o2.p, n) || o2.get() != w) vh::viol("asymmetric", "%s: the two sides disagree", nm); }
            break;
        }
        }
        // every object still is what the model says
        for (int q = 0; q < NS; ++q) {
            size_t nq = oracle::dhlen(d[q]); Exact a(nq), b(nq);
            if (q == i && cleared_ok) { m[q] = noise_dhstate_has_public_key(s[q]) ? before : M(); vh::ev(m[q].type ? "mismatch_kept" : "mismatch_cleared"); }
            if (!!noise_dhstate_has_keypair(s[q]) != (m[q].type == 2) || !!noise_dhstate_has_public_key(s[q]) != (m[q].type != 0) || !!noise_dhstate_is_null_public_key(s[q]) != (m[q].type && allzero(m[q].pub)))
                vh::viol("state", "object %d reports keypair %d public %d null %d, expected type %d after%s", q, noise_dhstate_has_keypair(s[q]), noise_dhstate_has_public_key(s[q]), noise_dhstate_is_null_public_key(s[q]), m[q].type, tr.c_str());
            e = noise_dhstate_get_keypair(s[q], a.p, nq, b.p, nq);
            if (m[q].type == 2 ? (e || a.get() != m[q].priv || b.get() != m[q].pub) : e != NOISE_ERROR_INVALID_STATE) vh::viol("get-keypair", "object %d: get_keypair gave %x or another pair", q, e);
            if (m[q].type) { memset(b.p, 0xA5, nq); e = noise_dhstate_get_public_key(s[q], b.p, nq); if (e || b.get() != m[q].pub) vh::viol("get-public", "object %d: get_public_key gave %x or another key", q, e); }
        }
        { char f[128]; bool full = r.chance(1, 2); e = noise_dhstate_format_fingerprint(s[i], full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, f, sizeof f);
          if (m[i].type ? e || fingerprint(m[i].pub, full) != f : e != NOISE_ERROR_INVALID_STATE || f[0]) vh::viol("fingerprint", "fingerprint %x %s", e, f); }
        vh::eval();
    }
    for (auto x : s) noise_dhstate_free(x); vh::sig(tr); if (vh::ctx().cur % 500 == 0) vh::sample(tr.substr(0, 150));
}

// The objects live through several exchanges, so that what an earlier one left must not matter.
static void mode_newhope(vh::Rng &r) {
    NoiseDHState *a = 0, *b = 0, *rem = 0, *c = 0, *cb = 0, *none = 0; std::string tr = "nh"; int e; Bytes seedA;
    if (noise_dhstate_new_by_id(&a, NOISE_DH_NEWHOPE) || noise_dhstate_new_by_name(&b, "NewHope") || noise_dhstate_new_by_id(&rem, NOISE_DH_NEWHOPE) || noise_dhstate_new_by_id(&c, NOISE_DH_NEWHOPE) || noise_dhstate_new_by_id(&cb, NOISE_DH_NEWHOPE) || noise_dhstate_new_by_id(&none, NOISE_DH_NEWHOPE)) { vh::viol("create", "cannot create NewHope"); return; }
    bool plain = r.chance(1, 2); if (!plain) noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(c, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(none, NOISE_ROLE_INITIATOR);
    noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER); noise_dhstate_set_role(cb, NOISE_ROLE_RESPONDER);
    const size_t AL = 1824, BL = 2048;
    if (noise_dhstate_get_public_key_length(a) != AL || noise_dhstate_get_private_key_length(a) != 64 || noise_dhstate_get_public_key_length(b) != BL || noise_dhstate_get_private_key_length(b) != 32 || noise_dhstate_get_shared_key_length(a) != 32 || !noise_dhstate_is_ephemeral_only(a)) vh::viol("lengths", "NewHope lengths wrong");
    int rounds = 1 + r.below(4); bool haveA = false; newhope::Alice oa;
    for (int round = 0; round < rounds; ++round) {
    vh::describe(tr); bool honest = true;
    // Alice
    if (!haveA || r.chance(2, 3)) {
        Exact apub(AL);
        if (r.chance(1, 2)) { e = noise_dhstate_generate_keypair(a); tr += " genA"; Exact p(64); if (e || noise_dhstate_get_keypair(a, p.p, 64, apub.p, AL)) vh::viol("generate", "Alice cannot generate (%x)", e); seedA = p.get(); }
        else { seedA = r.chance(1, 6) ? Bytes(64, (uint8_t)r.next()) : r.bytes(64); tr += " setA"; if (r.chance(1, 6)) { Bytes q = newhope::rare_prefix(r.next()); std::copy(q.begin(), q.end(), seedA.begin()); tr += "*"; } if ((e = noise_dhstate_set_keypair_private(a, seedA.data(), 64)) || noise_dhstate_get_public_key(a, apub.p, AL)) vh::viol("set-private", "Alice's seed refused (%x)", e); }
        oa = newhope::keygen(seedA); haveA = true;
        if (oa.pub != apub.get()) vh::viol("alice-public", "Alice's public key for seed %s is not NewHope's", vh::hex(seedA, 64).c_str());
    } else tr += " keepA";
    // what Bob receives
    Bytes got = oa.pub; int how = r.below(6);
    if (how == 0) { got = r.bytes(AL); honest = false; tr += " junkA"; } else if (how == 1) { got[r.below(AL)] ^= 1 << r.below(8); honest = false; tr += " flipA"; } else if (how == 2) { std::fill(got.begin(), got.end() - (r.chance(1, 2) ? 32 : 0), 0xff); honest = false; tr += " onesA"; } else if (how == 3 && r.chance(1, 2)) { Bytes q = newhope::rare_prefix(r.next()); q = newhope::sha3(q.data(), 32); std::copy(q.begin(), q.end(), got.begin() + 1792); honest = false; tr += " rareA"; }
    noise_dhstate_clear_key(rem); noise_dhstate_set_role(rem, NOISE_ROLE_INITIATOR); { Exact g(got, r.below(8)); if ((e = noise_dhstate_set_public_key(rem, g.p, AL))) vh::viol("set-public", "Alice's message refused (%x)", e); }
    Exact kb(32), bpub(BL); Bytes seedB;
    if (r.chance(1, 4)) {
        tr += " refB"; bool n0 = r.chance(1, 2); int had = noise_dhstate_has_keypair(b);
        if ((e = noise_dhstate_generate_dependent_keypair(b, n0 ? 0 : none)) != NOISE_ERROR_INVALID_STATE) vh::viol("dependent-null", "Bob generated without Alice's key (%x)", e);
        if (n0 && (e = noise_dhstate_generate_keypair(b)) != NOISE_ERROR_INVALID_STATE && e != NOISE_ERROR_NOT_APPLICABLE) vh::viol("independent", "Bob generated on his own (%x)", e);
        if (!had && noise_dhstate_has_keypair(b)) vh::viol("dependent-key", "Bob has a key after a refused generation"); vh::ev("dependent_refused");
    }
    bool gen = r.chance(1, 2);
    if (gen) {
        tr += " genB"; Exact p(32); e = noise_dhstate_generate_dependent_keypair(b, rem); if (e || (e = noise_dhstate_get_keypair(b, p.p, 32, bpub.p, BL))) vh::viol("generate", "Bob cannot generate (%x)", e); seedB = p.get();
    } else { tr += " setB"; seedB = r.chance(1, 6) ? Bytes(32, (uint8_t)r.next()) : r.bytes(32); if ((e = noise_dhstate_set_keypair_private(b, seedB.data(), 32))) vh::viol("set-private", "Bob's seed refused (%x)", e); }
    Bytes ob, ok; newhope::sharedb(seedB, got, ob, ok);
    // a copy, over whatever the object held before, works like the original
    if (r.chance(1, 2)) {
        tr += " cpB"; Exact kc(32), p(32), q(BL); e = noise_dhstate_copy(cb, b); if (e) vh::viol("copy", "copying Bob gave %x", e);
        if ((e = noise_dhstate_calculate(cb, rem, kc.p, 32)) || kc.get() != ok) vh::viol("copy-bob", "a copy of Bob's key calculates something else (%x, %s)", e, tr.c_str());
        if (noise_dhstate_get_keypair(cb, p.p, 32, q.p, BL) || p.get() != seedB || (gen && q.get() != ob)) vh::viol("copy-bob-keys", "a copy of Bob's key is another key (%s)", tr.c_str()); vh::ev("copies");
    }
    if ((e = noise_dhstate_calculate(b, rem, kb.p, 32))) vh::viol("calc-bob", "Bob's calculation gave %x", e);
    noise_dhstate_get_public_key(b, bpub.p, BL);
    if (bpub.get() != ob) vh::viol("bob-public", "Bob's message for seed %s is not NewHope's (%s)", vh::hex(seedB, 32).c_str(), tr.c_str());
    if (kb.get() != ok) vh::viol("bob-shared", "Bob's shared key for seed %s is not NewHope's (%s)", vh::hex(seedB, 32).c_str(), tr.c_str());
    // Alice finishes
    Bytes gb = ob; int hb = r.below(6); if (hb == 0) { gb = r.bytes(BL); honest = false; tr += " junkB"; } else if (hb == 1) { gb[r.below(BL)] ^= 1 << r.below(8); tr += " flipB"; honest = false; }
    noise_dhstate_clear_key(rem); noise_dhstate_set_role(rem, NOISE_ROLE_RESPONDER); Exact ka(32);
    { Exact g(gb, r.below(8)); if ((e = noise_dhstate_set_public_key(rem, g.p, BL)) || (e = noise_dhstate_calculate(a, rem, ka.p, 32))) vh::viol("calc-alice", "Alice's calculation gave %x", e); }
    Bytes want = newhope::shareda(oa.s, gb);
    if (ka.get() != want) vh::viol("alice-shared", "Alice's shared key for seed %s is not NewHope's (%s)", vh::hex(seedA, 64).c_str(), tr.c_str());
    if (honest) { vh::ev("honest_agreements"); if (ka.get() != kb.get()) vh::viol("disagree", "NewHope peers disagree"); if (allzero(ka.get())) vh::viol("zero", "NewHope shared key is zero"); } else vh::ev("altered_exchanges");
    if (r.chance(1, 2)) {
        tr += " cpA"; Exact kc(32), p(64), q(AL); if (noise_dhstate_copy(c, a) || noise_dhstate_calculate(c, rem, kc.p, 32) || kc.get() != want) vh::viol("copy", "a copy of Alice's key calculates something else");
        if (noise_dhstate_get_keypair(c, p.p, 64, q.p, AL) || p.get() != seedA || q.get() != oa.pub) vh::viol("copy-alice-keys", "a copy of Alice's key is another key"); vh::ev("copies");
    }
    if (r.chance(1, 3)) { tr += " clr"; noise_dhstate_clear_key(r.chance(1, 2) ? b : cb); }
    if (newhope::retries()) { vh::ev("uniform_retries", newhope::retries()); newhope::retries() = 0; }
    if (newhope::tight()) { vh::ev("uniform_just_enough", newhope::tight()); newhope::tight() = 0; }
    vh::eval();
    }
    for (auto x : {a, b, rem, c, cb, none}) noise_dhstate_free(x);
    vh::sig(tr + vh::hex(seedA, 8)); if (vh::ctx().cur % 200 == 0) vh::sample(tr);
}

static void mode_sign(vh::Rng &r) {
    const int NS = 3; NoiseSignState *s[NS]; M m[NS]; std::string tr = "ed"; std::set<Bytes> generated;
    for (auto &x : s) { int e = r.chance(1, 2) ? noise_signstate_new_by_id(&x, NOISE_SIGN_ED25519) : noise_signstate_new_by_name(&x, "Ed25519"); if (e) { vh::viol("create", "create gave %x", e); return; }
        if (noise_signstate_get_public_key_length(x) != 32 || noise_signstate_get_private_key_length(x) != 32 || noise_signstate_get_signature_length(x) != 64 || noise_signstate_get_sign_id(x) != NOISE_SIGN_ED25519 || noise_signstate_get_max_key_length() < 32 || noise_signstate_get_max_signature_length() < 64) vh::viol("lengths", "lengths wrong"); }
    int ops = vh::ctx().thorough ? 40 : 24;
    for (int k = 0; k < ops; ++k) {
        int i = r.below(NS), j = r.below(NS), e; vh::describe(tr.size() > 300 ? tr.substr(tr.size() - 300) : tr); bool cleared_ok = false; M before = m[i];
        switch (r.below(12)) {
        case 0: { tr += vh::fmt(" gen%d", i); Exact a(32), b(32); if ((e = noise_signstate_generate_keypair(s[i])) || (e = noise_signstate_get_keypair(s[i], a.p, 32, b.p, 32))) vh::viol("generate", "generate gave %x", e);
            m[i] = M{2, a.get(), b.get()}; if (oracle::ed_public(m[i].priv) != m[i].pub) vh::viol("generated-pair", "generated public key does not belong to the private key");
            if (!generated.insert(m[i].priv).second || allzero(m[i].priv)) vh::viol("generated-repeat", "generated key repeats or is zero"); vh::ev("keypairs_generated"); break; }
        case 1: { Exact p(special_private(32, r), r.below(8)); Bytes pb = p.get(); tr += vh::fmt(" priv%d", i); if ((e = noise_signstate_set_keypair_private(s[i], p.p, 32))) vh::viol("set-private", "set private gave %x", e); m[i] = M{2, pb, oracle::ed_public(pb)}; vh::ev("public_keys_derived"); break; }
        case 2: { Bytes pb = special_private(32, r), pub = oracle::ed_public(pb); bool bad = r.chance(1, 2); if (bad) pub[r.below(32)] ^= 1 << r.below(8); Exact p(pb, r.below(8)), q(pub, r.below(8)); tr += vh::fmt(" pair%d%s", i, bad ? "!" : "");
            e = noise_signstate_set_keypair(s[i], p.p, 32, q.p, 32);
            if (!bad) { if (e) vh::viol("set-keypair", "set_keypair gave %x", e); m[i] = M{2, pb, pub}; } else { if (e != NOISE_ERROR_INVALID_PUBLIC_KEY) vh::viol("set-keypair-mismatch", "mismatched pair gave %x", e); cleared_ok = true; vh::ev("mismatched_pairs_rejected"); } break; }
        case 3: { Bytes pub = m[j].type && r.chance(1, 2) ? m[j].pub : r.chance(1, 2) ? oracle::ed_public(r.bytes(32)) : r.bytes(32); Exact q(pub, r.below(8)); tr += vh::fmt(" pub%d", i); if ((e = noise_signstate_set_public_key(s[i], q.p, 32))) { if (e != NOISE_ERROR_INVALID_PUBLIC_KEY || oracle::ed_public(pub).empty()) vh::viol("set-public", "set_public gave %x", e); } else m[i] = M{1, Bytes(), pub}; break; }
        case 4: if (r.chance(1, 3)) { noise_signstate_clear_key(s[i]); m[i] = M(); tr += vh::fmt(" clr%d", i); } else { if ((e = noise_signstate_copy(s[i], s[j]))) vh::viol("copy", "copy gave %x", e); m[i] = m[j]; tr += vh::fmt(" cp%d<%d", i, j); } break;
        case 5: { size_t w = r.pick(std::vector<size_t>{0, 31, 33, 64}), v = r.pick(std::vector<size_t>{0, 32, 63, 65}); Exact x(w), y(32), z(v); Bytes xc = x.get(), yc = y.get(), zc = z.get(); tr += " len";
            int es[9] = {noise_signstate_set_public_key(s[i], x.p, w), noise_signstate_set_keypair_private(s[i], x.p, w), noise_signstate_set_keypair(s[i], x.p, w, y.p, 32), noise_signstate_set_keypair(s[i], y.p, 32, x.p, w), noise_signstate_get_public_key(s[i], x.p, w), noise_signstate_get_keypair(s[i], x.p, w, y.p, 32), noise_signstate_get_keypair(s[i], y.p, 32, x.p, w), noise_signstate_sign(s[i], y.p, 5, z.p, v), noise_signstate_verify(s[i], y.p, 5, z.p, v)};
            for (int q = 0; q < 9; ++q) if (!es[q] || (es[q] != NOISE_ERROR_INVALID_LENGTH && m[i].type == 2)) vh::viol("wrong-length", "call %d gave %x", q, es[q]);
            if (x.get() != xc || z.get() != zc || y.get() != yc) vh::viol("wrong-length-writes", "a call refused for its length wrote output");
            int ns[7] = {noise_signstate_set_public_key(s[i], 0, 32), noise_signstate_set_keypair_private(s[i], 0, 32), noise_signstate_set_keypair(s[i], y.p, 32, 0, 32), noise_signstate_sign(s[i], 0, 5, z.p, 64), noise_signstate_sign(s[i], y.p, 5, 0, 64), noise_signstate_verify(s[i], 0, 0, y.p, 64), noise_signstate_verify(s[i], y.p, 5, 0, 64)};
            for (int q = 0; q < 7; ++q) if (ns[q] != NOISE_ERROR_INVALID_PARAM) vh::viol("null-args", "call %d with a null argument gave %x", q, ns[q]);
            vh::ev("refused_calls"); break; }
        default: {
            size_t ml = r.chance(1, 8) ? r.range(1000, 70000) : r.below(300); Exact msg(r.bytes(ml), r.below(8)), sg(64, r.below(8)); Bytes mb = msg.get(); tr += vh::fmt(" sig%d/%zu", i, ml);
            e = noise_signstate_sign(s[i], msg.p, ml, sg.p, 64);
            if (m[i].type != 2) { if (e != NOISE_ERROR_INVALID_PRIVATE_KEY) vh::viol("sign-nopriv", "sign without a private key gave %x", e); }
            else { Bytes w = oracle::ed_sign(m[i].priv, mb); if (e || sg.get() != w) vh::viol("signature", "key %s message of %zu bytes: signature %x %s want %s", vh::hex(m[i].priv, 32).c_str(), ml, e, vh::hex(sg.get(), 64).c_str(), vh::hex(w, 64).c_str()); if (msg.get() != mb) vh::viol("sign-writes", "sign changed the message"); vh::ev("signatures_compared"); }
            // verification, under s[j], of a signature by a known key, possibly altered
            Bytes pk = m[j].type == 2 && r.chance(3, 4) ? m[j].priv : r.bytes(32), pub = oracle::ed_public(pk), S = oracle::ed_sign(pk, mb), M2 = mb; std::string how = "genuine"; bool valid = m[j].type && pub == m[j].pub;
            switch (r.below(9)) {
            case 0: S[r.below(64)] ^= 1 << r.below(8); how = "sigflip"; valid = false; break;
            case 1: if (ml) { M2[r.chance(1, 3) ? ml - 1 : r.below(ml)] ^= 1 << r.below(8); valid = false; how = "msgflip"; } break;
            case 2: { static const uint8_t L[32] = {0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10}; int times = r.range(1, 15), c; // S + k*L
                bool over = false; for (int t = 0; t < times && !over; ++t) { Bytes T = S; c = 0; for (int q = 0; q < 32; ++q) { c += T[32 + q] + L[q]; T[32 + q] = c; c >>= 8; } if (c) over = true; else S = T; } how = "s+L"; valid = false; break; }
            case 3: M2.push_back(r.next()); valid = false; how = "msgextend"; break;
            case 4: if (ml) { M2.pop_back(); valid = false; how = "msgcut"; } break;
            case 5: S[63] ^= 0x20 << r.below(3); valid = false; how = "sigtop"; break;
            }
            Exact vm(M2, r.below(8)), vs(S, r.below(8)); e = noise_signstate_verify(s[j], vm.p, vm.n, vs.p, 64);
            if (!m[j].type) { if (e != NOISE_ERROR_INVALID_PUBLIC_KEY) vh::viol("verify-nokey", "verify without a key gave %x", e); }
            else if (valid ? e != 0 : e != NOISE_ERROR_INVALID_SIGNATURE) vh::viol("verify-" + how, "verification of a %s signature (valid=%d, message %zu bytes) gave %x", how.c_str(), valid, ml, e);
            else { vh::ev(valid ? "signatures_verified" : "forgeries_rejected"); vh::ev("verify_" + how); }
            break; }
        }
        for (int q = 0; q < NS; ++q) {
            Exact a(32), b(32);
            if (q == i && cleared_ok) m[q] = noise_signstate_has_public_key(s[q]) ? before : M();
            if (!!noise_signstate_has_keypair(s[q]) != (m[q].type == 2) || !!noise_signstate_has_public_key(s[q]) != (m[q].type != 0)) vh::viol("state", "object %d reports keypair %d public %d, expected type %d after %s", q, noise_signstate_has_keypair(s[q]), noise_signstate_has_public_key(s[q]), m[q].type, tr.c_str());
            e = noise_signstate_get_keypair(s[q], a.p, 32, b.p, 32); if (m[q].type == 2 ? (e || a.get() != m[q].priv || b.get() != m[q].pub) : e != NOISE_ERROR_INVALID_STATE) vh::viol("get-keypair", "object %d: get_keypair gave %x or another pair", q, e);
            memset(b.p, 0xA5, 32); e = noise_signstate_get_public_key(s[q], b.p, 32); if (m[q].type ? (e || b.get() != m[q].pub) : e != NOISE_ERROR_INVALID_STATE) vh::viol("get-public", "object %d: get_public_key gave %x or another key", q, e);
        }
        { char f[128]; bool full = r.chance(1, 2); e = noise_signstate_format_fingerprint(s[i], full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, f, sizeof f);
          if (m[i].type ? e || fingerprint(m[i].pub, full) != f : e != NOISE_ERROR_INVALID_STATE || f[0]) vh::viol("fingerprint", "fingerprint %x %s", e, f); }
        vh::eval();
    }
    for (auto x : s) noise_signstate_free(x); vh::sig(tr); if (vh::ctx().cur % 500 == 0) vh::sample(tr.substr(0, 150));
}
int main(int argc, char **argv) {
    std::string m; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode")) m = argv[i + 1];
    noise_init();
    return vh::run(argc, argv, [&](uint64_t, vh::Rng &r) { if (m == "newhope") mode_newhope(r); else if (m == "sign") mode_sign(r); else mode_dh(r); });
}
