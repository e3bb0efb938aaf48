// C26: secrets marked undefined for Valgrind, which then reports every branch and address that depends on them.
#include "hsdrive.hpp"
#include <valgrind/memcheck.h>
using namespace vh; using namespace hsd;
static void secret(Bytes &b) { VALGRIND_MAKE_MEM_UNDEFINED(b.data(), b.size()); }
static std::string note;
static void dh(Rng &r) {
    bool c = r.chance(1, 3); size_t n = c ? 56 : 32; note = c ? "448" : "25519"; NoiseDHState *a = 0, *b = 0; noise_dhstate_new_by_id(&a, dh_id(c ? D448 : D25519)); noise_dhstate_new_by_id(&b, dh_id(c ? D448 : D25519));
    Bytes k = r.bytes(n), u = r.chance(1, 6) ? Bytes(n) : pub_of(c ? D448 : D25519, r.bytes(n)), o(n); secret(k); noise_dhstate_set_keypair_private(a, k.data(), n); noise_dhstate_set_public_key(b, u.data(), n); noise_dhstate_calculate(a, b, o.data(), n); noise_dhstate_free(a); noise_dhstate_free(b);
}
static void sign(Rng &r) { size_t m = r.below(300); note = fmt("message of %zu", m); NoiseSignState *s = 0; noise_signstate_new_by_id(&s, NOISE_SIGN_ED25519); Bytes k = r.bytes(32), d = r.bytes(m + 1), o(64); secret(k); secret(d); noise_signstate_set_keypair_private(s, k.data(), 32); noise_signstate_sign(s, d.data(), m, o.data(), 64); noise_signstate_free(s); }
static void aead(Rng &r) {
    size_t m = r.below(r.chance(1, 5) ? 3000 : 200), adl = r.below(100); note = fmt("message of %zu", m); NoiseCipherState *c = 0; noise_cipherstate_new_by_id(&c, NOISE_CIPHER_CHACHAPOLY); Bytes k = r.bytes(32), pt = r.bytes(m + 16), ad = r.bytes(adl + 1); secret(k); secret(pt);
    noise_cipherstate_init_key(c, k.data(), 32); for (int i = 0; i < 3; ++i) { NoiseBuffer b; noise_buffer_set_inout(b, pt.data(), m, m + 16); noise_cipherstate_encrypt_with_ad(c, ad.data(), adl, &b); } noise_cipherstate_free(c);
}
static void hash(Rng &r) {
    int h = 1 + r.below(4); size_t m = r.below(r.chance(1, 5) ? 2000 : 300), kl = r.below(200); note = fmt("hash %d data %zu key %zu", h, m, kl); NoiseHashState *s = 0; noise_hashstate_new_by_id(&s, NOISE_ID('H', h)); size_t n = noise_hashstate_get_hash_length(s); Bytes d = r.bytes(m + 1), k = r.bytes(kl + 1), o(200); secret(d); secret(k);
    noise_hashstate_reset(s); size_t a = r.below(m + 1); noise_hashstate_update(s, d.data(), a); noise_hashstate_update(s, d.data() + a, m - a); noise_hashstate_finalize(s, o.data(), n); noise_hashstate_hash_two(s, k.data(), kl, d.data(), m, o.data(), n); noise_hashstate_hkdf(s, k.data(), kl, d.data(), m, o.data(), n, o.data() + n, n); noise_hashstate_pbkdf2(s, k.data(), kl, d.data(), m, 2, o.data(), 70); noise_hashstate_free(s);
}
static void newhope_(Rng &r) {
    note = "both ends"; NoiseDHState *a = 0, *b = 0; noise_dhstate_new_by_id(&a, NOISE_DH_NEWHOPE); noise_dhstate_new_by_id(&b, NOISE_DH_NEWHOPE); noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER);
    Bytes k = r.bytes(64), o(32), q(32); VALGRIND_MAKE_MEM_UNDEFINED(k.data() + 32, 32); noise_dhstate_set_keypair_private(a, k.data(), 64); noise_dhstate_generate_dependent_keypair(b, a); noise_dhstate_calculate(b, a, o.data(), 32); noise_dhstate_calculate(a, b, q.data(), 32); noise_dhstate_free(a); noise_dhstate_free(b);
}
static void utils(Rng &r) { size_t n = 1 + r.below(100); note = fmt("%zu bytes", n); Bytes a = r.bytes(n), b = r.bytes(n); secret(a); secret(b); volatile int x = noise_is_equal(a.data(), b.data(), n), y = noise_is_zero(a.data(), n); (void)x; (void)y; noise_clean(a.data(), n); }
// What an initiator writes first, from secret keys, psk and payload.
static void first(Rng &r) {
    Proto p = sweep(r.below(100000), r, false, 10); p.c = oracle::ChaChaPoly; if (p.dh == D448 && r.chance(2, 3)) p.dh = D25519; if (p.dh == DNewHope) p.dh = D25519; note = p.name(); Setup s = make_setup(p, r); Lib l; if (l.create(p, true, true)) return; NoiseHandshakeState *h = l.hs; s.prologue.push_back(0); noise_handshakestate_set_prologue(h, s.prologue.data(), s.prologue.size());
    if (p.psk) { secret(s.psk); noise_handshakestate_set_pre_shared_key(h, s.psk.data(), 32); } size_t n = p.dh == D448 ? 56 : 32; Bytes u(n);
    if (p.knows_remote_static_first(true)) { u = pub_of(p.dh, s.rs); noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(h), u.data(), n); }
    auto pub = [&](NoiseDHState *d, Bytes k, size_t from) { VALGRIND_MAKE_MEM_UNDEFINED(k.data() + from, k.size() - from); noise_dhstate_set_keypair_private(d, k.data(), k.size()); };
    if (p.owns_static(true)) pub(noise_handshakestate_get_local_keypair_dh(h), s.is, 0);
    NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(h); if (d) pub(d, s.ie, 0); d = noise_handshakestate_get_fixed_hybrid_dh(h); if (d) pub(d, s.iff, p.hybrid == DNewHope ? 32 : 0);
    noise_handshakestate_start(h); Bytes m(65535), pl = r.bytes(100); secret(pl); NoiseBuffer mb, pb; noise_buffer_set_output(mb, m.data(), m.size()); noise_buffer_set_input(pb, pl.data(), pl.size()); noise_handshakestate_write_message(h, &mb, &pb);
    if (noise_handshakestate_get_action(h) == NOISE_ACTION_SPLIT) { NoiseCipherState *a = 0, *b = 0; noise_handshakestate_split(h, &a, &b); Bytes x = r.bytes(100); secret(x); noise_buffer_set_inout(pb, x.data(), 50, 100); if (a) noise_cipherstate_encrypt(a, &pb); noise_cipherstate_free(a); noise_cipherstate_free(b); }
}
static const struct { const char *n; void (*f)(Rng &); int w; } SC[] = {{"dh", dh, 2}, {"sign", sign, 1}, {"aead", aead, 2}, {"hash", hash, 2}, {"newhope", newhope_, 1}, {"utils", utils, 1}, {"first", first, 3}};
// Names the function of noise-c that Valgrind complained about, from its own log.
static long seen;
static void report(int k) {
    ev("taint_errors"); std::string p = opt("--vglog") + std::to_string(getpid()), l, fn, what; FILE *f = fopen(p.c_str(), "r"); if (!f) { viol(fmt("secret-dependent:%s", SC[k].n), "%s (%s): Valgrind saw secret data decide a branch or an address", SC[k].n, note.c_str()); return; }
    fseek(f, seen, SEEK_SET); char b[1000];
    while (fgets(b, sizeof b, f)) {
        l = b; size_t z = l.find("== "); if (z == std::string::npos) continue; l = l.substr(z + 3); while (l.size() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        if (l.find("depends on uninit") != std::string::npos || l.find("Use of uninit") != std::string::npos || l.find("uninitialised byte") != std::string::npos) { what = l; fn = ""; continue; }
        if (what.empty() || !fn.empty()) continue; z = l.find(": "); if (z == std::string::npos || (l.find("at 0x") == std::string::npos && l.find("by 0x") == std::string::npos)) continue;
        if (l.find("vg_replace") != std::string::npos || l.find(".so") != std::string::npos) continue; size_t e = l.find(' ', z + 2); fn = l.substr(z + 2, e - z - 2);
        viol(fmt("secret-dependent:%s:%s", SC[k].n, fn.c_str()), "%s (%s): %s in %s", SC[k].n, note.c_str(), what.c_str(), l.substr(z + 2).c_str());
    }
    seen = ftell(f); fclose(f);
    if (fn.empty()) viol(fmt("secret-dependent:%s", SC[k].n), "%s (%s): Valgrind saw secret data decide a branch or an address", SC[k].n, note.c_str());
}
static void body(uint64_t i, Rng &r) {
    int tot = 0; for (auto &s : SC) tot += s.w; int k = 0, x = i % tot; while (x >= SC[k].w) x -= SC[k++].w;
    unsigned e0 = VALGRIND_COUNT_ERRORS; describe(SC[k].n); SC[k].f(r); unsigned e1 = VALGRIND_COUNT_ERRORS; eval(); ev(std::string("tainted_") + SC[k].n); sig(std::string(SC[k].n) + note + hex(r.bytes(8))); sample(std::string("tainted ") + SC[k].n + " " + note);
    if (e1 != e0) report(k);
}
int main(int argc, char **argv) {
    if (!RUNNING_ON_VALGRIND) die("valgrind"); Bytes t(4, 1); secret(t); static volatile char T[256]; unsigned a = VALGRIND_COUNT_ERRORS; uint8_t *volatile q = t.data(); T[q[1]] = 1; if (VALGRIND_COUNT_ERRORS == a) die("taint is not seen");
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--vglog")) { FILE *f = fopen((std::string(argv[i + 1]) + std::to_string(getpid())).c_str(), "r"); if (!f) die("no valgrind log"); fseek(f, 0, SEEK_END); seen = ftell(f); fclose(f); }
    return run(argc, argv, body, 600);
}
