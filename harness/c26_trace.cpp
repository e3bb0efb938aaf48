// C26: the same work with other secrets takes the same branches and touches the same memory.
// noise-c is compiled with -fsanitize-coverage=trace-pc,trace-loads,trace-stores,trace-div; each run happens in a child
// forked from the same state, so that addresses are comparable.
#include "hsdrive.hpp"
#include "certdesc.hpp"
#include <noise/keys/loader.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <link.h>
using namespace vh; using namespace hsd;

struct Ev { uint32_t pc, kind; uint64_t a; };
enum { CAP = 6000000 };
struct Rec { uint64_t n, hash; int nres, res[64]; char note[200]; Ev e[CAP]; };
static Rec *rec[2], *cur; static volatile int on; static uintptr_t base;
static inline void put(void *pc, uint32_t kind, uint64_t a) {
    if (!on) return;
    Rec *r = cur; Ev e = {(uint32_t)((uintptr_t)pc - base), kind, a};
    if (r->n < CAP) r->e[r->n] = e;
    r->hash = (r->hash ^ e.pc ^ (uint64_t)kind << 32) * 0x9E3779B97F4A7C15ULL; r->hash = (r->hash ^ r->hash >> 29 ^ a) * 0xBF58476D1CE4E5B9ULL; ++r->n;
}
#define PC __builtin_return_address(0)
extern "C" {
void __sanitizer_cov_trace_pc() { put(PC, 0, 0); }
#define LS(n) void __sanitizer_cov_load##n(uint8_t *a) { put(PC, 1, (uint64_t)a); } void __sanitizer_cov_store##n(uint8_t *a) { put(PC, 2, (uint64_t)a); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __sanitizer_cov_trace_div4(uint32_t v) { put(PC, 3, v); }
void __sanitizer_cov_trace_div8(uint64_t v) { put(PC, 3, v); }
// libc calls of the library: what they touch, and how far a comparison that stops early got
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_memcpy(void *d, const void *s, size_t n) { put(PC, 4, (uint64_t)d); put(PC, 4, (uint64_t)s); put(PC, 4, n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { put(PC, 4, (uint64_t)d); put(PC, 4, (uint64_t)s); put(PC, 4, n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { put(PC, 4, (uint64_t)d); put(PC, 4, n); return __real_memset(d, c, n); }
static int cmp(void *pc, const uint8_t *a, const uint8_t *b, size_t n, int str) {
    size_t i = 0; while (i < n && a[i] == b[i] && !(str && !a[i])) ++i; put(pc, 5, i); return i == n || (str && !a[i] && !b[i]) ? 0 : (int)a[i] - b[i];
}
int __wrap_memcmp(const void *a, const void *b, size_t n) { return cmp(PC, (const uint8_t *)a, (const uint8_t *)b, n, 0); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return cmp(PC, (const uint8_t *)a, (const uint8_t *)b, n, 0); }
int __wrap_strcmp(const char *a, const char *b) { return cmp(PC, (const uint8_t *)a, (const uint8_t *)b, ~(size_t)0, 1); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { return cmp(PC, (const uint8_t *)a, (const uint8_t *)b, n, 1); }
void *__wrap_malloc(size_t n) { put(PC, 6, n); return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { put(PC, 6, a * b); return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { put(PC, 6, n); return __real_realloc(p, n); }
void __wrap_free(void *p) { put(PC, 7, (uint64_t)p); __real_free(p); }
}
static void res(int v) { if (cur->nres < 64) cur->res[cur->nres++] = v; }
static void note(const std::string &s) { snprintf(cur->note, sizeof cur->note, "%s", s.c_str()); }

// Every scenario draws what may be public from P and what must stay secret from S; only S differs between two runs.
static Bytes edgy(Rng &S, size_t n) { Bytes b = S.bytes(n); switch (S.below(6)) { case 0: std::fill(b.begin(), b.end(), 0); break; case 1: std::fill(b.begin(), b.end(), 0xFF); break; case 2: std::fill(b.begin() + n / 2, b.end(), 0); break; case 3: std::fill(b.begin(), b.begin() + n / 2, 0xFF); } return b; }
static void dh(Rng &P, Rng &S) {
    bool c = P.chance(1, 3), x = P.chance(1, 4); size_t n = c ? 56 : 32; note(std::string(c ? "448" : "25519") + (x ? " null or not" : "")); NoiseDHState *a = 0, *b = 0; noise_dhstate_new_by_id(&a, dh_id(c ? D448 : D25519)); noise_dhstate_new_by_id(&b, dh_id(c ? D448 : D25519));
    Bytes k = edgy(S, n), u, o(n); if (x) { u = S.bytes(n); if (S.chance(1, 2)) std::fill(u.begin(), u.end(), 0); } else u = pub_of(c ? D448 : D25519, P.bytes(n));
    on = 1; res(noise_dhstate_set_keypair_private(a, k.data(), n)); on = 0; if (x) { if (S.next(), 1) noise_dhstate_set_public_key(b, u.data(), n); } else noise_dhstate_set_public_key(b, u.data(), n);
    on = 1; int e = noise_dhstate_calculate(a, b, o.data(), n); noise_dhstate_clear_key(a); noise_dhstate_free(a); on = 0; res(e); noise_dhstate_free(b);
}
static void sign(Rng &P, Rng &S) {
    size_t m = P.below(P.chance(1, 5) ? 2000 : 200); note(fmt("message of %zu", m)); NoiseSignState *s = 0; noise_signstate_new_by_id(&s, NOISE_SIGN_ED25519); Bytes k = edgy(S, 32), d = S.bytes(m + 1), o(64);
    on = 1; res(noise_signstate_set_keypair_private(s, k.data(), 32)); res(noise_signstate_sign(s, d.data(), m, o.data(), 64)); noise_signstate_free(s); on = 0;
}
static void aead(Rng &P, Rng &S) {
    int alg = !strcmp(VH_BACKEND, "openssl") && P.chance(1, 3) ? 2 : 1; size_t m = P.below(P.chance(1, 5) ? 3000 : 200), adl = P.below(100); int bad = P.below(4); note(fmt("alg %d message of %zu bad %d", alg, m, bad));
    NoiseCipherState *c = 0, *d = 0; noise_cipherstate_new_by_id(&c, NOISE_ID('C', alg)); noise_cipherstate_new_by_id(&d, NOISE_ID('C', alg)); Bytes k = edgy(S, 32), pt = edgy(S, m + 16), ad = P.bytes(adl + 1);
    on = 1; noise_cipherstate_init_key(c, k.data(), 32); noise_cipherstate_init_key(d, k.data(), 32); NoiseBuffer b; noise_buffer_set_inout(b, pt.data(), m, m + 16); res(noise_cipherstate_encrypt_with_ad(c, ad.data(), adl, &b)); on = 0;
    // a forgery differs from the truth anywhere in the same part of the message
    if (bad == 1) pt[m + S.below(16)] ^= 1 << S.below(8); else if (bad == 2) { Bytes t = S.bytes(16); std::copy(t.begin(), t.end(), pt.begin() + m); } else if (bad == 3 && m) pt[S.below(m)] ^= 1 << S.below(8);
    on = 1; int e = noise_cipherstate_decrypt_with_ad(d, ad.data(), adl, &b); noise_cipherstate_free(c); noise_cipherstate_free(d); on = 0; res(e);
}
static void hash(Rng &P, Rng &S) {
    int h = 1 + P.below(4); size_t m = P.below(P.chance(1, 5) ? 2000 : 300), kl = P.below(200); note(fmt("hash %d data %zu key %zu", h, m, kl)); NoiseHashState *s = 0; noise_hashstate_new_by_id(&s, NOISE_ID('H', h)); size_t n = noise_hashstate_get_hash_length(s); Bytes d = edgy(S, m + 1), k = edgy(S, kl + 1), o(200);
    on = 1; res(noise_hashstate_hash_one(s, d.data(), m, o.data(), n)); res(noise_hashstate_hash_two(s, k.data(), kl, d.data(), m, o.data(), n)); res(noise_hashstate_hkdf(s, k.data(), kl, d.data(), m, o.data(), n, o.data() + n, n)); res(noise_hashstate_pbkdf2(s, k.data(), kl, d.data(), m, 3, o.data(), 100)); noise_hashstate_free(s); on = 0;
}
static void newhope_(Rng &P, Rng &S) {
    NoiseDHState *a = 0, *b = 0; noise_dhstate_new_by_id(&a, NOISE_DH_NEWHOPE); noise_dhstate_new_by_id(&b, NOISE_DH_NEWHOPE); noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER);
    Bytes seed = P.bytes(32), k = edgy(S, 32), f = edgy(S, 32), o(32), q(32); seed.insert(seed.end(), k.begin(), k.end()); bool fixed = P.below(2); note(fixed ? "fixed" : "generated");
    on = 1; res(noise_dhstate_set_keypair_private(a, seed.data(), 64)); int e;
    if (fixed) { on = 0; NoiseDHState *c = 0; noise_dhstate_new_by_id(&c, NOISE_DH_NEWHOPE); noise_dhstate_free(c); on = 1; }
    e = noise_dhstate_generate_dependent_keypair(b, a); res(e); res(noise_dhstate_calculate(b, a, o.data(), 32)); res(noise_dhstate_calculate(a, b, q.data(), 32)); noise_dhstate_free(a); noise_dhstate_free(b); on = 0; res(o == q);
}
static void utils(Rng &P, Rng &S) {
    size_t n = 1 + P.below(100); bool eq = P.chance(1, 5); note(fmt("%zu bytes equal %d", n, eq)); Bytes a = edgy(S, n), b = a, z(n); if (!eq) { b[S.below(n)] ^= 1 << S.below(8); z[S.below(n)] = 1 << S.below(8); if (S.below(2)) S.fill(b.data(), n), b[0] = a[0] ^ 1; }
    on = 1; int r = noise_is_equal(a.data(), b.data(), n), s = noise_is_zero(z.data(), n); noise_clean(b.data(), n); on = 0; res(r); res(s);
}
static void keygen(Rng &P, Rng &S) {
    int k = P.below(4); note(fmt("kind %d", k));
    if (k < 2) { NoiseDHState *d = 0; noise_dhstate_new_by_id(&d, dh_id(k ? D448 : D25519)); on = 1; res(noise_dhstate_generate_keypair(d)); noise_dhstate_free(d); on = 0; }
    else if (k == 2) { NoiseSignState *g = 0; noise_signstate_new_by_id(&g, NOISE_SIGN_ED25519); on = 1; res(noise_signstate_generate_keypair(g)); noise_signstate_free(g); on = 0; }
    else { Bytes b(1 + P.below(500)); on = 1; NoiseRandState *s = 0; res(noise_randstate_new(&s)); res(noise_randstate_generate(s, b.data(), b.size())); res(noise_randstate_pad(s, b.data(), 1, b.size(), P.below(2) ? NOISE_PADDING_RANDOM : NOISE_PADDING_ZERO)); noise_randstate_free(s); on = 0; }
}
static void handshake(Rng &P, Rng &S) {
    Proto p = sweep(P.below(100000), P, false, 20); if (p.c == oracle::AESGCM && strcmp(VH_BACKEND, "openssl")) p.c = oracle::ChaChaPoly; if (p.dh == D448 && P.chance(2, 3)) p.dh = D25519;
    Rng Q = S; Setup s = make_setup(p, P), t = s; t.psk = edgy(Q, 32); for (Bytes *x : {&t.is, &t.rs, &t.ie, &t.re, &t.iff, &t.rf}) *x = Q.bytes(x->size());
    if (p.dh == DNewHope && t.ie.size() >= 32) std::copy(s.ie.begin(), s.ie.begin() + 32, t.ie.begin()); if (p.hybrid == DNewHope && t.iff.size() >= 32) std::copy(s.iff.begin(), s.iff.begin() + 32, t.iff.begin());
    int wrong = P.chance(1, 3) ? 1 + P.below(4) : 0, what = P.below(3); note(p.name() + fmt(" wrong %d", wrong)); Rng C = P; Lib l[2]; l[0].create(p, true, true); l[1].create(p, false, true);
    for (int i = 0; i < 2; ++i) {      // noise-c's part only; no random choices here
        NoiseHandshakeState *h = l[i].hs; uint8_t z = 0; on = 1; res(noise_handshakestate_set_prologue(h, s.prologue.size() ? s.prologue.data() : &z, s.prologue.size())); if (p.psk) res(noise_handshakestate_set_pre_shared_key(h, t.psk.data(), 32)); on = 0;
        Bytes own = i ? t.rs : t.is; if (p.owns_static(!i)) { NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(h); on = 1; res(noise_dhstate_set_keypair_private(d, own.data(), own.size())); on = 0; }
        if (p.knows_remote_static_first(!i)) { Bytes u = pub_of(p.dh, i ? t.is : t.rs); NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(h); noise_dhstate_set_public_key(d, u.data(), u.size()); }
        l[i].set_ephemerals(t); on = 1; res(noise_handshakestate_start(h)); on = 0;
    }
    Bytes m(70000), q(70000), pl; uint64_t sd = Q.next(); Rng D(sd, 5);
    for (int n = 1; n < 12; ++n) {
        int w = l[0].action() == NOISE_ACTION_WRITE_MESSAGE ? 0 : l[1].action() == NOISE_ACTION_WRITE_MESSAGE ? 1 : -1; if (w < 0) break;
        pl = edgy(D, 40 + C.below(160)); NoiseBuffer mb, pb; noise_buffer_set_output(mb, m.data(), 65535); noise_buffer_set_input(pb, pl.data(), pl.size());
        on = 1; int e = noise_handshakestate_write_message(l[w].hs, &mb, &pb); on = 0; res(e); if (e) break;
        if (n == wrong) { size_t z = mb.size; if (what) m[z - 1 - D.below(16)] ^= 1 << D.below(8); else m[z - 17 - D.below(24)] ^= 1 << D.below(8); }
        size_t z = mb.size; noise_buffer_set_input(mb, m.data(), z); noise_buffer_set_output(pb, q.data(), 65535); on = 1; e = noise_handshakestate_read_message(l[!w].hs, &mb, &pb); on = 0; res(e); if (e) break;
    }
    if (l[0].action() == NOISE_ACTION_SPLIT && l[1].action() == NOISE_ACTION_SPLIT) for (int i = 0; i < 2; ++i) {
        NoiseCipherState *a = 0, *b = 0; on = 1; res(noise_handshakestate_split(l[i].hs, &a, &b)); on = 0; Bytes x = edgy(D, 200); NoiseBuffer xb; noise_buffer_set_inout(xb, x.data(), 100, 200); on = 1; res(noise_cipherstate_encrypt(a, &xb)); noise_cipherstate_free(a); noise_cipherstate_free(b); on = 0;
    }
    on = 1; for (auto &x : l) { noise_handshakestate_free(x.hs); x.hs = 0; } on = 0;
}
static void keyfile(Rng &P, Rng &S) {
    static const char *H[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"}; static const oracle::Hash O[] = {oracle::BLAKE2s, oracle::BLAKE2b, oracle::SHA256, oracle::SHA512}; int h = P.below(4), wrong = P.below(3); size_t n = 1 + P.below(150); note(fmt("passphrase of %zu hash %s wrong %d", n, H[h], wrong));
    Bytes pw = edgy(S, n), salt = P.bytes(16), k(40), plain = {0x0a, 3, 'a', 'b', 'c'}, key = edgy(S, 32); for (auto &x : pw) x = 'a' + x % 26; for (int x : {0x22, 41, 0x0a, 5, 50, 53, 53, 49, 57, 0x12, 32}) plain.push_back(x); plain.insert(plain.end(), key.begin(), key.end());
    PKCS5_PBKDF2_HMAC((char *)pw.data(), n, salt.data(), 16, 3, oracle::md(O[h]), 40, k.data()); uint64_t nn = 0; for (int i = 0; i < 8; ++i) nn = nn << 8 | k[32 + i];
    pb::Obj e(&Noise_EncryptedPrivateKey_d); std::string alg = std::string("ChaChaPoly_") + H[h] + "_PBKDF2"; e.v[0].n = 1; e.v[1].has = e.v[2].has = e.v[4].has = true; e.v[1].b = Bytes(alg.begin(), alg.end()); e.v[2].b = salt; e.v[3].n = 3;
    e.v[4].b = oracle::aead(oracle::ChaChaPoly, Bytes(k.begin(), k.begin() + 32), nn, Bytes(), plain); Bytes f; bool bad = false; pb::enc(f, e, bad);
    if (wrong == 1) pw[S.below(n)] ^= 1; else if (wrong == 2) f[f.size() - 1 - S.below(16)] ^= 1 << S.below(8);
    NoiseProtobuf b; noise_protobuf_prepare_input(&b, f.data(), f.size()); Noise_PrivateKey *o = 0; on = 1; int r = noise_load_private_key_from_buffer(&o, &b, (char *)pw.data(), n); on = 0; res(r); if (o) { on = 1; Noise_PrivateKey_free(o); on = 0; }
}
static const struct { const char *n; void (*f)(Rng &, Rng &); int w; } SC[] = {{"dh", dh, 4}, {"sign", sign, 2}, {"aead", aead, 4}, {"hash", hash, 4}, {"newhope", newhope_, 2}, {"utils", utils, 2}, {"keygen", keygen, 2}, {"handshake", handshake, 6}, {"keyfile", keyfile, 2}};
static std::string where(uint32_t pc) {
    Dl_info d; if (dladdr((void *)(base + pc - 1), &d) && d.dli_sname) return d.dli_sname; return fmt("+0x%x", pc - 1);
}
static std::string addr2line(uint32_t pc) {
    char exe[500]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return ""; exe[n] = 0; std::string c = fmt("addr2line -fs -e %s 0x%x 2>/dev/null", exe, pc - 1), o; FILE *f = popen(c.c_str(), "r"); if (!f) return ""; char b[300]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (o.size()) o += " "; o += b; } pclose(f); return o;
}
static void body(uint64_t i, Rng &r) {
    int tot = 0; for (auto &s : SC) tot += s.w; int k = 0, x = i % tot; while (x >= SC[k].w) x -= SC[k++].w;
    uint64_t ps = r.next(); describe(SC[k].n); uint64_t ss[2] = {r.next(), r.next()};
    for (int j = 0; j < 2; ++j) {
        Rec *q = rec[j]; q->n = q->hash = 0; q->nres = 0; q->note[0] = 0; fflush(ctx().out);
        pid_t p = fork(); if (p < 0) die("fork");
        if (!p) { budget(120); cur = q; Rng P(ps, 1), S(ss[j], 2); SC[k].f(P, S); _exit(0); }
        int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st) && WEXITSTATUS(st) == 96) _exit(96); viol(fmt("crash:%s", SC[k].n), "%s ended with status %x", SC[k].n, st); return; }
    }
    Rec *a = rec[0], *b = rec[1]; describe(fmt("%s %s", SC[k].n, a->note)); eval(); sig(fmt("%s %s %llx %llx", SC[k].n, a->note, ss[0], ss[1])); ev(std::string("compared_") + SC[k].n);
    ev("steps_observed", a->n + b->n);
    if (a->nres != b->nres || memcmp(a->res, b->res, a->nres * sizeof(int))) { ev("not_comparable"); ev(std::string("not_comparable_") + SC[k].n); return; }
    if (!a->n) { ev("empty_traces"); return; }
    sample(fmt("%s %s: %llu steps", SC[k].n, a->note, (unsigned long long)a->n));
    if (a->n == b->n && a->hash == b->hash) { ev("equal_traces"); return; }
    uint64_t m = std::min({a->n, b->n, (uint64_t)CAP}), d = 0; while (d < m && !memcmp(&a->e[d], &b->e[d], sizeof(Ev))) ++d;
    if (d == m) { viol(fmt("secret-dependent:%s", SC[k].n), "%s (%s) took %llu steps with one secret and %llu with another", SC[k].n, a->note, (unsigned long long)a->n, (unsigned long long)b->n); return; }
    static const char *K[] = {"branch", "load", "store", "division", "libc call", "comparison that stops early", "allocation", "release"};
    Ev &x0 = a->e[d], &x1 = b->e[d]; std::string s0 = addr2line(x0.pc), s1 = addr2line(x1.pc);
    viol(fmt("secret-dependent:%s:%s", SC[k].n, s0.substr(0, s0.find(' ')).c_str()), "%s (%s): execution depends on the secret after %llu of %llu/%llu steps: %s at %s against %s at %s (%llx, %llx)", SC[k].n, a->note, (unsigned long long)d, (unsigned long long)a->n, (unsigned long long)b->n, K[x0.kind], s0.c_str(), K[x1.kind], s1.c_str(), (unsigned long long)x0.a, (unsigned long long)x1.a);
}
static int cb(struct dl_phdr_info *i, size_t, void *) { base = i->dlpi_addr; return 1; }
int main(int argc, char **argv) {
    dl_iterate_phdr(cb, 0); for (auto &r : rec) { r = (Rec *)mmap(0, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) die("mmap"); }
    describe_all(); patterns(); { Rng q(1, 1); sweep(0, q); } if (noise_init()) die("noise_init"); return run(argc, argv, body, 300);
}
