// C18: secrets in memory that the library gives back: freed heap blocks, cleared objects, and the stack.
#include "hsdrive.hpp"
#include <noise/keys/loader.h>
#include <noise/keys/certificate.h>
#include <malloc.h>
#include <ucontext.h>
#include <cerrno>
using namespace vh;
using namespace hsd;

// -------------------------------------------------------------- secrets
struct Secrets {
    std::vector<Bytes> val; std::vector<std::string> name; std::unordered_map<uint64_t, std::vector<std::pair<int, int>>> idx; std::vector<uint8_t> bloom = std::vector<uint8_t>(65536);
    void clear() { val.clear(); name.clear(); idx.clear(); std::fill(bloom.begin(), bloom.end(), 0); }
    void add1(const std::string &n, const Bytes &b) {
        int id = val.size(); bool any = false;
        for (size_t j = 0; j + 16 <= b.size(); ++j) {
            std::set<uint8_t> d(b.begin() + j, b.begin() + j + 16); if (d.size() < 9) continue;
            uint64_t k; memcpy(&k, &b[j], 8); idx[k].push_back({id, (int)j}); bloom[b[j] | b[j + 1] << 8] = 1; any = true;
        }
        if (any) { val.push_back(b); name.push_back(n); }
    }
    void add(const std::string &n, const Bytes &b) {
        if (b.size() < 16) return;
        for (auto &v : val) if (v == b) return;
        add1(n, b);
        Bytes w = b; for (size_t i = 0; i + 4 <= w.size(); i += 4) { std::swap(w[i], w[i + 3]); std::swap(w[i + 1], w[i + 2]); } add1(n + " (words)", w);
        Bytes x = b, y = b; for (auto &c : x) c ^= 0x36; for (auto &c : y) c ^= 0x5c; add1(n + " (hmac key)", x); add1(n + " (hmac key)", y);
    }
    // the curve and lattice code does not clear its stack
    static bool asym(const std::string &n) { for (const char *w : {"static", "ephemeral", "hybrid", "dh private", "sign private", "entropy", "shared", "random"}) if (n.find(w) != std::string::npos && n.find("dh-shared") == std::string::npos) return true; return false; }
    // the name of a secret of which 16 bytes occur in the block
    const char *find(const uint8_t *p, size_t n, size_t *at = 0, bool whole = false) {
        for (size_t j = 0; j + 16 <= n; ++j) {
            if (!bloom[p[j] | p[j + 1] << 8]) continue;
            uint64_t k; memcpy(&k, p + j, 8); auto it = idx.find(k); if (it == idx.end()) continue;
            for (auto &e : it->second) {
                const Bytes &v = val[e.first]; size_t o = e.second, l = 0;
                if (!whole) { if (memcmp(p + j, &v[o], 16)) continue; }
                else { // on the stack: five eighths of it in one piece
                    if (asym(name[e.first])) continue;
                    while (o + l < v.size() && j + l < n && p[j + l] == v[o + l]) ++l;
                    if (l * 8 < v.size() * 5 || l < 16) continue;
                }
                if (at) *at = j; return name[e.first].c_str();
            }
        }
        return 0;
    }
};
static Secrets sec;
// -------------------------------------------------------------- heap
static bool watching; static int depth; static std::string where = "?";
struct Freed { Bytes b; std::string where; };
static std::vector<Freed> freed;      // non-zero blocks, kept until their secrets are known
static uint64_t nfreed, nbytes;
extern "C" {
void __real_free(void *); void *__real_malloc(size_t); void *__real_realloc(void *, size_t);
static void gone(void *p) {
    if (!watching || !p || depth) return;
    ++depth; size_t n = malloc_usable_size(p); ++nfreed; nbytes += n; const uint8_t *b = (const uint8_t *)p; size_t z = 0; while (z < n && !b[z]) ++z;
    if (z < n) freed.push_back({Bytes(b, b + n), where}); --depth;
}
void __wrap_free(void *p) { gone(p); __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!watching || !p || depth) return __real_realloc(p, n);
    size_t o = malloc_usable_size(p); void *q = __real_malloc(n); if (!q) return 0; memset(q, 0, malloc_usable_size(q)); memcpy(q, p, o < n ? o : n); gone(p); __real_free(p); return q;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, 0, malloc_usable_size(p)); return p; }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) memset(p, 0, malloc_usable_size(p)); return p; }
// ------------------------------------------------------ entropy: secret too
static bool seeded; static Rng er; static int efd = -1;
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
int __wrap_open(const char *n, int f, ...) { if (seeded && n && !strcmp(n, "/dev/urandom")) { return efd = __real_open("/dev/null", O_RDONLY); } return __real_open(n, f, 0600); }
int __wrap_open64(const char *n, int f, ...) { return __wrap_open(n, f); }
int __wrap_close(int fd) { if (fd == efd) efd = -1; return __real_close(fd); }
static void entropy(void *p, size_t n) { ++depth; Bytes b = er.bytes(n); memcpy(p, b.data(), n); sec.add("entropy", b); --depth; }
ssize_t __wrap_read(int fd, void *p, size_t n) { if (fd != efd || fd < 0) return __real_read(fd, p, n); entropy(p, n); return n; }
}
#if SODIUM
#include <sodium.h>
static const char *sname() { return "vh"; }
static uint32_t s32() { return er.next(); }
static void sbuf(void *const p, const size_t n) { entropy(p, n); }
static randombytes_implementation impl = {sname, s32, 0, 0, sbuf, 0};
#endif
// -------------------------------------------------------------- the stack
static const size_t STK = 512 * 1024; static uint8_t *stk; static ucontext_t mainc, subc; static std::function<void()> *job;
static void tramp() { (*job)(); }
struct StackHit { std::string where; Bytes b; }; static std::vector<StackHit> stacks; static size_t deepest;
// Runs a library call on a stack of its own, and keeps what it leaves there.
static void call(const char *w, std::function<void()> f) {
    if (!stk) { stk = (uint8_t *)aligned_alloc(4096, STK); memset(stk, 0, STK); }
    getcontext(&subc); subc.uc_stack.ss_sp = stk; subc.uc_stack.ss_size = STK; subc.uc_link = &mainc; job = &f; makecontext(&subc, tramp, 0);
    where = w; watching = true; swapcontext(&mainc, &subc); watching = false;
    size_t i = 0; while (i < STK && !*(uint64_t *)(stk + i)) i += 8;
    if (STK - i > deepest) deepest = STK - i;
    stacks.push_back({w, Bytes(stk + i, stk + STK)}); memset(stk + i, 0, STK - i); ev("calls_whose_stack_was_searched");
}
#define CALL(w, x) call(w, [&] { x; })
// Stack residue is judged for the reference code and hashes whose compression function keeps no copy of its input there.
static bool stack_judged = true;
static void judge() {
    if (!stack_judged || SODIUM) stacks.clear(); else ev("stacks_judged", stacks.size());
    stack_judged = true;
    for (auto &f : freed) { size_t at; if (const char *n = sec.find(f.b.data(), f.b.size(), &at)) viol(fmt("freed:%s:%s", f.where.c_str(), n), "%s frees a block of %zu bytes that still holds 16 bytes of a secret (%s) at %zu", f.where.c_str(), f.b.size(), n, at); }
    ev("blocks_freed", nfreed); ev("bytes_freed", nbytes); ev("blocks_freed_not_zero", freed.size()); nfreed = nbytes = 0;
    for (auto &s : stacks) { size_t at; const char *n = sec.find(s.b.data(), s.b.size(), &at, true); if (!n) continue;
        viol(fmt("stack:%s:%s", s.where.c_str(), n), "%s leaves a secret (%s) on the stack, %zu bytes deep", s.where.c_str(), n, s.b.size() - at); }
    ev("secrets_searched_for", sec.val.size()); freed.clear(); stacks.clear(); sec.clear();
}
// -------------------------------------------------------------- handshakes
static void hs_case(uint64_t i, Rng &r) {
    Proto p = hsd::sweep(i, r, false, 15); Setup s = make_setup(p, r); describe(p.name()); stack_judged = p.h != oracle::BLAKE2b; bool fixed = r.chance(2, 3); er = Rng(r.next()); seeded = true;
    sec.add("psk", s.psk); sec.add("initiator static", s.is); sec.add("responder static", s.rs); if (fixed) { sec.add("initiator ephemeral", s.ie); sec.add("responder ephemeral", s.re); sec.add("hybrid", s.iff); sec.add("hybrid", s.rf); }
    Party mi, mr; model_setup(mi, s, true); model_setup(mr, s, false); mi.start(); mr.start();
    Lib *a = new Lib, *b = new Lib; int e = 0; int stop = r.chance(1, 3) ? r.below(p.messages()) : -1, tamper = r.chance(1, 4) ? r.below(p.messages()) : -1;
    CALL("handshakestate_new", e = a->create(p, true, r.chance(1, 2)) | b->create(p, false, false)); if (e) die("create %x", e);
    e = a->configure(s, r, fixed); e |= b->configure(s, r, fixed); if (e) die("configure %x", e);
    CALL("handshakestate_start", e = noise_handshakestate_start(a->hs) | noise_handshakestate_start(b->hs)); if (e) die("start %x", e);
    std::string sg = p.name(); bool failed = false;
    for (int n = 0; n < p.messages() && n != stop; ++n) {
        Lib *w = n % 2 ? b : a, *q = n % 2 ? a : b; Party &mw = n % 2 ? mr : mi, &mq = n % 2 ? mi : mr; Bytes pay = r.bytes(r.below(100)), m(8192), out(8192); NoiseBuffer mb, pb; size_t ml = 0;
        noise_buffer_set_output(mb, m.data(), m.size()); noise_buffer_set_input(pb, pay.data(), pay.size()); if (pay.empty()) pb.data = m.data();
        CALL("write_message", e = noise_handshakestate_write_message(w->hs, &mb, &pb)); if (e) { viol("write", "%s write_message gave %d", p.name().c_str(), e); failed = true; break; } ml = mb.size; m.resize(ml);
        if (fixed) { mw.write(pay); Bytes x; mq.read(m, x); }
        if (n == tamper) { m[r.below(ml)] ^= 1 << r.below(8); if (r.chance(1, 4)) m.resize(r.below(ml)); if (m.empty()) m.push_back(0); }
        noise_buffer_set_input(mb, m.data(), m.size()); noise_buffer_set_output(pb, out.data(), out.size());
        CALL("read_message", e = noise_handshakestate_read_message(q->hs, &mb, &pb)); for (auto b : m) if (b) { viol("message-not-cleared", "%s read_message of %zu bytes leaves decrypted parts in the message buffer (result %x)", p.name().c_str(), m.size(), e); break; } ev("messages_cleared"); if (e) { ev("failed_handshakes"); failed = true; break; } sg += fmt(" %zu", pay.size());
    }
    bool fin = !failed && a->action() == NOISE_ACTION_SPLIT && b->action() == NOISE_ACTION_SPLIT;
    if (!fin && r.chance(1, 2) && !fixed) { int f1; CALL("fallback", f1 = noise_handshakestate_fallback(b->hs)); if (!f1) { ev("fallbacks"); CALL("start", noise_handshakestate_start(b->hs)); } }
    NoiseCipherState *c[4] = {0}; int v = r.below(3);
    if (fin) { CALL("split", e = noise_handshakestate_split(a->hs, v == 1 ? 0 : &c[0], v == 2 ? 0 : &c[1])); CALL("split", e |= noise_handshakestate_split(b->hs, &c[2], &c[3])); if (e) viol("split", "split gave %d", e); ev("splits");
        if (fixed) { Bytes k1, k2; mi.sym.split(k1, k2); }
        if (r.chance(1, 2)) { CALL("handshakestate_free", noise_handshakestate_free(a->hs)); a->hs = 0; }
        for (int k = 0; k < 4; ++k) if (c[k]) { Bytes t = r.bytes(200 + 16); NoiseBuffer nb; noise_buffer_set_inout(nb, t.data(), r.below(200), t.size()); CALL("encrypt", e = noise_cipherstate_encrypt(c[k], &nb)); if (r.chance(1, 2)) { noise_cipherstate_set_nonce(c[k], 10); CALL("decrypt", noise_cipherstate_decrypt(c[k], &nb)); } CALL("cipherstate_free", noise_cipherstate_free(c[k])); } }
    if (a->hs) CALL("handshakestate_free", noise_handshakestate_free(a->hs)); CALL("handshakestate_free", noise_handshakestate_free(b->hs)); a->hs = b->hs = 0; delete a; delete b; seeded = false;
    ev("handshakes"); sig(sg + fmt(" %d %d %d %d", stop, tamper, fixed, v)); eval(p.messages()); judge();
}
// ------------------------------------------------- objects cleared or reused
// The bytes of an object after it was given secret A and cleared, and after secret B and cleared, are the same.
static Bytes snap(void *p) { return Bytes((uint8_t *)p, (uint8_t *)p + malloc_usable_size(p)); }
static void differ(const char *w, const Bytes &x, const Bytes &y) {
    size_t n = 0, first = 0; for (size_t i = 0; i < x.size() && i < y.size(); ++i) if (x[i] != y[i]) { if (!n) first = i; ++n; }
    if (n) viol(fmt("kept:%s", w), "%zu bytes of the object (from %zu) still depend on the secret it held: %s", n, first, w); ev("cleared_objects_compared"); eval();
}
static void clear_case(uint64_t i, Rng &r) {
    er = Rng(r.next()); seeded = true; int kind = i % 4; std::string sg;
    if (kind < 2) { // DH
        int ids[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE}; int id = ids[(i / 4) % 3], how = r.below(4), op = r.below(5), role = r.chance(1, 2) ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER; bool nh = id == NOISE_DH_NEWHOPE;
        NoiseDHState *d = 0, *o = 0, *al = 0; noise_dhstate_new_by_id(&d, id); noise_dhstate_new_by_id(&o, id); noise_dhstate_new_by_id(&al, id); sg = fmt("dh %d how=%d op=%d role=%d", id, how, op, role); describe(sg); Bytes s[2];
        for (int k = 0; k < 2; ++k) {
            int rl = role; noise_dhstate_set_role(d, rl); noise_dhstate_set_role(al, nh && rl == NOISE_ROLE_RESPONDER ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER); if (nh && rl == NOISE_ROLE_INITIATOR) noise_dhstate_set_role(al, NOISE_ROLE_RESPONDER);
            Bytes priv = r.bytes(noise_dhstate_get_private_key_length(d)), pub(noise_dhstate_get_public_key_length(d)); int e = 0; sec.add("dh private", priv);
            if (nh && rl == NOISE_ROLE_RESPONDER) { noise_dhstate_generate_keypair(al); }
            if (how == 0) CALL("set_keypair_private", e = noise_dhstate_set_keypair_private(d, priv.data(), priv.size()));
            else if (how == 1 && !nh) { pub = pub_of(id == NOISE_DH_CURVE25519 ? D25519 : D448, priv); CALL("set_keypair", e = noise_dhstate_set_keypair(d, priv.data(), priv.size(), pub.data(), pub.size())); }
            else if (how == 2) { noise_dhstate_set_role(o, rl); noise_dhstate_set_keypair_private(o, priv.data(), priv.size()); CALL("dhstate_copy", e = noise_dhstate_copy(d, o)); CALL("clear_key", noise_dhstate_clear_key(o)); }
            else { int err; if (nh && rl == NOISE_ROLE_RESPONDER) { CALL("generate_dependent", err = noise_dhstate_generate_dependent_keypair(d, al)); } else CALL("generate_keypair", err = noise_dhstate_generate_keypair(d)); e = err; }
            if (e) viol("dh-set", "%s gave %d", sg.c_str(), e);
            Bytes sh(noise_dhstate_get_shared_key_length(d));
            if (nh && rl == NOISE_ROLE_INITIATOR) { noise_dhstate_generate_dependent_keypair(al, d); } else if (!nh) noise_dhstate_generate_keypair(al);
            if (r.chance(2, 3) && noise_dhstate_has_keypair(d)) { CALL("calculate", e = noise_dhstate_calculate(d, al, sh.data(), sh.size())); if (!e) sec.add("shared", sh); }
            if (op == 0) CALL("clear_key", e = noise_dhstate_clear_key(d));
            else if (op == 1) { CALL("set_public_key", e = noise_dhstate_clear_key(d)); Bytes f(noise_dhstate_get_public_key_length(d), 9); noise_dhstate_set_public_key(d, f.data(), f.size()); }
            else if (op == 2) { Bytes f(noise_dhstate_get_public_key_length(d), 9); CALL("set_public_key", e = noise_dhstate_set_public_key(d, f.data(), f.size())); }
            else if (op == 3) { CALL("set_null_public_key", e = noise_dhstate_set_null_public_key(d)); if (e) { ev("null_not_applicable"); noise_dhstate_clear_key(d); } }
            else { noise_dhstate_set_role(o, rl); Bytes f(noise_dhstate_get_public_key_length(o), 9); noise_dhstate_set_public_key(o, f.data(), f.size()); CALL("dhstate_copy", e = noise_dhstate_copy(d, o)); if (e) viol("dh-copy", "%s: copy gave %d", sg.c_str(), e); }
            if (noise_dhstate_has_keypair(d)) viol("has-key", "has_keypair after clearing");
            s[k] = snap(d);
            // public keys and what depends on them do not matter: the object holds a fixed one or none
        }
        differ(fmt("dh %d %s", id, op == 0 ? "clear_key" : op == 1 ? "clear_key+set_public_key" : op == 2 ? "set_public_key" : op == 3 ? "set_null_public_key" : "copy").c_str(), s[0], s[1]);
        for (auto x : {&d, &o, &al}) CALL("dhstate_free", noise_dhstate_free(*x));
    } else if (kind == 2) { // signing
        NoiseSignState *d = 0, *o = 0; noise_signstate_new_by_id(&d, NOISE_SIGN_ED25519); noise_signstate_new_by_id(&o, NOISE_SIGN_ED25519); int how = r.below(2), op = r.below(3); sg = fmt("sign how=%d op=%d", how, op); describe(sg); Bytes s[2];
        for (int k = 0; k < 2; ++k) { Bytes priv = r.bytes(32), msg = r.bytes(r.below(200) + 1), sgn(64); sec.add("sign private", priv); if (how) CALL("sign set_keypair_private", noise_signstate_set_keypair_private(d, priv.data(), 32)); else CALL("sign generate", noise_signstate_generate_keypair(d));
            CALL("sign", noise_signstate_sign(d, msg.data(), msg.size(), sgn.data(), 64));
            if (op == 2) { Bytes pub = oracle::ed_public(Bytes(32, 7)); noise_signstate_set_public_key(o, pub.data(), 32); int e; CALL("signstate_copy", e = noise_signstate_copy(d, o)); if (e) viol("sign-copy", "copy gave %d", e); }
            else if (op) CALL("sign clear_key", noise_signstate_clear_key(d)); else { Bytes pub = oracle::ed_public(Bytes(32, 7)); CALL("sign set_public_key", noise_signstate_set_public_key(d, pub.data(), 32)); } s[k] = snap(d); }
        differ(op == 2 ? "sign copy" : op ? "sign clear_key" : "sign set_public_key", s[0], s[1]); CALL("signstate_free", noise_signstate_free(d)); noise_signstate_free(o);
    } else { // ciphers and hashes
        NoiseCipherState *c = 0; int id = r.chance(1, 2) ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM; noise_cipherstate_new_by_id(&c, id); sg = fmt("cipher %d", id); describe(sg); Bytes s[2], kx = r.bytes(32);
        for (int k = 0; k < 2; ++k) { Bytes key = r.bytes(32), m = r.bytes(300), m2 = Bytes(100, 3); sec.add("cipher key", key); CALL("init_key", noise_cipherstate_init_key(c, key.data(), 32)); NoiseBuffer b; noise_buffer_set_inout(b, m.data(), r.below(200), m.size()); CALL("encrypt", noise_cipherstate_encrypt(c, &b));
            CALL("init_key", noise_cipherstate_init_key(c, kx.data(), 32)); noise_buffer_set_inout(b, m2.data(), 50, m2.size()); CALL("encrypt", noise_cipherstate_encrypt(c, &b)); s[k] = snap(c); }
        differ(fmt("cipher %d new key", id).c_str(), s[0], s[1]); CALL("cipherstate_free", noise_cipherstate_free(c));
        NoiseHashState *h = 0; int hid = hash_id((Hash)r.below(4)); noise_hashstate_new_by_id(&h, hid); size_t hl = noise_hashstate_get_hash_length(h); Bytes key = r.bytes(hl), data = r.bytes(32 + r.below(60)), o1(hl), o2(hl); sec.add("hkdf key", key); stack_judged = hid != NOISE_HASH_BLAKE2b;
        CALL("hkdf", noise_hashstate_hkdf(h, key.data(), key.size(), data.data(), data.size(), o1.data(), hl, o2.data(), hl)); sec.add("hkdf output", o1); sec.add("hkdf output", o2);
        CALL("hashstate_free", noise_hashstate_free(h));
        NoiseRandState *st = 0; CALL("randstate_new", noise_randstate_new(&st)); Bytes rb(64 + r.below(300)); CALL("randstate_generate", noise_randstate_generate(st, rb.data(), rb.size())); sec.add("random output", rb); CALL("randstate_free", noise_randstate_free(st));
    }
    seeded = false; sig(sg + fmt(" %llu", (unsigned long long)i)); judge();
}
// -------------------------------------------------------------- key files
static void key_case(uint64_t i, Rng &r) {
    er = Rng(r.next()); seeded = true; Bytes priv = r.bytes(r.chance(1, 2) ? 32 : 56), pass = r.bytes(17 + r.below(100)); for (auto &x : pass) x = 0x21 + x % 0x5e; sec.add("private key", priv); sec.add("passphrase", pass); describe("key file");
    static const char *alg[] = {"ChaChaPoly_SHA256_PBKDF2", "AESGCM_BLAKE2b_PBKDF2", "ChaChaPoly_SHA512_PBKDF2", "AESGCM_BLAKE2s_PBKDF2"}; const char *an = alg[r.below(4)]; stack_judged = !strstr(an, "BLAKE2b"); Noise_PrivateKey *k = 0; Noise_PrivateKey_new(&k);
    CALL("PrivateKey_set", Noise_PrivateKey_set_id(k, "id", 2); Noise_PrivateKeyInfo *key = 0; Noise_PrivateKey_set_name(k, "n", 1); Noise_PrivateKey_set_role(k, "r", 1); { Noise_PrivateKey_add_keys(k, &key); Noise_PrivateKeyInfo_set_algorithm(key, "25519", 5); Noise_PrivateKeyInfo_set_key(key, priv.data(), priv.size()); });
    Bytes buf(4096); NoiseProtobuf pb; uint8_t *d = 0; size_t n = 0; int e; noise_protobuf_prepare_output(&pb, buf.data(), buf.size());
    CALL("save_private_key", e = noise_save_private_key_to_buffer(k, &pb, pass.data(), pass.size(), an)); if (e || noise_protobuf_finish_output(&pb, &d, &n)) viol("save", "saving gave %d", e);
    Bytes file(d, d + n); { const char *w = sec.find(buf.data(), buf.size()); if (w) viol("save-residue", "%s is left in the output buffer", w); }
    if (r.chance(1, 3)) { Bytes np = r.bytes(priv.size() + r.below(20)); sec.add("private key", np); CALL("PrivateKeyInfo_set_key", Noise_PrivateKeyInfo_set_key(Noise_PrivateKey_get_at_keys(k, 0), np.data(), np.size())); }
    if (r.chance(1, 3)) CALL("PrivateKey_clear_keys", Noise_PrivateKey_clear_keys(k));
    CALL("PrivateKey_free", Noise_PrivateKey_free(k)); k = 0;
    int mode = r.below(4); if (mode == 0) file[r.below(file.size())] ^= 1 << r.below(8); Bytes wrong = pass; if (mode == 1) wrong[0] ^= 1; Bytes fb = file; noise_protobuf_prepare_input(&pb, fb.data(), fb.size());
    CALL("load_private_key", e = noise_load_private_key_from_buffer(&k, &pb, wrong.data(), wrong.size())); if (mode > 1 && (e || !k)) viol("load", "loading gave %d", e);
    if (e) ev("loads_refused"); else ev("loads"); if (k) CALL("PrivateKey_free", Noise_PrivateKey_free(k));
    const char *w = sec.find(fb.data(), fb.size()); if (w && mode < 2) viol("load-residue", "%s is left in the input buffer after a refused load", w);
    seeded = false; sig(fmt("key %s %d %zu %llu", an, mode, pass.size(), (unsigned long long)i)); eval(); judge();
}
int main(int argc, char **argv) {
#if SODIUM
    randombytes_set_implementation(&impl);
#endif
    noise_init();
    oracle::on_secret() = [](const char *n, const Bytes &b) { sec.add(n, b); };
    return run(argc, argv, [](uint64_t i, Rng &r) {
        switch (i % 8) { case 0: case 1: case 2: case 3: hs_case(i / 8 * 4 + i % 8, r); break; case 7: if (i % 16 == 7) { key_case(i / 16, r); break; } default: clear_case(i / 8 * 4 + i % 4, r); }
    }, 120);
}
