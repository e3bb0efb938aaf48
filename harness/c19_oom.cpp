// C19: every memory allocation of the library failing in turn, over scenarios with a recorded result.
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/bn.h>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
             EVP_CIPHER_CTX *__real_EVP_CIPHER_CTX_new(); void __real_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *); }
#define malloc(n) __real_malloc(n)       // the harness itself is not judged
#define free(p) __real_free(p)
#define EVP_CIPHER_CTX_new() __real_EVP_CIPHER_CTX_new()
#define EVP_CIPHER_CTX_free(p) __real_EVP_CIPHER_CTX_free(p)
#include "hsdrive.hpp"
#include "certdesc.hpp"
#include <noise/keys/loader.h>
using namespace vh; using namespace hsd;

// ---- the allocator the library sees
static bool on; static long nalloc, failat; static bool persist, hit; static std::unordered_map<void *, size_t> live_; static const char *where_ = "";
static bool deny() { if (!on) return false; ++nalloc; if (failat && (persist ? nalloc >= failat : nalloc == failat)) { hit = true; return true; } return false; }
extern "C" void *__wrap_malloc(size_t n) { if (deny()) return nullptr; void *p = __real_malloc(n); if (on && p) live_[p] = n; return p; }
extern "C" void *__wrap_calloc(size_t n, size_t m) { if (deny()) return nullptr; void *p = __real_calloc(n, m); if (on && p) live_[p] = n * m; return p; }
extern "C" void *__wrap_realloc(void *q, size_t n) { if (deny()) return nullptr; void *p = __real_realloc(q, n); if (p) { live_.erase(q); if (on) live_[p] = n; } return p; }
extern "C" void __wrap_free(void *p) { live_.erase(p); __real_free(p); }
extern "C" EVP_CIPHER_CTX *__wrap_EVP_CIPHER_CTX_new() { if (deny()) return nullptr; EVP_CIPHER_CTX *p = __real_EVP_CIPHER_CTX_new(); if (on && p) live_[p] = 1; return p; }
extern "C" void __wrap_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *p) { live_.erase(p); __real_EVP_CIPHER_CTX_free(p); }

// ---- running a scenario
enum Mode { CLEAN, RETRY, ABANDON, PERSIST };
static const char *MODE[] = {"clean", "retry", "abandon", "persist"};
struct Stop {};
static std::vector<int> clean_;                               // what each call gave with memory enough
struct Run {
    Mode mode; Rng r; Bytes log; std::string op; const char *faulted = nullptr; size_t ncall = 0;
    std::vector<std::function<void()>> cleanup;                 // run last to first, whatever happened
    Run(Mode m, const Rng &r_) : mode(m), r(r_) {}
    void put(const void *p, size_t n) { log.insert(log.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
    void put(int v) { put(&v, sizeof v); }
    void undo(std::function<void()> f) { cleanup.push_back(f); }
    // One library call that may run out of memory.  CHECK sees the result of a failure.
    int call(const char *name, const std::function<int()> &f, const std::function<void()> &failed = nullptr) {
        size_t id = ncall++;
        for (int attempt = 0;; ++attempt) {
            hit = false; on = true; int e = f(); on = false; bool was = hit; hit = false; eval();
            if (mode == CLEAN) clean_.push_back(e);
            if (!was) { put(e); return e; }
            faulted = name; ev("allocations_failed");
            if (!e) { ev("overcome"); put(e); return e; }    // the result must then be as it was
            if (e != NOISE_ERROR_NO_MEMORY && !(id < clean_.size() && clean_[id] == e)) viol(fmt("error:%s", name), "%s: out of memory reported as error %x (mode %s, allocation %ld)", name, e, MODE[mode], failat);
            else ev("no_memory_reported");
            if (failed) failed();
            if (mode == ABANDON || (mode == PERSIST && attempt >= 1)) throw Stop();
        }
    }
    // A call that returns an object, or null.
    template <class T> T *get(const char *name, const std::function<T *()> &f) { T *o = nullptr; call(name, [&] { o = f(); return o ? 0 : NOISE_ERROR_NO_MEMORY; }); return o; }
};
#define NULLED(p, name) [&] { if (p) { viol(fmt("object-on-error:%s", name), "%s: an object (or stale pointer) after running out of memory", name); p = nullptr; } }
typedef void (*Scenario)(Run &);
static void drive(const char *name, Scenario f, const Rng &seed, const std::string &what) {
    Bytes want; long total = 0; clean_.clear();
    for (int m = CLEAN; m <= PERSIST; ++m) for (long k = 1; m == CLEAN ? k == 1 : k <= total; ++k) {
        Run run((Mode)m, seed); nalloc = 0; failat = m == CLEAN ? 0 : k; persist = m == PERSIST; live_.clear(); bool stopped = false;
        describe(fmt("%s %s %s fail %ld of %ld", name, what.c_str(), MODE[m], failat, total)); budget(60);
        try { f(run); } catch (Stop &) { stopped = true; }
        for (size_t i = run.cleanup.size(); i-- > 0;) { failat = 0; on = true; run.cleanup[i](); on = false; }
        const char *at = run.faulted ? run.faulted : "-";
        if (!live_.empty()) viol(fmt("leak:%s:%s", name, at), "%s (%s): %zu blocks left (first has %zu bytes), mode %s, allocation %ld failing in %s", name, what.c_str(), live_.size(), live_.begin()->second, MODE[m], failat, at);
        ev("leak_checks"); ev(fmt("runs_%s", MODE[m]));
        if (m == CLEAN) { want = run.log; total = nalloc; ev("allocation_points", total); sig(fmt("%s %s %ld ", name, what.c_str(), total) + hex(want, 16)); if (stopped) die("clean run stopped"); }
        else if (!stopped && !run.faulted) viol(fmt("unreached:%s", name), "%s: allocation %ld was not reached in mode %s", name, k, MODE[m]);
        else if (!stopped && run.log != want) viol(fmt("result:%s:%s", name, at), "%s (%s): a different result after allocation %ld failed in %s (mode %s)", name, what.c_str(), k, at, MODE[m]);
        else if (!stopped) ev("same_result_after_fault");
    }
    sample(fmt("%s %s: %ld allocations failed in turn, 3 ways", name, what.c_str(), total));
}

// ---- scenarios
static std::string pname; static Proto proto; static bool byname;
static void sc_new(Run &x) {
    static const char *C[] = {"ChaChaPoly", "AESGCM"}, *H[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"}, *D[] = {"25519", "448", "NewHope"};
    uint8_t b[200] = {0};
    for (int i = 0; i < 2; ++i) {
        NoiseCipherState *c = 0; bool n = x.r.chance(1, 2);
        x.call("noise_cipherstate_new", [&] { c = (NoiseCipherState *)1; int e = n ? noise_cipherstate_new_by_name(&c, C[i]) : noise_cipherstate_new_by_id(&c, NOISE_ID('C', 1 + i)); return e; }, NULLED(c, "noise_cipherstate_new"));
        if (!c) throw Stop(); x.undo([c] { noise_cipherstate_free(c); });
        Bytes k = x.r.bytes(32), ad = x.r.bytes(x.r.below(40)), pt = x.r.bytes(x.r.below(100)); ad.reserve(1);
        x.call("noise_cipherstate_init_key", [&] { return noise_cipherstate_init_key(c, k.data(), 32); });
        for (int j = 0; j < 2; ++j) { Bytes t = pt; t.resize(pt.size() + 16); NoiseBuffer nb; noise_buffer_set_inout(nb, t.data(), pt.size(), t.size());
            x.call("noise_cipherstate_encrypt_with_ad", [&] { return noise_cipherstate_encrypt_with_ad(c, ad.data(), ad.size(), &nb); }); x.put(t.data(), t.size()); }
    }
    for (int i = 0; i < 4; ++i) {
        NoiseHashState *h = 0; bool n = x.r.chance(1, 2);
        x.call("noise_hashstate_new", [&] { h = (NoiseHashState *)1; return n ? noise_hashstate_new_by_name(&h, H[i]) : noise_hashstate_new_by_id(&h, NOISE_ID('H', 1 + i)); }, NULLED(h, "noise_hashstate_new"));
        if (!h) throw Stop(); x.undo([h] { noise_hashstate_free(h); });
        size_t hl = noise_hashstate_get_hash_length(h); Bytes d = x.r.bytes(x.r.below(300)), k = x.r.bytes(1 + x.r.below(200)); d.reserve(1);    // an empty vector has no address, and a null one is refused
        x.call("noise_hashstate_hash_one", [&] { return noise_hashstate_hash_one(h, d.data(), d.size(), b, hl); }); x.put(b, hl);
        x.call("noise_hashstate_hkdf", [&] { return noise_hashstate_hkdf(h, k.data(), k.size(), d.data(), d.size(), b, hl, b + hl, hl); }); x.put(b, 2 * hl);
        x.call("noise_hashstate_pbkdf2", [&] { return noise_hashstate_pbkdf2(h, k.data(), k.size(), d.data(), d.size(), 3, b, 100); }); x.put(b, 100);
    }
    for (int i = 0; i < 3; ++i) {
        NoiseDHState *p = 0, *q = 0; bool n = x.r.chance(1, 2); int id = dh_id(i == 0 ? D25519 : i == 1 ? D448 : DNewHope);
        for (int j = 0; j < 2; ++j) { NoiseDHState *&d = j ? q : p;
            x.call("noise_dhstate_new", [&] { d = (NoiseDHState *)1; return n ? noise_dhstate_new_by_name(&d, D[i]) : noise_dhstate_new_by_id(&d, id); }, NULLED(d, "noise_dhstate_new"));
            if (!d) throw Stop(); NoiseDHState *v = d; x.undo([v] { noise_dhstate_free(v); }); }
        noise_dhstate_set_role(p, NOISE_ROLE_INITIATOR); noise_dhstate_set_role(q, NOISE_ROLE_RESPONDER);
        Bytes k = x.r.bytes(noise_dhstate_get_private_key_length(p));
        x.call("noise_dhstate_set_keypair_private", [&] { return noise_dhstate_set_keypair_private(p, k.data(), k.size()); });
        x.call("noise_dhstate_generate_dependent_keypair", [&] { return noise_dhstate_generate_dependent_keypair(q, p); });
        Bytes s(noise_dhstate_get_shared_key_length(p)), t(s.size());
        x.call("noise_dhstate_calculate", [&] { return noise_dhstate_calculate(p, q, s.data(), s.size()); });
        x.call("noise_dhstate_calculate", [&] { return noise_dhstate_calculate(q, p, t.data(), t.size()); });
        if (s != t) viol("agreement", "keys set up around a memory failure do not agree");
        char fp[200]; x.call("noise_dhstate_format_fingerprint", [&] { return noise_dhstate_format_fingerprint(p, NOISE_FINGERPRINT_BASIC, fp, sizeof fp); }); x.put(fp, strlen(fp));
    }
    NoiseSignState *g = 0; bool n = x.r.chance(1, 2);
    x.call("noise_signstate_new", [&] { g = (NoiseSignState *)1; return n ? noise_signstate_new_by_name(&g, "Ed25519") : noise_signstate_new_by_id(&g, NOISE_SIGN_ED25519); }, NULLED(g, "noise_signstate_new"));
    if (!g) throw Stop(); x.undo([g] { noise_signstate_free(g); });
    Bytes k = x.r.bytes(32), m = x.r.bytes(x.r.below(200)); uint8_t sg[64] = {0}; m.reserve(1);
    x.call("noise_signstate_set_keypair_private", [&] { return noise_signstate_set_keypair_private(g, k.data(), 32); });
    x.call("noise_signstate_sign", [&] { return noise_signstate_sign(g, m.data(), m.size(), sg, 64); }); x.put(sg, 64);
    x.call("noise_signstate_verify", [&] { return noise_signstate_verify(g, m.data(), m.size(), sg, 64); });
    char fp[200]; x.call("noise_signstate_format_fingerprint", [&] { return noise_signstate_format_fingerprint(g, NOISE_FINGERPRINT_FULL, fp, sizeof fp); }); x.put(fp, strlen(fp));
    NoiseRandState *rs = 0;
    x.call("noise_randstate_new", [&] { rs = (NoiseRandState *)1; return noise_randstate_new(&rs); }, NULLED(rs, "noise_randstate_new"));
    if (!rs) throw Stop(); x.undo([rs] { noise_randstate_free(rs); });
    x.call("noise_randstate_generate", [&] { return noise_randstate_generate(rs, b, 100); });
    x.call("noise_randstate_pad", [&] { return noise_randstate_pad(rs, b, 10, 90, NOISE_PADDING_RANDOM); });
    x.call("noise_randstate_generate_simple", [&] { return noise_randstate_generate_simple(b, 50); });
    NoiseSymmetricState *s = 0; Proto pr = proto; bool bn = byname;
    x.call("noise_symmetricstate_new", [&] { s = (NoiseSymmetricState *)1; NoiseProtocolId id = proto_id(pr); return bn ? noise_symmetricstate_new_by_name(&s, pr.name().c_str()) : noise_symmetricstate_new_by_id(&s, &id); }, NULLED(s, "noise_symmetricstate_new"));
    if (!s) throw Stop(); x.undo([s] { noise_symmetricstate_free(s); });
    Bytes in = x.r.bytes(32);
    x.call("noise_symmetricstate_mix_key", [&] { return noise_symmetricstate_mix_key(s, in.data(), 32); });
    x.call("noise_symmetricstate_mix_hash", [&] { return noise_symmetricstate_mix_hash(s, in.data(), 32); });
    NoiseCipherState *c1 = 0, *c2 = 0; int v = x.r.below(3);
    x.call("noise_symmetricstate_split", [&] { c1 = c2 = (NoiseCipherState *)1; return noise_symmetricstate_split(s, v == 1 ? 0 : &c1, v == 2 ? 0 : &c2); },
           [&] { if ((v != 1 && c1) || (v != 2 && c2)) viol("object-on-error:split", "an object after split ran out of memory"); });
    if (v != 1) x.undo([c1] { noise_cipherstate_free(c1); });
    if (v != 2) x.undo([c2] { noise_cipherstate_free(c2); });
    for (int i = 0; i < 2; ++i) if (v != 1 + i) { Bytes out; x.put(cs_encrypt(i ? c2 : c1, in, out)); x.put(out.data(), out.size()); }
}
// A handshake of two ends with fixed keys, or one that falls back.
static Setup setup_; static bool fallback_;
static NoiseHandshakeState *mk(Run &x, bool ini) {
    NoiseHandshakeState *h = 0; int role = ini ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER; const Setup &s = setup_;
    x.call("noise_handshakestate_new", [&] { h = (NoiseHandshakeState *)1; NoiseProtocolId id = proto_id(s.p); return byname ? noise_handshakestate_new_by_name(&h, s.p.name().c_str(), role) : noise_handshakestate_new_by_id(&h, &id, role); }, NULLED(h, "noise_handshakestate_new"));
    if (!h) throw Stop(); x.undo([h] { noise_handshakestate_free(h); });
    for (int i = 0; i < 2; ++i) { size_t n = i ? s.prologue.size() : x.r.below(50); Bytes p = i ? s.prologue : x.r.bytes(n); p.push_back(0); x.call("noise_handshakestate_set_prologue", [&] { return noise_handshakestate_set_prologue(h, p.data(), n); }); }
    if (s.p.psk) x.call("noise_handshakestate_set_pre_shared_key", [&] { return noise_handshakestate_set_pre_shared_key(h, s.psk.data(), 32); });
    if (s.p.owns_static(ini)) { const Bytes &k = ini ? s.is : s.rs; x.call("noise_dhstate_set_keypair_private", [&] { return noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(h), k.data(), k.size()); }); }
    if (s.p.knows_remote_static_first(ini)) { Bytes k = pub_of(s.p.dh, ini ? s.rs : s.is); x.call("noise_dhstate_set_public_key", [&] { return noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(h), k.data(), k.size()); }); }
    const Bytes &e = ini ? s.ie : s.re, &f = ini ? s.iff : s.rf;
    on = false; bool one = false; { NoiseHandshakeState *t = 0; NoiseProtocolId id = proto_id(s.p); if (!noise_handshakestate_new_by_id(&t, &id, role)) { one = noise_handshakestate_get_fixed_ephemeral_dh(t) != 0; noise_handshakestate_free(t); } }
    if (one) { NoiseDHState *d = x.get<NoiseDHState>("noise_handshakestate_get_fixed_ephemeral_dh", [&] { return noise_handshakestate_get_fixed_ephemeral_dh(h); });
        x.call("noise_dhstate_set_keypair_private", [&] { return noise_dhstate_set_keypair_private(d, e.data(), e.size()); }); }
    if (one && !f.empty()) { NoiseDHState *d = x.get<NoiseDHState>("noise_handshakestate_get_fixed_hybrid_dh", [&] { return noise_handshakestate_get_fixed_hybrid_dh(h); });
        x.call("noise_dhstate_set_keypair_private", [&] { return noise_dhstate_set_keypair_private(d, f.data(), f.size()); }); }
    x.call("noise_handshakestate_start", [&] { return noise_handshakestate_start(h); });
    return h;
}
static void sc_handshake(Run &x) {
    NoiseHandshakeState *a = mk(x, true), *b = mk(x, false); Bytes m(65535), p(65535); bool fell = false;
    for (int i = 0; i < 20; ++i) {
        NoiseHandshakeState *w = noise_handshakestate_get_action(a) == NOISE_ACTION_WRITE_MESSAGE ? a : noise_handshakestate_get_action(b) == NOISE_ACTION_WRITE_MESSAGE ? b : 0;
        if (!w) break;
        if (fallback_ && w == b && !fell) {
            fell = true; x.call("noise_handshakestate_fallback", [&] { return noise_handshakestate_fallback(a); }); x.call("noise_handshakestate_fallback", [&] { return noise_handshakestate_fallback(b); });
            const Bytes &k = setup_.rs; if (noise_handshakestate_needs_local_keypair(b)) x.call("noise_dhstate_set_keypair_private", [&] { return noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(b), k.data(), k.size()); });
            x.call("noise_handshakestate_start", [&] { return noise_handshakestate_start(a); }); x.call("noise_handshakestate_start", [&] { return noise_handshakestate_start(b); });
            continue;
        }
        Bytes pl = x.r.bytes(x.r.below(60)); NoiseBuffer mb, pb; noise_buffer_set_output(mb, m.data(), m.size()); noise_buffer_set_input(pb, pl.data(), pl.size());
        if (x.call("noise_handshakestate_write_message", [&] { return noise_handshakestate_write_message(w, &mb, &pb); })) break;
        x.put(mb.data, mb.size); NoiseHandshakeState *o = w == a ? b : a; Bytes msg(mb.data, mb.data + mb.size);
        noise_buffer_set_input(mb, msg.data(), msg.size()); noise_buffer_set_output(pb, p.data(), p.size());
        if (x.call("noise_handshakestate_read_message", [&] { return noise_handshakestate_read_message(o, &mb, &pb); })) break;
        x.put(pb.data, pb.size);
    }
    for (auto h : {a, b}) {
        x.put(noise_handshakestate_get_action(h)); if (noise_handshakestate_get_action(h) != NOISE_ACTION_SPLIT) continue;
        int v = x.r.below(4); NoiseCipherState *s = 0, *r = 0;
        x.call("noise_handshakestate_split", [&] { return noise_handshakestate_split(h, v == 1 ? 0 : &s, v == 2 ? 0 : &r); },
               [&] { if (s || r) viol("object-on-error:split", "an object after split ran out of memory"); if (noise_handshakestate_get_action(h) != NOISE_ACTION_SPLIT) viol("split-action", "action %x after split ran out of memory", noise_handshakestate_get_action(h)); });
        if (s) x.undo([s] { noise_cipherstate_free(s); });
        if (r) x.undo([r] { noise_cipherstate_free(r); });
        Bytes t = x.r.bytes(20), out; if (s) { cs_encrypt(s, t, out); x.put(out.data(), out.size()); } if (r) { cs_encrypt(r, t, out); x.put(out.data(), out.size()); }
        Bytes hh(64); noise_handshakestate_get_handshake_hash(h, hh.data(), 64); x.put(hh.data(), 64);
        if (noise_handshakestate_get_action(h) != NOISE_ACTION_COMPLETE) viol("split-action", "action %x after split", noise_handshakestate_get_action(h));
        if (!x.faulted) ev("splits");
    }
}
// Building, writing, reading and freeing objects.
static void step(Run &x, void *o, pb::Obj &m, int depth) {
    size_t i = x.r.below(m.d->f.size()); const pb::FieldD &f = m.d->f[i]; pb::Val &v = m.v[i];
    if (f.kind == pb::MSG) {
        void *s = 0; pb::POb sm(new pb::Obj(f.sub));
        if (f.multi() && x.r.chance(1, 3)) {
            x.call("new", [&] { s = (void *)1; return f.sub->mk(&s); }, NULLED(s, "new"));
            int steps = x.r.below(4); bool given = false; struct Back { const pb::FieldD &f; void *s; bool &g; ~Back() { if (!g) { on = true; long k = failat; failat = 0; f.sub->fr(s); failat = k; on = false; } } } back{f, s, given};
            while (steps-- && depth < 3) step(x, s, *sm, depth + 1);
            size_t at = x.r.below(v.ms.size() + 2);
            x.call("insert", [&] { return f.insm(o, at, s); }); given = true;
            v.ms.insert(v.ms.begin() + std::min(at, v.ms.size()), sm);
        } else {
            if (f.multi()) { x.call("add", [&] { s = (void *)1; return f.addm(o, &s); }, NULLED(s, "add")); v.ms.push_back(sm); }
            else { x.call("get_new", [&] { s = (void *)1; return f.newm(o, &s); }, NULLED(s, "get_new")); v.m = sm; }
            if (s) { int steps = x.r.below(4); while (steps-- && depth < 3) step(x, s, *sm, depth + 1); }
        }
    } else if (f.kind == pb::STRING || f.kind == pb::BYTES) {
        Bytes b = pb::rndbytes(x.r, f.kind); if (f.kind == pb::STRING) for (auto &c : b) c = 'a' + c % 26;
        x.call("set", [&] { return f.sets(o, b.empty() ? (const uint8_t *)"" : b.data(), b.size()); }, [&] { const void *p = f.gets(o); size_t n = f.getsz(o);
            bool old = v.has && p && n == v.b.size() && (!n || !memcmp(p, v.b.data(), n)); if (!old && (p || n || f.has(o))) viol("half-set", "%s: neither the old value nor none after running out of memory", f.name); });
        v.b = b; v.has = true;
    } else { uint64_t n = x.r.below(1u << 31); x.call("set", [&] { return f.set(o, n); }); v.n = pb::norm(f.kind, n); }
}
static const pb::MsgD *desc; static int steps_;
static void sc_object(Run &x) {
    void *o = 0; pb::Obj m(desc);
    x.call("new", [&] { o = (void *)1; return desc->mk(&o); }, NULLED(o, "new")); x.undo([o] { desc->fr(o); });
    for (int i = 0; i < steps_; ++i) step(x, o, m, 0);
    if (x.mode != CLEAN) pb::same(o, m, "after running out of memory");
    Bytes w, got; bool bad = false; pb::enc(w, m, bad); Bytes buf(w.size() + 5); uint8_t *d = 0; size_t n = 0; NoiseProtobuf b; noise_protobuf_prepare_output(&b, buf.data(), buf.size());
    x.call("write", [&] { return desc->wr(&b, 0, o); }); noise_protobuf_finish_output(&b, &d, &n); x.put(d, n); if (Bytes(d, d + n) != w) viol("write", "%s written differently", desc->name);
    void *c = 0; pb::Exact in(w);
    x.call("read", [&] { c = (void *)1; noise_protobuf_prepare_input(&b, in.p, in.n); return desc->rd(&b, 0, &c); }, NULLED(c, "read")); if (!c) throw Stop();
    x.undo([c] { desc->fr(c); }); pb::same(c, m, "read after running out of memory"); ev("objects_compared");
}
// Files and buffers of certificates, chains and keys.
static const char *dir() { static char d[64]; if (!*d) { snprintf(d, sizeof d, "/tmp/c19-XXXXXX"); if (!mkdtemp(d)) die("mkdtemp"); atexit([] { unlink((std::string(d) + "/f").c_str()); rmdir(d); }); } return d; }
static void build(Rng &r, void *o, int n) { pb::Obj m(desc); while (n--) pb::mutate(r, o, m, 0); }
template <class T> static void sc_loader(Run &x, int (*mkf)(T **), int (*fr)(T *), int (*sv)(const T *, const char *), int (*svb)(const T *, NoiseProtobuf *), int (*ld)(T **, const char *), int (*ldb)(T **, NoiseProtobuf *)) {
    T *o = 0; if (mkf(&o)) die("new"); build(x.r, o, steps_); std::string f = std::string(dir()) + "/f";
    struct G { T *o; int (*fr)(T *); ~G() { fr(o); } } g{o, fr};
    Bytes buf(70000); NoiseProtobuf b; uint8_t *d = 0; size_t n = 0; noise_protobuf_prepare_output(&b, buf.data(), buf.size());
    int e = x.call("save_to_buffer", [&] { noise_protobuf_prepare_output(&b, buf.data(), buf.size()); return svb(o, &b); }); if (e) return;
    noise_protobuf_finish_output(&b, &d, &n); if (n > 65535) return; x.put(d, n); Bytes w(d, d + n);
    unlink(f.c_str());
    x.call("save_to_file", [&] { return sv(o, f.c_str()); }, [&] { if (!access(f.c_str(), F_OK)) viol("file-on-error", "a file although memory ran out"); });
    T *c = 0;
    e = x.call("load_from_file", [&] { c = 0; return ld(&c, f.c_str()); }, NULLED(c, "load_from_file"));
    for (int i = 0; i < 2; ++i) {
        if (!e) { T *k = c; x.undo([k, fr] { fr(k); }); Bytes again(70000); noise_protobuf_prepare_output(&b, again.data(), again.size()); x.put(svb(c, &b)); noise_protobuf_finish_output(&b, &d, &n); x.put(d, n); ev("loaded"); }
        if (i) break;
        pb::Exact in(w); e = x.call("load_from_buffer", [&] { c = (T *)1; noise_protobuf_prepare_input(&b, in.p, in.n); return ldb(&c, &b); }, NULLED(c, "load_from_buffer"));
    }
    // the other kind from the same data
    pb::Exact in(w);
    if (desc == &Noise_Certificate_d) { Noise_CertificateChain *h = 0; e = x.call("load_chain_from_certificate", [&] { h = (Noise_CertificateChain *)1; noise_protobuf_prepare_input(&b, in.p, in.n); return noise_load_certificate_chain_from_buffer(&h, &b); }, NULLED(h, "load_chain")); if (!e) { x.undo([h] { Noise_CertificateChain_free(h); }); x.put(Noise_CertificateChain_count_certs(h)); ev("converted"); } }
    else { Noise_Certificate *h = 0; e = x.call("load_certificate_from_chain", [&] { h = (Noise_Certificate *)1; noise_protobuf_prepare_input(&b, in.p, in.n); return noise_load_certificate_from_buffer(&h, &b); }, NULLED(h, "load_certificate")); if (!e) { x.undo([h] { Noise_Certificate_free(h); }); ev("converted"); } }
}
static void sc_cert(Run &x) { desc = &Noise_Certificate_d; sc_loader<Noise_Certificate>(x, Noise_Certificate_new, Noise_Certificate_free, noise_save_certificate_to_file, noise_save_certificate_to_buffer, noise_load_certificate_from_file, noise_load_certificate_from_buffer); }
static void sc_chain(Run &x) { desc = &Noise_CertificateChain_d; sc_loader<Noise_CertificateChain>(x, Noise_CertificateChain_new, Noise_CertificateChain_free, noise_save_certificate_chain_to_file, noise_save_certificate_chain_to_buffer, noise_load_certificate_chain_from_file, noise_load_certificate_chain_from_buffer); }
static Bytes keyfile_; static const char *protect_;
static void sc_loadkey(Run &x) {          // an independently sealed key with few iterations
    Noise_PrivateKey *k = 0; pb::Exact in(keyfile_); NoiseProtobuf b;
    int e = x.call("load_private_key_from_buffer", [&] { k = (Noise_PrivateKey *)1; noise_protobuf_prepare_input(&b, in.p, in.n); return noise_load_private_key_from_buffer(&k, &b, "pw", 2); }, NULLED(k, "load_private_key"));
    if (!e) { x.undo([k] { Noise_PrivateKey_free(k); }); Bytes o(70000); uint8_t *d = 0; size_t n = 0; noise_protobuf_prepare_output(&b, o.data(), o.size()); x.put(Noise_PrivateKey_write(&b, 0, k)); noise_protobuf_finish_output(&b, &d, &n); x.put(d, n); ev("keys_loaded"); }
    std::string f = std::string(dir()) + "/f"; FILE *fp = fopen(f.c_str(), "wb"); fwrite(keyfile_.data(), 1, keyfile_.size(), fp); fclose(fp);
    e = x.call("load_private_key_from_file", [&] { k = 0; return noise_load_private_key_from_file(&k, f.c_str(), "pw", 2); }, NULLED(k, "load_private_key"));
    if (!e) { Noise_PrivateKey *q = k; x.undo([q] { Noise_PrivateKey_free(q); }); }
}
static void sc_savekey(Run &x) {
    Noise_PrivateKey *k = 0; if (Noise_PrivateKey_new(&k)) die("new"); struct G { Noise_PrivateKey *k; ~G() { Noise_PrivateKey_free(k); } } g{k}; Noise_PrivateKey_set_id(k, "abc", 3);
    Bytes o(2000); NoiseProtobuf b; bool file = x.r.chance(1, 3); std::string f = std::string(dir()) + "/f";
    if (file) { unlink(f.c_str()); x.call("save_private_key_to_file", [&] { return noise_save_private_key_to_file(k, f.c_str(), "pw", 2, protect_); }, [&] { if (!access(f.c_str(), F_OK)) viol("file-on-error", "a key file although memory ran out"); }); }
    else x.call("save_private_key_to_buffer", [&] { noise_protobuf_prepare_output(&b, o.data(), o.size()); return noise_save_private_key_to_buffer(k, &b, "pw", 2, protect_); });
    ev("keys_saved");
}
// The array and block helpers of generated code, and reading blocks.
static bool eq(const void *p, const Bytes &b) { return b.empty() || !memcmp(p, b.data(), b.size()); }
static void sc_arrays(Run &x) {
    struct Arr { void **a = 0; char **s = 0; void **b = 0; size_t *sl = 0, *bl = 0, ac = 0, am = 0, sc = 0, sm = 0, bc = 0, bm = 0; uint64_t *n() { return (uint64_t *)a; } };
    auto A = std::make_shared<Arr>(); x.undo([A] { noise_protobuf_free_memory(A->a, A->am * 8);
        for (size_t i = 0; i < A->sc; ++i) noise_protobuf_free_memory(A->s[i], A->sl[i]); for (size_t i = 0; i < A->bc; ++i) noise_protobuf_free_memory(A->b[i], A->bl[i]);
        for (void *p : {(void *)A->s, (void *)A->b, (void *)A->sl, (void *)A->bl}) noise_protobuf_free_memory(p, 0); });
    std::vector<uint64_t> mn; std::vector<Bytes> ms, mb; int n = 5 + x.r.below(40);
    auto cmp = [&] { bool ok = mn.size() == A->ac && ms.size() == A->sc && mb.size() == A->bc; for (size_t i = 0; ok && i < mn.size(); ++i) ok = A->n()[i] == mn[i];
        for (size_t i = 0; ok && i < ms.size(); ++i) ok = A->sl[i] == ms[i].size() && eq(A->s[i], ms[i]) && !A->s[i][ms[i].size()]; for (size_t i = 0; ok && i < mb.size(); ++i) ok = A->bl[i] == mb[i].size() && eq(A->b[i], mb[i]);
        if (!ok) viol("array-after-fault", "an array differs from what was added"); };
    while (n--) {
        uint64_t v = x.r.next(); Bytes t = x.r.bytes(x.r.below(20)); size_t at = x.r.below(mn.size() + 2);
        switch (x.r.below(4)) {
        case 0: x.call("add_to_array", [&] { return noise_protobuf_add_to_array((void **)&A->a, &A->ac, &A->am, &v, 8); }, cmp); mn.push_back(v); break;
        case 1: x.call("insert_into_array", [&] { return noise_protobuf_insert_into_array((void **)&A->a, &A->ac, &A->am, at, &v, 8); }, cmp); mn.insert(mn.begin() + std::min(at, mn.size()), v); break;
        case 2: x.call("add_to_string_array", [&] { return noise_protobuf_add_to_string_array(&A->s, &A->sl, &A->sc, &A->sm, t.empty() ? "" : (const char *)t.data(), t.size()); }, cmp); ms.push_back(t); break;
        default: x.call("add_to_bytes_array", [&] { return noise_protobuf_add_to_bytes_array(&A->b, &A->bl, &A->bc, &A->bm, t.empty() ? (const void *)"" : t.data(), t.size()); }, cmp); mb.push_back(t); break;
        }
        cmp();
    }
    for (int i = 0; i < 2; ++i) { size_t bn = x.r.below(30); Bytes blk(bn, 'q'), w; w.push_back(0x0a); pb::putv(w, bn); w.insert(w.end(), blk.begin(), blk.end()); pb::Exact in(w); NoiseProtobuf b; char *s = 0; void *d = 0; size_t z = 0;
        x.call("read_alloc", [&] { noise_protobuf_prepare_input(&b, in.p, in.n); s = (char *)1; d = (void *)1; z = 77; return i ? noise_protobuf_read_alloc_string(&b, 1, &s, 100, &z) : noise_protobuf_read_alloc_bytes(&b, 1, &d, 100, &z); },
               [&] { if (i ? s : d) viol("object-on-error:read_alloc", "a pointer after running out of memory"); if (z) viol("size-on-error", "a size of %zu after running out of memory", z); if (noise_protobuf_finish_input(&b) != NOISE_ERROR_NO_MEMORY) viol("sticky", "the error is not kept in the buffer"); });
        if (i) x.undo([s, z] { noise_protobuf_free_memory(s, z); }); else x.undo([d, z] { noise_protobuf_free_memory(d, z); });
        x.put(i ? (void *)s : d, z); if (z != bn) viol("block", "read %zu bytes of %zu", z, bn); }
}
static Bytes seal(Rng &r) {
    static const char *CN[] = {"ChaChaPoly", "AESGCM"}, *HN[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"}; int c = r.below(2), h = r.below(4);
    void *o = 0; const pb::MsgD *d = &Noise_PrivateKey_d; if (d->mk(&o)) die("new"); pb::Obj m(d); int n = r.below(12); while (n--) pb::mutate(r, o, m, 0); d->fr(o);
    Bytes plain, salt = r.bytes(16); bool bad = false; pb::enc(plain, m, bad); Bytes k(40);
    if (PKCS5_PBKDF2_HMAC("pw", 2, salt.data(), 16, 2, oracle::md((oracle::Hash)h), 40, k.data()) != 1) die("pbkdf2"); uint64_t nn = 0; for (int i = 0; i < 8; ++i) nn = nn << 8 | k[32 + i];
    pb::Obj e(&Noise_EncryptedPrivateKey_d); std::string alg = std::string(CN[c]) + "_" + HN[h] + "_PBKDF2"; e.v[0].n = 1; e.v[1].has = e.v[2].has = e.v[4].has = true; e.v[1].b = Bytes(alg.begin(), alg.end()); e.v[2].b = salt; e.v[3].n = 2;
    e.v[4].b = oracle::aead((oracle::Cipher)c, Bytes(k.begin(), k.begin() + 32), nn, Bytes(), plain); Bytes w; pb::enc(w, e, bad); return w;
}
static void body(uint64_t i, Rng &r) {
    int kind = i % 16; byname = r.chance(1, 2);
    if (kind < 6) {
        proto = sweep(i / 2, r, false, 10); fallback_ = r.chance(1, 4);
        if (fallback_) { bool hfs = r.chance(1, 2); for (auto &p : patterns()) if (!strcmp(p.name, hfs ? "IKhfs" : "IK")) proto.pat = &p; if (proto.dh == DNewHope) proto.dh = D25519; proto.hybrid = hfs ? (r.chance(1, 6) ? DNewHope : D25519) : DNone; }
        if (proto.dh == D448 && r.chance(2, 3)) proto.dh = D25519;
        setup_ = make_setup(proto, r); drive(fallback_ ? "fallback" : "handshake", sc_handshake, r, proto.name());
    } else if (kind < 8) { proto = sweep(i / 2, r, false, 10); drive("objects", sc_new, r, proto.name()); }
    else if (kind < 11) { desc = all[r.below(all.size())]; steps_ = 1 + r.below(14); drive("certificate-object", sc_object, r, fmt("%s %d", desc->name, steps_)); }
    else if (kind < 12) drive("arrays", sc_arrays, r, "");
    else if (kind < 14) { bool c = r.chance(1, 2); steps_ = r.below(12); drive(c ? "certificate" : "chain", c ? sc_cert : sc_chain, r, fmt("%d", steps_)); }
    else if (kind < 15 || !r.chance(1, 6)) { keyfile_ = seal(r); drive("load-key", sc_loadkey, r, ""); }
    else { static const char *P[] = {"ChaChaPoly_BLAKE2s_PBKDF2", "AESGCM_SHA256_PBKDF2", "ChaChaPoly_SHA512_PBKDF2", "AESGCM_BLAKE2b_PBKDF2"}; protect_ = P[r.below(4)]; drive("save-key", sc_savekey, r, protect_); }
}
int main(int argc, char **argv) { describe_all(); return run(argc, argv, body, 120); }
