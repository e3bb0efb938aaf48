// C07: scripts of arbitrary calls on pools of every kind of object. The interpreter keeps to the callers' side of the
// contract (live objects, true buffer sizes) and to nothing else. Three drivers share it:
//   libFuzzer (-DFUZZ) and random scripts under ASan/UBSan; random scripts under Valgrind, where every output is asked
//   to be defined and every decision made on undefined memory is an error.
#include "vh.hpp"
#include <noise/protocol.h>
#include <noise/keys.h>
#include <valgrind/memcheck.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#define ACCOUNT 1
#endif
#endif
static thread_local long long live_; static thread_local bool inside;
#ifdef ACCOUNT
static void on_malloc(const volatile void *, size_t n) { if (inside) live_ += n; }
static void on_free(const volatile void *p) { if (inside && p) live_ -= __sanitizer_get_allocated_size(p); }
#endif
#if defined(THREADS)                                       // C21: many interpreters at once, watched by ThreadSanitizer
static void EV(const char *, uint64_t = 1) {}
static void bad(const std::string &) {}
#elif defined(FUZZ)
static std::map<std::string, uint64_t> cnt;
static void EV(const char *n, uint64_t k = 1) { bool i = inside; inside = false; cnt[n] += k; inside = i; }
[[noreturn]] static void bad(const std::string &m) { fprintf(stderr, "ORACLE: %s\n", m.c_str()); fflush(stderr); abort(); }
#else
static void EV(const char *n, uint64_t k = 1) { bool i = inside; inside = false; vh::ev(n, k); inside = i; }
static void bad(const std::string &m) { bool i = inside; inside = false; vh::viol(m.substr(0, m.find(':')), "%s", m.c_str()); inside = i; }
#endif
static thread_local const char *doing = "";
static void defined(const void *p, size_t n, const char *what) { if (!n) return; EV("outputs_checked"); EV("output_bytes", n); if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) bad(std::string("undefined-output-") + what + ": " + what + " holds bytes that nobody wrote (" + doing + ")"); }
static int rc(int e) { EV("calls"); if (e && !(e >= NOISE_ERROR_NO_MEMORY && e <= NOISE_ID('E', 64))) bad(std::string("strange-error: ") + doing + " gave " + std::to_string(e)); if (!e) EV("calls_successful"); return e; }
struct In {
    const uint8_t *p; size_t n, at = 0;
    bool more() const { return at < n; }
    unsigned u8() { return at < n ? p[at++] : 0; }
    unsigned u16() { unsigned a = u8(); return a << 8 | u8(); }
    bool one(unsigned k) { return u8() % k == 0; }
    size_t size() {
        static const size_t T[] = {0, 1, 2, 8, 15, 16, 17, 20, 28, 31, 32, 33, 47, 48, 49, 55, 56, 57, 63, 64, 65, 80, 96, 100, 112, 127, 128, 129, 200, 255, 256, 257};
        static const size_t B[] = {1000, 1792, 1823, 1824, 1825, 2047, 2048, 2049, 4096, 65518, 65519, 65520, 65534, 65535, 65536, 70000};
        unsigned k = u8(); return k < 192 ? T[k % 32] : k < 250 ? k : B[u8() % 16];
    }
};
// exact heap blocks; fresh ones stay undefined
struct Buf {
    uint8_t *p; size_t n;
    explicit Buf(size_t k) : p((uint8_t *)malloc(k)), n(k) {}
    Buf(In &in, size_t k) : Buf(k) { unsigned s = in.u8(); uint64_t x = s * 0x9E3779B97F4A7C15ull + 1; for (size_t i = 0; i < n; ++i) { if (s < 8) p[i] = 0; else if (s < 12) p[i] = 255; else { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = x; } } }
    Buf(const Buf &) = delete;
    ~Buf() { free(p); }
};
struct World {
    NoiseHandshakeState *hs[4]; NoiseCipherState *c[4]; NoiseHashState *h[3]; NoiseDHState *d[4]; NoiseSignState *g[3]; NoiseRandState *r[2]; NoiseSymmetricState *s[3]; Bytes slot[4]; In &in;
    World(In &i) : in(i) { memset(hs, 0, sizeof hs); memset(c, 0, sizeof c); memset(h, 0, sizeof h); memset(d, 0, sizeof d); memset(g, 0, sizeof g); memset(r, 0, sizeof r); memset(s, 0, sizeof s); }
    ~World() {
        for (auto x : hs) if (x) noise_handshakestate_free(x); for (auto x : c) if (x) noise_cipherstate_free(x); for (auto x : h) if (x) noise_hashstate_free(x); for (auto x : d) if (x) noise_dhstate_free(x);
        for (auto x : g) if (x) noise_signstate_free(x); for (auto x : r) if (x) noise_randstate_free(x); for (auto x : s) if (x) noise_symmetricstate_free(x);
    }
    void keep(const uint8_t *p, size_t n) { Bytes &b = slot[in.u8() % 4]; b.assign(p, p + n); }
    // What goes into an input: something made before, perhaps damaged, or new bytes.
    Bytes stuff() {
        unsigned k = in.u8(); if (k & 1) { Buf b(in, in.size()); return Bytes(b.p, b.p + b.n); }
        Bytes b = slot[k >> 1 & 3]; if (k & 8) { switch (k >> 4 & 7) { case 0: if (b.size()) b[in.u16() % b.size()] ^= 1 << (in.u8() & 7); break; case 1: b.resize(b.size() * (in.u8() + 1) / 256); break; case 2: b.resize(b.size() + in.u8(), in.u8()); break; case 3: b.resize(std::min<size_t>(b.size(), 32)); for (auto &x : b) x = 0; break; case 4: for (size_t i = 0; i < b.size() && i < 32; ++i) b[i] = 0; break; case 5: b.insert(b.end(), b.begin(), b.end()); break; default: if (b.size()) b.pop_back(); } }
        return b;
    }
    std::string name() {
        static const char *P[] = {"N", "X", "K", "NN", "NK", "NX", "XN", "XK", "XX", "KN", "KK", "KX", "IN", "IK", "IX", "XXfallback", "Xnoidh", "NXnoidh", "XXnoidh", "KXnoidh", "IKnoidh", "IXnoidh", "NNhfs", "NKhfs", "NXhfs", "XNhfs", "XKhfs", "XXhfs", "KNhfs", "KKhfs", "KXhfs", "INhfs", "IKhfs", "IXhfs", "XXfallback+hfs", "XXnoidh+hfs", "NXnoidh+hfs", "IXnoidh+hfs", "N?", ""};
        static const char *D[] = {"25519", "448", "25519", "NewHope"}, *F[] = {"+25519", "+448", "+NewHope", "+NewHope"}, *C[] = {"ChaChaPoly", "AESGCM"}, *H[] = {"SHA256", "SHA512", "BLAKE2s", "BLAKE2b"};
        unsigned a = in.u8(), b = in.u8(); std::string s = b & 1 ? "NoisePSK_" : "Noise_", pat = P[a % 40]; s += pat + "_" + D[(b >> 1 & 7) < 4 ? 0 : (b >> 1 & 3)]; if (pat.find("hfs") != std::string::npos) s += F[b >> 4 & 3]; s += std::string("_") + C[b >> 6 & 1] + "_" + H[(a / 40 + b / 128) % 4];
        if (a >= 240 && s.size()) { unsigned k = in.u16() % s.size(); if (a & 1) s.erase(k); else s[k] = in.u8(); }
        return s;
    }
    bool newhs(int i, const std::string &n, int role) {
        NoiseHandshakeState *x = (NoiseHandshakeState *)1; int e; doing = "new handshake";
        if (in.one(3)) { NoiseProtocolId id; if (noise_protocol_name_to_id(&id, n.data(), n.size())) memset(&id, 0, sizeof id); if (in.one(16)) ((uint8_t *)&id)[in.u8() % sizeof id] = in.u8(); e = noise_handshakestate_new_by_id(&x, &id, role); }
        else { char *z = strdup(n.c_str()); e = noise_handshakestate_new_by_name(&x, z, role); free(z); }
        if (rc(e)) { if (x) bad("object-after-error: a handshake that could not be made"); return false; }
        if (hs[i]) noise_handshakestate_free(hs[i]); hs[i] = x; EV("handshakes"); return true;
    }
    NoiseDHState *dh() {
        unsigned k = in.u8(); if (k < 160) return d[k % 4]; NoiseHandshakeState *x = hs[k % 4]; if (!x) return 0;
        switch (k >> 2 & 3) { case 0: return noise_handshakestate_get_local_keypair_dh(x); case 1: return noise_handshakestate_get_remote_public_key_dh(x); case 2: return noise_handshakestate_get_fixed_ephemeral_dh(x); default: return noise_handshakestate_get_fixed_hybrid_dh(x); }
    }
    void fill(NoiseDHState *k) { if (!k) return; size_t n = noise_dhstate_get_private_key_length(k); if (in.one(2)) rc(noise_dhstate_generate_keypair(k)); else { Buf b(in, n); rc(noise_dhstate_set_keypair_private(k, b.p, n)); } }
    void configure(int i, int peer) {
        NoiseHandshakeState *x = hs[i]; if (!x) return; doing = "configure"; if (in.one(2)) { Bytes p = slot[0]; Buf b(p.size()); if (p.size()) memcpy(b.p, p.data(), p.size()); rc(noise_handshakestate_set_prologue(x, b.p, b.n)); }
        if (noise_handshakestate_needs_pre_shared_key(x)) { Buf b(32); memset(b.p, 7, 32); rc(noise_handshakestate_set_pre_shared_key(x, b.p, 32)); }
        if (noise_handshakestate_needs_local_keypair(x)) fill(noise_handshakestate_get_local_keypair_dh(x));
        NoiseDHState *f = in.one(4) ? noise_handshakestate_get_fixed_ephemeral_dh(x) : 0; if (f) fill(f); f = in.one(4) ? noise_handshakestate_get_fixed_hybrid_dh(x) : 0; if (f) fill(f);
        if (noise_handshakestate_needs_remote_public_key(x)) { NoiseDHState *a = noise_handshakestate_get_remote_public_key_dh(x), *b = hs[peer] ? noise_handshakestate_get_local_keypair_dh(hs[peer]) : 0; size_t n = noise_dhstate_get_public_key_length(a); Buf k(n); if (!b || noise_dhstate_get_public_key_length(b) != n || noise_dhstate_get_public_key(b, k.p, n)) memset(k.p, 9, n); rc(noise_dhstate_set_public_key(a, k.p, n)); }
    }
    bool write(int i, Bytes &out) {
        NoiseHandshakeState *x = hs[i]; if (!x) return false; doing = "write message"; size_t pl = in.one(8) ? in.size() : in.u8() % 40; Buf p(in, pl), m(in.one(4) ? in.size() : 6000 + pl); NoiseBuffer mb, pb; noise_buffer_set_output(mb, m.p, m.n); noise_buffer_set_input(pb, p.p, p.n);
        int e = rc(noise_handshakestate_write_message(x, &mb, in.one(5) ? 0 : &pb)); defined(&mb.size, sizeof mb.size, "message-size"); if (mb.size > m.n) { bad("message-size: larger than the buffer"); return false; } if (e) return false;
        defined(m.p, mb.size, "message"); out.assign(m.p, m.p + mb.size); EV("messages_written"); return true;
    }
    bool read(int i, const Bytes &b) {
        NoiseHandshakeState *x = hs[i]; if (!x) return false; doing = "read message"; Buf m(b.size()), p(in.one(4) ? in.size() : 300 + b.size()); if (b.size()) memcpy(m.p, b.data(), b.size()); NoiseBuffer mb, pb; noise_buffer_set_input(mb, m.p, m.n); noise_buffer_set_output(pb, p.p, p.n);
        bool want = !in.one(5); int e = rc(noise_handshakestate_read_message(x, &mb, want ? &pb : 0)); defined(&pb.size, sizeof pb.size, "payload-size"); if (pb.size > p.n) { bad("payload-size: larger than the buffer"); return false; } if (e) { EV("messages_refused"); return false; }
        if (want) { defined(p.p, pb.size, "payload"); keep(p.p, pb.size); } EV("messages_read"); return true;
    }
    void split(int i) {
        if (!hs[i]) return; doing = "split"; unsigned k = in.u8(); NoiseCipherState *a = 0, *b = 0; int e = rc(noise_handshakestate_split(hs[i], k % 5 == 1 ? 0 : &a, k % 5 == 2 ? 0 : &b)); if (e) return; EV("splits");
        for (int j = 0; j < 2; ++j) { NoiseCipherState *n = j ? b : a; if (!n) continue; int q = (k + j + i) % 4; if (c[q]) noise_cipherstate_free(c[q]); c[q] = n; }
    }
    void crypt(int q) {
        NoiseCipherState *x = c[q]; bool enc = in.one(2); doing = enc ? "encrypt" : "decrypt"; Bytes b = stuff(); size_t room = b.size() + (in.one(3) ? in.u8() % 20 : 16); Buf m(room); if (b.size()) memcpy(m.p, b.data(), b.size()); NoiseBuffer mb; noise_buffer_set_inout(mb, m.p, b.size(), room); Buf ad(in, in.one(2) ? in.size() : 0); bool na = in.one(3); int e;
        if (enc) e = na ? noise_cipherstate_encrypt(x, &mb) : noise_cipherstate_encrypt_with_ad(x, ad.p, ad.n, &mb); else e = na ? noise_cipherstate_decrypt(x, &mb) : noise_cipherstate_decrypt_with_ad(x, ad.p, ad.n, &mb);
        rc(e); if (mb.size > room) { bad("crypt-size: larger than the buffer"); return; } if (!e) { defined(m.p, mb.size, enc ? "ciphertext" : "plaintext"); keep(m.p, mb.size); EV(enc ? "encryptions" : "decryptions"); }
    }
    void dhop() {
        NoiseDHState *a = dh(); unsigned k = in.u8(); doing = "dhstate"; size_t pn = a ? noise_dhstate_get_public_key_length(a) : 32, kn = a ? noise_dhstate_get_private_key_length(a) : 32, sn = a ? noise_dhstate_get_shared_key_length(a) : 32; if (in.one(10)) pn = in.size(); if (in.one(10)) kn = in.size(); if (in.one(10)) sn = in.size(); int e;
        switch (k % 16) {
        case 0: case 1: { static const int T[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE, NOISE_DH_CURVE25519, 0, NOISE_DH_CURVE25519 + 7}; NoiseDHState *x = (NoiseDHState *)1; e = rc(noise_dhstate_new_by_id(&x, T[in.u8() % 6])); int q = in.u8() % 4; if (e) { if (x) bad("object-after-error: dh"); } else { if (d[q]) noise_dhstate_free(d[q]); d[q] = x; } break; }
        case 2: rc(noise_dhstate_generate_keypair(a)); break;
        case 3: rc(noise_dhstate_generate_dependent_keypair(a, dh())); break;
        case 4: { Buf x(in, kn); rc(noise_dhstate_set_keypair_private(a, x.p, kn)); break; }
        case 5: { Buf x(in, kn), y(in, pn); rc(noise_dhstate_set_keypair(a, x.p, kn, y.p, pn)); break; }
        case 6: { Buf x(kn), y(pn); if (!rc(noise_dhstate_get_keypair(a, x.p, kn, y.p, pn))) { defined(x.p, kn, "private-key"); defined(y.p, pn, "public-key"); } break; }
        case 7: case 8: { Bytes b = stuff(); b.resize(pn); Buf y(pn); if (pn) memcpy(y.p, b.data(), pn); rc(noise_dhstate_set_public_key(a, y.p, pn)); break; }
        case 9: { Buf y(pn); if (!rc(noise_dhstate_get_public_key(a, y.p, pn))) { defined(y.p, pn, "public-key"); keep(y.p, pn); } break; }
        case 10: case 11: { Buf y(sn); NoiseDHState *b = dh(); if (!rc(noise_dhstate_calculate(a, b, y.p, sn))) { defined(y.p, sn, "shared-key"); EV("shared_keys"); } break; }
        case 12: { NoiseDHState *b = dh(); if (a != b) rc(noise_dhstate_copy(a, b)); break; }
        case 13: if (in.one(3)) rc(noise_dhstate_clear_key(a)); else rc(noise_dhstate_set_null_public_key(a)); break;
        case 14: { bool mine = !a; for (auto x : d) mine |= x == a; if (mine) rc(noise_dhstate_set_role(a, in.one(8) ? in.u8() : in.one(2) ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER)); break; }
        default: { size_t n = in.size(); Buf f(n); if (!rc(noise_dhstate_format_fingerprint(a, in.one(2) ? NOISE_FINGERPRINT_BASIC : in.one(8) ? (int)in.u16() : NOISE_FINGERPRINT_FULL, (char *)f.p, n))) defined(f.p, strnlen((char *)f.p, n) + 1, "fingerprint"); }
        }
    }
    void signop() {
        NoiseSignState *a = g[in.u8() % 3]; unsigned k = in.u8(); doing = "signstate"; size_t pn = in.one(10) ? in.size() : 32, kn = in.one(10) ? in.size() : 32, sn = in.one(10) ? in.size() : 64; int e;
        switch (k % 10) {
        case 0: case 1: { NoiseSignState *x = (NoiseSignState *)1; e = rc(noise_signstate_new_by_id(&x, in.one(9) ? (int)in.u16() : NOISE_SIGN_ED25519)); int q = in.u8() % 3; if (e) { if (x) bad("object-after-error: sign"); } else { if (g[q]) noise_signstate_free(g[q]); g[q] = x; } break; }
        case 2: rc(noise_signstate_generate_keypair(a)); break;
        case 3: { Buf x(in, kn); rc(noise_signstate_set_keypair_private(a, x.p, kn)); break; }
        case 4: { Buf x(in, kn), y(in, pn); rc(noise_signstate_set_keypair(a, x.p, kn, y.p, pn)); break; }
        case 5: { Buf x(kn), y(pn); if (!rc(noise_signstate_get_keypair(a, x.p, kn, y.p, pn))) { defined(x.p, kn, "sign-private"); defined(y.p, pn, "sign-public"); keep(y.p, pn); } break; }
        case 6: { Bytes b = stuff(); b.resize(pn); Buf y(pn); if (pn) memcpy(y.p, b.data(), pn); rc(noise_signstate_set_public_key(a, y.p, pn)); break; }
        case 7: { Bytes m = stuff(); Buf x(m.size()), y(sn); if (m.size()) memcpy(x.p, m.data(), m.size()); if (!rc(noise_signstate_sign(a, x.p, x.n, y.p, sn))) { defined(y.p, sn, "signature"); keep(y.p, sn); EV("signatures"); } break; }
        case 8: { Bytes m = stuff(), t = stuff(); t.resize(sn); Buf x(m.size()), y(sn); if (m.size()) memcpy(x.p, m.data(), m.size()); if (sn) memcpy(y.p, t.data(), sn); rc(noise_signstate_verify(a, x.p, x.n, y.p, sn)); EV("verifications"); break; }
        default: { NoiseSignState *b = g[in.u8() % 3]; if (in.one(3)) rc(noise_signstate_clear_key(a)); else if (a != b) rc(noise_signstate_copy(a, b)); }
        }
    }
    void hashop() {
        int q = in.u8() % 3; NoiseHashState *a = h[q]; unsigned k = in.u8(); doing = "hashstate"; size_t hl = a && !in.one(8) ? noise_hashstate_get_hash_length(a) : in.size(); Bytes b1 = stuff(); Buf x(b1.size()); if (b1.size()) memcpy(x.p, b1.data(), b1.size());
        switch (k % 8) {
        case 0: case 1: { NoiseHashState *n = (NoiseHashState *)1; int e = rc(noise_hashstate_new_by_id(&n, in.one(9) ? (int)in.u16() : NOISE_ID('H', 1 + in.u8() % 4))); if (e) { if (n) bad("object-after-error: hash"); } else { if (a) noise_hashstate_free(a); h[q] = n; } break; }
        case 2: rc(noise_hashstate_reset(a)); break;
        case 3: rc(noise_hashstate_update(a, x.p, x.n)); break;
        case 4: { Buf o(hl); if (!rc(noise_hashstate_finalize(a, o.p, hl))) { defined(o.p, hl, "hash"); keep(o.p, hl); } break; }
        case 5: { Buf o(hl); if (!rc(noise_hashstate_hash_one(a, x.p, x.n, o.p, hl))) defined(o.p, hl, "hash"); Buf o2(hl); if (!rc(noise_hashstate_hash_two(a, x.p, x.n, o.p, in.one(2) ? 0 : x.n && hl ? 1 : 0, o2.p, hl))) defined(o2.p, hl, "hash"); break; }
        case 6: { size_t n1 = in.size(), n2 = in.size(); Buf o1(n1), o2(n2), y(in, in.size()); if (!rc(noise_hashstate_hkdf(a, y.p, y.n, x.p, x.n, o1.p, n1, o2.p, n2))) { defined(o1.p, n1, "hkdf"); defined(o2.p, n2, "hkdf"); } break; }
        default: { size_t n1 = in.u8() * 2; Buf o1(n1), y(in, in.u8()); if (!rc(noise_hashstate_pbkdf2(a, y.p, y.n, x.p, x.n, 1 + in.u8() % 3, o1.p, n1))) defined(o1.p, n1, "pbkdf2"); }
        }
    }
    void randop() {
        int q = in.u8() % 2; NoiseRandState *a = r[q]; doing = "randstate"; switch (in.u8() % 6) {
        case 0: { NoiseRandState *n = (NoiseRandState *)1; if (!rc(noise_randstate_new(&n))) { if (a) noise_randstate_free(a); r[q] = n; } break; }
        case 1: rc(noise_randstate_reseed(a)); break;
        case 2: case 3: { size_t n = in.size(); Buf b(n); if (!rc(noise_randstate_generate(a, b.p, n))) { defined(b.p, n, "random"); keep(b.p, n); } break; }
        case 4: { size_t n = in.size(); Buf b(n); if (!rc(noise_randstate_generate_simple(b.p, n))) defined(b.p, n, "random"); break; }
        default: { Bytes m = stuff(); size_t n = in.size(); if (n < m.size()) n = m.size() + in.u8(); Buf b(n); if (m.size()) memcpy(b.p, m.data(), m.size()); int mode = in.one(9) ? (int)in.u16() : in.one(2) ? NOISE_PADDING_ZERO : NOISE_PADDING_RANDOM; if (!rc(noise_randstate_pad(a, b.p, m.size(), n, mode))) { defined(b.p, n, "padding"); EV("paddings"); } }
        }
    }
    void symop() {
        int q = in.u8() % 3; NoiseSymmetricState *a = s[q]; doing = "symmetricstate"; Bytes b1 = stuff(); switch (in.u8() % 8) {
        case 0: case 1: { std::string n = name(); NoiseSymmetricState *x = (NoiseSymmetricState *)1; if (rc(noise_symmetricstate_new_by_name(&x, n.c_str()))) { if (x) bad("object-after-error: symmetric"); } else { if (a) noise_symmetricstate_free(a); s[q] = x; } break; }
        case 2: case 3: { Buf x(b1.size()); if (b1.size()) memcpy(x.p, b1.data(), b1.size()); rc(in.one(2) ? noise_symmetricstate_mix_key(a, x.p, x.n) : noise_symmetricstate_mix_hash(a, x.p, x.n)); break; }
        case 4: case 5: case 6: { size_t room = b1.size() + (in.one(3) ? in.u8() % 20 : 16); Buf m(room); if (b1.size()) memcpy(m.p, b1.data(), b1.size()); NoiseBuffer mb; noise_buffer_set_inout(mb, m.p, b1.size(), room); int e = rc(in.one(2) ? noise_symmetricstate_encrypt_and_hash(a, &mb) : noise_symmetricstate_decrypt_and_hash(a, &mb)); if (mb.size > room) { bad("symmetric-size: larger than the buffer"); break; } if (!e) { defined(m.p, mb.size, "symmetric-data"); keep(m.p, mb.size); } break; }
        default: { NoiseCipherState *x = 0, *y = 0; if (!rc(noise_symmetricstate_split(a, &x, in.one(4) ? 0 : &y))) { int t = in.u8() % 4; if (x) { if (c[t]) noise_cipherstate_free(c[t]); c[t] = x; } t = (t + 1) % 4; if (y) { if (c[t]) noise_cipherstate_free(c[t]); c[t] = y; } } }
        }
    }
    void misc() {
        doing = "utilities"; switch (in.u8() % 6) {
        case 0: { std::string n = name(); Buf b(n.size()); memcpy(b.p, n.data(), n.size()); NoiseProtocolId id; if (!rc(noise_protocol_name_to_id(&id, (char *)b.p, b.n))) { defined(&id, sizeof id, "protocol-id"); size_t z = in.one(2) ? in.size() : 100; Buf o(z); if (!rc(noise_protocol_id_to_name((char *)o.p, z, &id))) defined(o.p, strnlen((char *)o.p, z) + 1, "protocol-name"); } break; }
        case 1: { size_t n = in.size(); Buf o(n); int e = in.one(2) ? (int)NOISE_ID('E', in.u8() % 24) : (int)in.u16(); if (!noise_strerror(e, (char *)o.p, n) && n) defined(o.p, strnlen((char *)o.p, n) + 1, "strerror"); break; }
        case 2: { Bytes k = stuff(); Buf b(k.size()); if (k.size()) memcpy(b.p, k.data(), k.size()); size_t n = in.size(); Buf o(n); if (!rc(noise_format_fingerprint(in.one(2) ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL, (char *)o.p, n, b.p, b.n))) defined(o.p, strnlen((char *)o.p, n) + 1, "fingerprint"); break; }
        case 3: { Bytes k = stuff(); Buf b(k.size()), b2(k.size()); if (k.size()) { memcpy(b.p, k.data(), k.size()); memcpy(b2.p, k.data(), k.size()); if (in.one(2)) b2.p[in.u16() % k.size()] ^= 4; } int x = noise_is_equal(b.p, b2.p, b.n) * 2 + noise_is_zero(b.p, b.n); defined(&x, sizeof x, "comparison"); noise_clean(b.p, b.n); defined(b.p, b.n, "cleaned"); break; }
        default: {
            Bytes k = stuff(); if (in.one(2)) { static const uint8_t C[] = {8, 1, 18, 4, 'u', 's', 'e', 'r', 26, 16, 10, 5, 'a', 'l', 'i', 'c', 'e', 50, 7, 10, 5, '2', '5', '5', '1', '9'}; k.assign(C, C + sizeof C); if (in.one(2)) k[in.u8() % k.size()] = in.u8(); }
            Buf b(k.size()); if (k.size()) memcpy(b.p, k.data(), k.size()); NoiseProtobuf pb; noise_protobuf_prepare_input(&pb, b.p, b.n); doing = "certificate"; size_t n = in.one(3) ? in.size() : 8000; Buf o(n); NoiseProtobuf po; noise_protobuf_prepare_output(&po, o.p, n); uint8_t *dp; size_t sz; int e, w = -1;
            if (in.one(2)) { Noise_Certificate *x = 0; if (!(e = rc(noise_load_certificate_from_buffer(&x, &pb)))) { w = noise_save_certificate_to_buffer(x, &po); Noise_Certificate_free(x); } }
            else { Noise_CertificateChain *x = 0; if (!(e = rc(noise_load_certificate_chain_from_buffer(&x, &pb)))) { w = noise_save_certificate_chain_to_buffer(x, &po); Noise_CertificateChain_free(x); } }
            if (w == 0 && !noise_protobuf_finish_output(&po, &dp, &sz)) { defined(dp, sz, "certificate"); keep(dp, sz); EV("certificates"); } }
        }
    }
    // one object of every kind, most of them with keys
    void furnish() {
        doing = "furnish"; unsigned k = in.u8(); static const int D[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
        for (int i = 0; i < 4; ++i) { rc(noise_dhstate_new_by_id(&d[i], D[k >> (i & 2) & 3 ? (k >> (i & 2) & 3) - 1 : 0])); rc(noise_dhstate_set_role(d[i], i & 1 ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR)); if (k & 16) fill(d[i]); }
        for (int i = 0; i < 3; ++i) { rc(noise_hashstate_new_by_id(&h[i], NOISE_ID('H', 1 + (k >> i) % 4))); rc(noise_signstate_new_by_id(&g[i], NOISE_SIGN_ED25519)); if (i < 2 && k & 32) { Buf b(in, 32); rc(noise_signstate_set_keypair_private(g[i], b.p, 32)); } }
        for (int i = 0; i < 4; ++i) { rc(noise_cipherstate_new_by_id(&c[i], i & 1 ? NOISE_CIPHER_AESGCM : NOISE_CIPHER_CHACHAPOLY)); if (k & 64) { Buf b(in, 32); rc(noise_cipherstate_init_key(c[i], b.p, 32)); } }
        rc(noise_randstate_new(&r[0])); std::string n = name(); if (rc(noise_symmetricstate_new_by_name(&s[0], n.c_str()))) s[0] = 0;
    }
    void step() {
        unsigned k = in.u8(); int i = in.u8() % 4; Bytes b;
        if (k < 24) {                                        // a whole session: two ends, configured and started
            int a = i & 2; std::string n = name(); if (newhs(a, n, NOISE_ROLE_INITIATOR) && newhs(a + 1, n, NOISE_ROLE_RESPONDER)) { configure(a, a + 1); configure(a + 1, a); configure(a, a + 1); rc(noise_handshakestate_start(hs[a])); rc(noise_handshakestate_start(hs[a + 1])); }
        } else if (k < 84) {                                 // the next message of a session, perhaps damaged
            int a = i & 2; NoiseHandshakeState *x = hs[a], *y = hs[a + 1]; if (!x || !y) return; int w = noise_handshakestate_get_action(x) == NOISE_ACTION_WRITE_MESSAGE ? a : a + 1; if (write(w, b)) { slot[k & 3] = b; if (in.one(10) && b.size()) b[in.u16() % b.size()] ^= 1 << (in.u8() & 7); else if (in.one(20)) b.resize(b.size() / 2); read(w ^ 1, b); }
            if (noise_handshakestate_get_action(x) == NOISE_ACTION_SPLIT && noise_handshakestate_get_action(y) == NOISE_ACTION_SPLIT && in.one(2)) { split(a); split(a + 1); }
        } else if (k < 88) newhs(i, name(), in.one(2) ? NOISE_ROLE_INITIATOR : in.one(8) ? (int)in.u16() : NOISE_ROLE_RESPONDER);
        else if (k < 92) configure(i, i ^ 1);
        else if (k < 96) { if (hs[i]) { doing = "start"; rc(noise_handshakestate_start(hs[i])); } }
        else if (k < 104) { if (write(i, b)) slot[k & 3] = b; }
        else if (k < 112) read(i, stuff());
        else if (k < 116) split(i);
        else if (k < 122) { if (hs[i]) { doing = "fallback"; if (!rc(in.one(2) ? noise_handshakestate_fallback(hs[i]) : noise_handshakestate_fallback_to(hs[i], in.one(4) ? (int)in.u16() : in.one(2) ? NOISE_PATTERN_XX_FALLBACK : NOISE_PATTERN_XX_FALLBACK_HFS))) { EV("fallbacks"); configure(i, i ^ 1); rc(noise_handshakestate_start(hs[i])); } } }
        else if (k < 128) { if (hs[i]) { doing = "handshake hash"; size_t n = in.size(); Buf o(n); if (!rc(noise_handshakestate_get_handshake_hash(hs[i], o.p, n))) defined(o.p, n, "handshake-hash"); NoiseProtocolId id; if (!noise_handshakestate_get_protocol_id(hs[i], &id)) defined(&id, sizeof id, "protocol-id"); int v[] = {noise_handshakestate_get_action(hs[i]), noise_handshakestate_get_role(hs[i]), noise_handshakestate_has_pre_shared_key(hs[i]), noise_handshakestate_has_local_keypair(hs[i]), noise_handshakestate_has_remote_public_key(hs[i]), noise_handshakestate_needs_local_keypair(hs[i]), noise_handshakestate_needs_remote_public_key(hs[i])}; defined(v, sizeof v, "handshake-state"); } }
        else if (k < 132) { if (hs[i]) { doing = "prologue and psk"; Bytes p = stuff(); Buf x(p.size()); if (p.size()) memcpy(x.p, p.data(), p.size()); rc(noise_handshakestate_set_prologue(hs[i], x.p, x.n)); Buf y(in, in.one(3) ? in.size() : 32); rc(noise_handshakestate_set_pre_shared_key(hs[i], y.p, y.n)); } }
        else if (k < 136) { if (hs[i]) { noise_handshakestate_free(hs[i]); hs[i] = 0; } }
        else if (k < 160) crypt(i);
        else if (k < 168) { doing = "cipherstate"; NoiseCipherState *x = (NoiseCipherState *)1; if (!rc(noise_cipherstate_new_by_id(&x, in.one(9) ? (int)in.u16() : in.one(2) ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM))) { if (c[i]) noise_cipherstate_free(c[i]); c[i] = x; } else if (x) bad("object-after-error: cipher"); }
        else if (k < 176) { doing = "init_key"; Buf y(in, in.one(8) ? in.size() : 32); rc(noise_cipherstate_init_key(c[i], y.p, y.n)); }
        else if (k < 180) { doing = "set_nonce"; uint64_t n = in.u8(); if (in.one(2)) n = (uint64_t)0 - n; else if (in.one(3)) n <<= 32; rc(noise_cipherstate_set_nonce(c[i], n)); }
        else if (k < 205) dhop();
        else if (k < 219) hashop();
        else if (k < 230) signop();
        else if (k < 237) randop();
        else if (k < 248) symop();
        else misc();
    }
};
static void script(const uint8_t *p, size_t n, int limit) {
    for (int again = 0; again < 2; ++again) {               // what is allocated only once is no loss
    In in{p, n}; inside = true; live_ = 0;
    { World w(in); if (in.u8() & 1) w.furnish(); for (int i = 0; i < limit && in.more(); ++i) w.step(); }
    inside = false; if (!live_) break; if (again) bad("memory-lost: " + std::to_string(live_) + " bytes after everything was freed");
    }
    EV("scripts");
}
#if defined(THREADS)
#elif defined(FUZZ)
static void report() { fprintf(stderr, "\nEVENTS {"); bool first = true; for (auto &e : cnt) { fprintf(stderr, "%s\"%s\":%llu", first ? "" : ",", e.first.c_str(), (unsigned long long)e.second); first = false; } fprintf(stderr, ",\"inputs\":%llu}\n", (unsigned long long)cnt["scripts"]); }
extern "C" int LLVMFuzzerInitialize(int *, char ***) { noise_init(); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); atexit(report); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n) { script(p, n, 60); return 0; }
#else
static void body(uint64_t, vh::Rng &r) {
    Bytes b = r.bytes(r.range(60, 700)); if (r.chance(1, 2)) { b[0] &= 0xfe; b[1] = r.below(24); for (size_t k = 3; k < b.size(); k += r.range(1, 40)) if (r.chance(1, 2)) b[k] = 24 + r.below(60); } else { b[0] |= 1; for (size_t k = 3; k < b.size(); k += r.range(1, 20)) if (r.chance(1, 2)) b[k] = 136 + r.below(120); }
    uint8_t *x = (uint8_t *)malloc(b.size()); memcpy(x, b.data(), b.size()); script(x, b.size(), 60); free(x); 
    vh::eval(); vh::sig(vh::hex(b, 1000)); vh::sample("script " + vh::hex(b, 60));
}
int main(int argc, char **argv) {
#ifdef ACCOUNT
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    noise_init();
    return vh::run(argc, argv, body, 300);
}
#endif
