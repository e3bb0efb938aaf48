// CipherState and SymmetricState against the AEAD / Noise definition.
//   --mode aead    C04: every encryption and decryption is the specified AEAD, with the specified nonce and limits
//   --mode release C05: a failed decryption releases nothing and changes nothing
//   --mode nonce   C27: nonce discipline under an adversarial network and up to exhaustion
//   --mode sym     C04: SymmetricState operation sequences
#include "hsdrive.hpp"
#include "poly_edge.hpp"
using namespace model;
static const uint64_t MAXN = 0xFFFFFFFFFFFFFFFFULL;

struct Buf { // a NoiseBuffer over exact-size memory at a chosen alignment
    vh::Guard g; uint8_t *p; size_t cap; NoiseBuffer nb;
    Buf(size_t size, size_t max, size_t off) : g(max + off), p(g.p + off), cap(max) { noise_buffer_set_inout(nb, p, size, max); }
    void put(const Bytes &b) { if (!b.empty()) memcpy(p, b.data(), b.size()); }
    Bytes get(size_t n) { return Bytes(p, p + n); }
};
struct Exact { uint8_t *raw, *p; size_t n; Exact(const Bytes &b, size_t off) : n(b.size()) { raw = (uint8_t *)malloc(b.size() + off + 1 - (b.empty() ? 0 : 1)); p = raw + off; if (n) memcpy(p, b.data(), n); } ~Exact() { free(raw); } Exact(const Exact &) = delete; };

static int call_enc(NoiseCipherState *c, const Bytes *ad, NoiseBuffer *nb, vh::Rng &r) {
    if (!ad) return r.chance(1, 2) ? noise_cipherstate_encrypt(c, nb) : noise_cipherstate_encrypt_with_ad(c, 0, 0, nb);
    Exact e(*ad, r.below(16)); return noise_cipherstate_encrypt_with_ad(c, e.p, e.n, nb);
}
static int call_dec(NoiseCipherState *c, const Bytes *ad, NoiseBuffer *nb, vh::Rng &r) {
    if (!ad) return r.chance(1, 2) ? noise_cipherstate_decrypt(c, nb) : noise_cipherstate_decrypt_with_ad(c, 0, 0, nb);
    Exact e(*ad, r.below(16)); return noise_cipherstate_decrypt_with_ad(c, e.p, e.n, nb);
}
static size_t pick_len(vh::Rng &r, bool big) {
    static const size_t s[] = {0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025};
    if (big && r.chance(1, 20)) { static const size_t b[] = {65519, 65518, 65504, 65503, 32768, 16384, 4096, 4095, 4097}; return b[r.below(9)]; }
    if (r.chance(1, 3)) return r.below(300);
    return s[r.below(33)];
}
static Bytes pick_ad(vh::Rng &r) { return r.bytes(r.chance(1, 40) ? r.range(1000, 80000) : r.chance(1, 2) ? pick_len(r, false) : r.below(80)); }
static uint64_t pick_nonce(vh::Rng &r) {
    switch (r.below(6)) { case 0: return MAXN - r.below(5); case 1: return (1ULL << r.below(64)) - r.below(3); case 2: return r.next(); case 3: return 0xFFFFFFFFULL + r.below(4) - 1; default: return r.below(1000); }
}
static NoiseCipherState *make(Cipher c, vh::Rng &r) {
    NoiseCipherState *s = 0; int e = r.chance(1, 2) ? noise_cipherstate_new_by_id(&s, cipher_id(c)) : noise_cipherstate_new_by_name(&s, c == oracle::ChaChaPoly ? "ChaChaPoly" : "AESGCM");
    if (e) { vh::viol("create", "cannot create cipher: %x", e); return 0; } return s;
}
// the 16-byte blocks of WANT that can be read back at their place in GOT
static bool leaks(const Bytes &got, const Bytes &want) {
    for (size_t i = 0; i + 16 <= want.size() && i + 16 <= got.size(); ++i) if (!memcmp(&got[i], &want[i], 16)) return true;
    return false;
}
static Bytes keystream_xor(Cipher c, const Bytes &key, uint64_t n, const Bytes &ct) { // what decryption without authentication would give
    Bytes z(ct.size(), 0), ks = oracle::aead(c, key, n, Bytes(), z); for (size_t i = 0; i < ct.size(); ++i) z[i] = ct[i] ^ ks[i]; return z;
}
struct Shadow { Bytes key; bool has = false; uint64_t n = 0; };

static void mode_aead(vh::Rng &r, const char *mode) {
    bool rel = !strcmp(mode, "release"), aead = !strcmp(mode, "aead"), nonce = !strcmp(mode, "nonce");
    Cipher c = r.chance(1, 2) ? oracle::ChaChaPoly : oracle::AESGCM; const char *cn = c == oracle::ChaChaPoly ? "ChaChaPoly" : "AESGCM";
    NoiseCipherState *s = make(c, r); if (!s) return;
    Shadow m; std::string trace = cn;
    if (aead && (noise_cipherstate_get_key_length(s) != 32 || noise_cipherstate_get_mac_length(s) != 16 || noise_cipherstate_get_cipher_id(s) != cipher_id(c) || noise_cipherstate_get_max_key_length() < 32 || noise_cipherstate_get_max_mac_length() < 16)) vh::viol("lengths", "%s key/mac length or id wrong", cn);
    int ops = vh::ctx().thorough ? 60 : 30;
    for (int k = 0; k < ops; ++k) {
        int op = r.below(12); vh::describe(trace.substr(trace.size() > 300 ? trace.size() - 300 : 0));
        if (!m.has && r.chance(2, 3)) op = 0;
        if (!!noise_cipherstate_has_key(s) != m.has && aead) vh::viol("has-key", "%s has_key says %d", cn, !m.has);
        if (op == 0 && (k < 4 || r.chance(1, 5) || !m.has)) {
            if (r.chance(1, 6)) {
                Bytes bad = r.bytes(r.chance(1, 2) ? 31 : r.chance(1, 2) ? 33 : r.below(64)); if (bad.size() == 32) bad.push_back(1); Exact e(bad, 0);
                int err = noise_cipherstate_init_key(s, e.p, bad.size()); trace += " badkey";
                if (aead && err != NOISE_ERROR_INVALID_LENGTH) vh::viol("init-key-length", "%s key of %zu bytes: %x", cn, bad.size(), err);
            } else {
                Bytes key = r.bytes(32); if (r.chance(1, 30)) std::fill(key.begin(), key.end(), r.chance(1, 2) ? 0 : 255); Exact e(key, r.below(8));
                int err = noise_cipherstate_init_key(s, e.p, 32); trace += " key";
                if (err) { vh::viol("init-key", "%s init_key %x", cn, err); break; }
                m.key = key; m.has = true; m.n = 0;
            }
        } else if (op == 1) {
            uint64_t want = r.chance(1, 2) ? pick_nonce(r) : m.n + r.below(3); int err = noise_cipherstate_set_nonce(s, want); trace += " setn";
            int exp = !m.has ? NOISE_ERROR_INVALID_STATE : want < m.n ? NOISE_ERROR_INVALID_NONCE : 0;
            if ((aead || nonce) && err != exp) vh::viol("set-nonce", "%s set_nonce(%llx) with n=%llx gives %x, expected %x", cn, (unsigned long long)want, (unsigned long long)m.n, err, exp);
            if (!exp) m.n = want;
            if (err != exp) break;
        } else if (op <= 6) { // encrypt
            Bytes pt = r.bytes(r.chance(1, 25) ? r.range(65519, 65600) : pick_len(r, true)), ad = pick_ad(r); bool use_ad = r.chance(2, 3); if (!use_ad) ad.clear();
            if (aead && m.has && c == oracle::ChaChaPoly && r.chance(1, 3)) { if (r.chance(1, 2)) pt = r.bytes(32 + 16 * r.below(12)); if (pt.size() < 4200) polyedge::craft(m.key, m.n, ad, pt, r); }
            size_t room = r.chance(1, 8) ? r.below(16) : r.chance(1, 2) ? 16 : 16 + r.below(64); bool badsize = r.chance(1, 40);
            Buf b(pt.size(), pt.size() + room, r.below(16)); b.put(pt); if (badsize) b.nb.size = b.nb.max_size + 1 + r.below(20);
            std::set<int> exp;
            if (badsize) exp.insert(NOISE_ERROR_INVALID_LENGTH);
            if (!m.has) { if (pt.size() > 65535) exp.insert(NOISE_ERROR_INVALID_LENGTH); }
            else { if (pt.size() > 65519 || room < 16) exp.insert(NOISE_ERROR_INVALID_LENGTH); if (m.n == MAXN) exp.insert(NOISE_ERROR_INVALID_NONCE); }
            int err = call_enc(s, use_ad ? &ad : 0, &b.nb, r); trace += vh::fmt(" enc%zu/%zu", pt.size(), ad.size());
            if (!b.g.intact()) vh::viol("bounds", "%s encrypt wrote outside the buffer (size %zu max %zu)", cn, pt.size(), b.cap);
            if (exp.empty()) {
                Bytes want = m.has ? oracle::aead(c, m.key, m.n, ad, pt) : pt;
                if (err) { vh::viol("encrypt-error", "%s encrypt of %zu bytes (room %zu, n=%llx) fails: %x", cn, pt.size(), room, (unsigned long long)m.n, err); break; }
                if (b.nb.size != want.size() || b.get(want.size()) != want) { vh::viol("encrypt", "%s encrypt of %zu bytes, ad %zu, n=%llx: wrong ciphertext (size %zu)", cn, pt.size(), ad.size(), (unsigned long long)m.n, (size_t)b.nb.size); break; }
                if (m.has) ++m.n;
                vh::ev("encryptions");
            } else {
                if (!exp.count(err)) { vh::viol("encrypt-reject", "%s encrypt size %zu room %zu n=%llx has_key=%d gives %x", cn, pt.size(), room, (unsigned long long)m.n, m.has, err); break; }
                if (b.get(pt.size()) != pt || (!badsize && b.nb.size != pt.size())) vh::viol("encrypt-reject-effect", "%s a rejected encryption changed the buffer", cn);
                vh::ev(m.n == MAXN ? "exhausted_encryptions_rejected" : "encryptions_rejected");
            }
        } else { // decrypt
            Bytes pt = r.bytes(pick_len(r, true)), ad = pick_ad(r); bool use_ad = r.chance(2, 3); if (!use_ad) ad.clear();
            if (aead && m.has && c == oracle::ChaChaPoly && r.chance(1, 4)) { if (r.chance(1, 2)) pt = r.bytes(32 + 16 * r.below(12)); if (pt.size() < 4200) polyedge::craft(m.key, m.n, ad, pt, r); }
            Bytes ct = m.has ? oracle::aead(c, m.key, m.n, ad, pt) : pt, secret = pt; uint64_t usedn = m.n;
            int kind = m.has ? r.below(rel ? 13 : 16) : 15; std::set<int> exp; const char *what = "valid"; Bytes use = ad; size_t body = pt.size();
            if (m.n == MAXN && m.has) exp.insert(NOISE_ERROR_INVALID_NONCE);
            switch (kind) {
            case 0: ct[r.below(ct.size())] ^= 1 << r.below(8); what = "flip"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 1: ct[body + r.below(16)] ^= 1 << r.below(8); what = "tagflip"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 2: if (!body) { ct[15] ^= 0x80; } else ct[r.below(body)] ^= 1 << r.below(8); what = "bodyflip"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 3: { size_t cut = 1 + r.below(ct.size() < 40 ? ct.size() : 40); ct.resize(ct.size() - cut); what = "cut"; exp.insert(ct.size() < 16 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE); break; }
            case 4: { Bytes x = r.bytes(1 + r.below(20)); ct.insert(ct.end(), x.begin(), x.end()); what = "extend"; exp.insert(ct.size() > 65535 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE); break; }
            case 5: if (ad.empty()) { use = Bytes{0}; use_ad = true; } else if (r.chance(1, 2)) use[r.below(use.size())] ^= 1 << r.below(8); else use.push_back(0); what = "ad"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 6: usedn = m.n - 1 - r.below(3); ct = oracle::aead(c, m.key, usedn, ad, pt); what = "replay"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 7: usedn = m.n + 1 + r.below(3); ct = oracle::aead(c, m.key, usedn, ad, pt); what = "future"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 8: { Bytes k2 = m.key; k2[r.below(32)] ^= 1 << r.below(8); ct = oracle::aead(c, k2, m.n, ad, pt); what = "otherkey"; exp.insert(NOISE_ERROR_MAC_FAILURE); break; }
            case 9: if (std::all_of(ct.end() - 16, ct.end(), [](uint8_t v) { return !v; })) ct[ct.size() - 1] = 1; else std::fill(ct.end() - 16, ct.end(), 0); what = "zerotag"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 10: if (ct.size() >= 32) { std::swap_ranges(ct.end() - 16, ct.end(), ct.end() - 32); } else ct[0] ^= 1; what = "tagswap"; exp.insert(NOISE_ERROR_MAC_FAILURE); break;
            case 11: if (body && use.size()) { ct.insert(ct.begin(), use.back()); use.pop_back(); body++; } else ct[ct.size() - 1] ^= 1; what = "boundary"; exp.insert(ct.size() > 65535 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE); break;
            case 12: { int x = r.below(16); for (int i = 0; i < 16; ++i) if (i != x) ct[ct.size() - 16 + i] ^= (uint8_t)(r.below(255) + 1); what = "tagbyte"; exp.insert(NOISE_ERROR_MAC_FAILURE); break; }
            }
            bool badsize = r.chance(1, 40); size_t slack = r.chance(1, 2) ? 0 : r.below(40);
            Buf b(ct.size(), ct.size() + slack, r.below(16)); b.put(ct); if (badsize) { b.nb.size = b.nb.max_size + 1 + r.below(9); exp.insert(NOISE_ERROR_INVALID_LENGTH); }
            int err = call_dec(s, use_ad ? &use : 0, &b.nb, r); trace += vh::fmt(" dec-%s%zu/%zu", what, body, ad.size());
            if (!b.g.intact()) vh::viol("bounds", "%s decrypt wrote outside the buffer", cn);
            if (exp.empty()) {
                if (err || b.nb.size != pt.size() || b.get(pt.size()) != pt) { vh::viol("decrypt", "%s decrypt of %zu bytes ad %zu n=%llx: err %x size %zu", cn, pt.size(), ad.size(), (unsigned long long)m.n, err, (size_t)b.nb.size); break; }
                if (m.has) ++m.n; vh::ev("decryptions");
            } else {
                if (!err) { vh::viol(std::string("forgery-") + what, "%s accepted a %s message (%zu bytes, n=%llx)", cn, what, ct.size(), (unsigned long long)m.n); break; }
                if (!exp.count(err)) { if (aead || rel) vh::viol("decrypt-error-code", "%s %s message gives %x", cn, what, err); }
                size_t left = b.nb.size; Bytes now = b.get(b.cap < ct.size() ? b.cap : ct.size());
                if (m.has && ct.size() >= 16) {
                    Bytes would = keystream_xor(c, m.key, m.n, Bytes(ct.begin(), ct.end() - 16));
                    if ((leaks(now, would) && m.n != MAXN) || leaks(now, secret)) vh::viol(vh::fmt("plaintext-released-%s", what), "%s: after a failed decryption (%s, %zu bytes, err %x) the buffer holds plaintext", cn, what, ct.size(), err);
                }
                if (!badsize && left != ct.size()) vh::viol("failed-decrypt-size", "%s failed decryption changed the buffer size %zu -> %zu", cn, ct.size(), left);
                vh::ev("forgeries_rejected"); vh::ev(std::string("rejected_") + what);
            }
        }
        vh::eval(); 
    }
    noise_cipherstate_free(s);
    vh::sig(trace); vh::sample(trace);
}

// Two ends and a network that reorders, replays, drops and corrupts.
static void mode_nonce(vh::Rng &r) {
    Cipher c = r.chance(1, 2) ? oracle::ChaChaPoly : oracle::AESGCM; Bytes key = r.bytes(32);
    NoiseCipherState *a = make(c, r), *b = make(c, r); if (!a || !b) return;
    noise_cipherstate_init_key(a, key.data(), 32); noise_cipherstate_init_key(b, key.data(), 32);
    uint64_t na = 0, nb = 0; struct Msg { uint64_t n; Bytes ct, pt, ad; }; std::vector<Msg> net; std::set<Bytes> seen; std::string trace; uint64_t accepted_last = 0; bool any = false;
    if (r.chance(1, 2)) { na = nb = r.chance(1, 2) ? MAXN - r.below(12) : pick_nonce(r); noise_cipherstate_set_nonce(a, na); noise_cipherstate_set_nonce(b, nb); }
    int ops = vh::ctx().thorough ? 120 : 60;
    for (int k = 0; k < ops; ++k) {
        vh::describe(trace.substr(trace.size() > 300 ? trace.size() - 300 : 0));
        int op = r.below(10);
        if (op < 4 || net.empty()) {
            Bytes pt = r.bytes(r.below(100)), ad = r.bytes(r.below(20)), out; if (r.chance(1, 3) && !net.empty()) { pt = net.back().pt; ad = net.back().ad; }
            Buf buf(pt.size(), pt.size() + (r.chance(1, 8) ? 15 : 16), 0); buf.put(pt); bool small = buf.cap < pt.size() + 16;
            int err = noise_cipherstate_encrypt_with_ad(a, ad.empty() ? 0 : ad.data(), ad.size(), &buf.nb);
            trace += small ? " e!" : " e";
            if (na == MAXN) { if (err != NOISE_ERROR_INVALID_NONCE && !(small && err == NOISE_ERROR_INVALID_LENGTH)) { vh::viol("exhaustion", "encryption with the reserved nonce gives %x", err); break; } vh::ev("exhausted_encryptions_rejected"); continue; }
            if (small) { if (err != NOISE_ERROR_INVALID_LENGTH) vh::viol("small-buffer", "encryption into a short buffer: %x", err); continue; }
            if (err) { vh::viol("encrypt-error", "n=%llx: %x", (unsigned long long)na, err); break; }
            out = buf.get(buf.nb.size);
            if (out != oracle::aead(c, key, na, ad, pt)) { vh::viol("nonce-sequence", "message was not encrypted with nonce %llx, the next in sequence", (unsigned long long)na); break; }
            net.push_back({na, out, pt, ad}); ++na; vh::ev("sent");
        } else if (op < 8) {
            size_t i = r.chance(1, 2) ? 0 : r.below(net.size()); for (size_t j = 0; j < net.size(); ++j) if (net[j].n == nb && r.chance(2, 3)) i = j;
            Msg m = net[i]; bool bad = r.chance(1, 6); if (bad) m.ct[r.below(m.ct.size())] ^= 1 << r.below(8);
            if (!r.chance(1, 3)) net.erase(net.begin() + i);
            Bytes out; int err = hsd::cs_decrypt(b, m.ct, out, &m.ad);
            bool ok = !bad && m.n == nb && nb != MAXN; trace += ok ? " d+" : m.n < nb ? " dReplay" : bad ? " dBad" : " dFuture";
            if (ok) {
                if (err || out != m.pt) { vh::viol("in-order-lost", "the message with the expected nonce %llx is rejected: %x", (unsigned long long)nb, err); break; }
                if (any && m.n <= accepted_last) vh::viol("accepted-twice", "nonce %llx accepted after %llx", (unsigned long long)m.n, (unsigned long long)accepted_last);
                any = true; accepted_last = m.n; ++nb; vh::ev("delivered");
            } else {
                if (!err) { vh::viol(m.n < nb ? "replay-accepted" : bad ? "forgery-accepted" : "out-of-order-accepted", "receiver expects nonce %llx, message has %llx, bad=%d: accepted", (unsigned long long)nb, (unsigned long long)m.n, bad); break; }
                if (nb == MAXN && err != NOISE_ERROR_INVALID_NONCE) vh::viol("exhaustion-decrypt", "decryption with the reserved nonce gives %x", err);
                vh::ev(m.n < nb ? "replays_rejected" : bad ? "corrupt_rejected" : "future_rejected");
            }
        } else if (op == 8) {
            bool which = r.chance(1, 2); uint64_t cur = which ? na : nb, t = r.chance(1, 2) ? cur + r.below(4) : pick_nonce(r); if (t < cur && cur - t > MAXN / 2 && cur + 3 < cur) t = cur;
            int err = noise_cipherstate_set_nonce(which ? a : b, t), exp = t < cur ? NOISE_ERROR_INVALID_NONCE : 0; trace += t < cur ? " set-" : " set+";
            if (err != exp) { vh::viol("set-nonce", "set_nonce(%llx) at %llx gives %x", (unsigned long long)t, (unsigned long long)cur, err); break; }
            if (!exp) (which ? na : nb) = t; else vh::ev("rewinds_rejected");
        } else { // the receiver skips to a message it has in hand, as over a lossy transport
            size_t i = r.below(net.size());
            if (net[i].n >= nb) { if (noise_cipherstate_set_nonce(b, net[i].n)) { vh::viol("skip", "cannot skip forward"); break; } nb = net[i].n; trace += " skip"; vh::ev("skips"); }
        }
        vh::eval();
    }
    noise_cipherstate_free(a); noise_cipherstate_free(b); vh::sig(trace); vh::sample(trace);
}

static void mode_sym(vh::Rng &r, uint64_t i) {
    Proto p = hsd::sweep(i, r); std::string name = p.name(); NoiseSymmetricState *s = 0; NoiseProtocolId id = hsd::proto_id(p);
    int err = r.chance(1, 2) ? noise_symmetricstate_new_by_id(&s, &id) : noise_symmetricstate_new_by_name(&s, name.c_str());
    vh::describe(name); if (err) { vh::viol("sym-create", "%s: %x", name.c_str(), err); return; }
    { NoiseProtocolId g; memset(&g, 0xA5, sizeof g); if (noise_symmetricstate_get_protocol_id(s, &g) || memcmp(&g, &id, sizeof g)) vh::viol("sym-protocol-id", "%s: another protocol identifier comes back", name.c_str()); }
    if (r.chance(1, 4)) { // creation that must fail leaves nothing behind
        NoiseSymmetricState *x = (NoiseSymmetricState *)8; int v = r.below(5), want; std::string bad = name; NoiseProtocolId bi = id;
        if (v == 0) { bad.resize(r.below(bad.size())); } else if (v == 1) bad += r.chance(1, 2) ? "x" : "_"; else if (v == 2) bad[r.below(bad.size())] = '!';
        else { int *f[] = {&bi.prefix_id, &bi.pattern_id, &bi.dh_id, &bi.cipher_id, &bi.hash_id, &bi.hybrid_id}; *f[r.below(6)] = r.chance(1, 2) ? 0x7FFF : NOISE_ID('Z', 1); }
        if (v < 3) { NoiseProtocolId t; want = NOISE_ERROR_UNKNOWN_NAME; err = noise_symmetricstate_new_by_name(&x, bad.c_str()); if (!err && !noise_protocol_name_to_id(&t, bad.c_str(), bad.size())) want = 0; }
        else { want = NOISE_ERROR_UNKNOWN_ID; err = noise_symmetricstate_new_by_id(&x, &bi); }
        if (err != want || (err && x)) vh::viol("sym-create-bad", "creation from '%s' (%d) gave %x, expected %x", v < 3 ? bad.c_str() : "a bad identifier", v, err, want);
        if (!err) noise_symmetricstate_free(x); else vh::ev("creations_refused");
    }
    Sym m; m.init(p.h, p.c, name); std::string trace = name; int ops = vh::ctx().thorough ? 40 : 22;
    for (int k = 0; k < ops; ++k) {
        int op = r.below(9); vh::describe(trace.substr(trace.size() > 300 ? trace.size() - 300 : 0));
        if (noise_symmetricstate_get_mac_length(s) != m.mac()) { vh::viol("sym-mac-length", "mac length %zu, want %zu", noise_symmetricstate_get_mac_length(s), m.mac()); break; }
        if (op == 0 || op == 1) { Bytes d = r.bytes(r.chance(1, 20) ? r.below(70000) : pick_len(r, false)); Exact e(d, r.below(8)); err = op ? noise_symmetricstate_mix_hash(s, e.p, e.n) : noise_symmetricstate_mix_key(s, e.p, e.n);
            if (err) { vh::viol("sym-mix", "mix: %x", err); break; } if (op) m.mixHash(d); else m.mixKey(d); trace += vh::fmt(op ? " mh%zu" : " mk%zu", d.size()); vh::ev("mixes"); }
        else if (op <= 4) {
            Bytes pt = r.bytes(r.chance(1, 30) ? r.range(65510, 65550) : pick_len(r, true)); size_t room = r.chance(1, 10) ? r.below(16) : 16 + r.below(20);
            Buf b(pt.size(), pt.size() + room, r.below(16)); b.put(pt); bool bad = m.has ? pt.size() > 65519 || room < 16 : pt.size() > 65535;
            err = noise_symmetricstate_encrypt_and_hash(s, &b.nb); trace += vh::fmt(" enc%zu", pt.size());
            if (!b.g.intact()) vh::viol("bounds", "encrypt_and_hash wrote outside the buffer");
            if (bad) { if (err != NOISE_ERROR_INVALID_LENGTH) { vh::viol("sym-enc-limit", "size %zu room %zu: %x", pt.size(), room, err); break; } vh::ev("limits"); }
            else { Bytes want = m.enc(pt); if (err || b.nb.size != want.size() || b.get(want.size()) != want) { vh::viol("sym-encrypt", "encrypt_and_hash of %zu bytes: %x", pt.size(), err); break; } vh::ev("encryptions"); }
        } else if (op <= 7) {
            Bytes pt = r.bytes(pick_len(r, true)); Sym t = m; Bytes ct = t.enc(pt); bool forge = m.has && r.chance(1, 3), cut = forge && r.chance(1, 4);
            if (cut) ct.resize(r.below(16)); else if (forge) ct[r.below(ct.size())] ^= 1 << r.below(8);
            Buf b(ct.size(), ct.size() + r.below(10), r.below(16)); b.put(ct); err = noise_symmetricstate_decrypt_and_hash(s, &b.nb); trace += forge ? " forge" : vh::fmt(" dec%zu", pt.size());
            if (!b.g.intact()) vh::viol("bounds", "decrypt_and_hash wrote outside the buffer");
            if (forge) { if (err != (cut ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE)) { vh::viol("sym-forgery", "forged ciphertext (%zu bytes): %x", ct.size(), err); break; } vh::ev("forgeries_rejected"); }
            else { Bytes out; m.dec(ct, out); if (err || b.nb.size != pt.size() || b.get(pt.size()) != pt) { vh::viol("sym-decrypt", "decrypt_and_hash of %zu bytes: %x", pt.size(), err); break; } vh::ev("decryptions"); }
        } else if (r.chance(1, 2)) { // calls without an object, data or outputs: refused, and nothing changes
            uint8_t b16[32] = {0}; NoiseBuffer nb, nd; noise_buffer_set_inout(nb, b16, 0, 32); nd = nb; nd.data = 0; NoiseCipherState *x = 0; const int IP = NOISE_ERROR_INVALID_PARAM; NoiseProtocolId g; NoiseSymmetricState *y = 0;
            int es[] = {noise_symmetricstate_mix_key(s, 0, 5), noise_symmetricstate_mix_key(0, b16, 5), noise_symmetricstate_mix_hash(s, 0, 5), noise_symmetricstate_mix_hash(0, b16, 5), noise_symmetricstate_encrypt_and_hash(s, 0), noise_symmetricstate_encrypt_and_hash(0, &nb), noise_symmetricstate_encrypt_and_hash(s, &nd),
                noise_symmetricstate_decrypt_and_hash(s, 0), noise_symmetricstate_decrypt_and_hash(0, &nb), noise_symmetricstate_decrypt_and_hash(s, &nd), noise_symmetricstate_split(0, &x, &x), noise_symmetricstate_split(s, 0, 0), noise_symmetricstate_free(0), noise_symmetricstate_get_protocol_id(0, &g), noise_symmetricstate_get_protocol_id(s, 0),
                noise_symmetricstate_new_by_id(0, &id), noise_symmetricstate_new_by_id(&y, 0), noise_symmetricstate_new_by_name(0, name.c_str()), noise_symmetricstate_new_by_name(&y, 0)};
            for (size_t q = 0; q < sizeof es / sizeof *es; ++q) if (es[q] != IP) { vh::viol("sym-null", "call %zu with a null argument gave %x", q, es[q]); break; }
            if (noise_symmetricstate_get_mac_length(0)) vh::viol("sym-null", "a null state has a MAC"); vh::ev("null_arguments_refused"); trace += " null";
        } else if (k > ops / 2) {
            int v = r.below(3); NoiseCipherState *c1 = 0, *c2 = 0; err = noise_symmetricstate_split(s, v == 1 ? 0 : &c1, v == 2 ? 0 : &c2); trace += " split";
            if (err) { vh::viol("sym-split", "%x", err); break; }
            Bytes k1, k2; m.split(k1, k2); Bytes pt = r.bytes(r.below(100)), ct;
            if (v != 1 && (hsd::cs_encrypt(c1, pt, ct) || ct != oracle::aead(p.c, k1, 0, Bytes(), pt))) vh::viol("sym-split-k1", "first split key wrong");
            if (v != 2 && (hsd::cs_encrypt(c2, pt, ct) || ct != oracle::aead(p.c, k2, 0, Bytes(), pt))) vh::viol("sym-split-k2", "second split key wrong");
            if (c1) noise_cipherstate_free(c1); if (c2) noise_cipherstate_free(c2); vh::ev("splits");
            uint8_t b16[32] = {0}; NoiseBuffer nb; noise_buffer_set_inout(nb, b16, 0, 32); NoiseCipherState *x = 0;
            if (noise_symmetricstate_mix_key(s, b16, 1) != NOISE_ERROR_INVALID_STATE || noise_symmetricstate_mix_hash(s, b16, 1) != NOISE_ERROR_INVALID_STATE || noise_symmetricstate_encrypt_and_hash(s, &nb) != NOISE_ERROR_INVALID_STATE ||
                noise_symmetricstate_decrypt_and_hash(s, &nb) != NOISE_ERROR_INVALID_STATE || noise_symmetricstate_split(s, &x, 0) != NOISE_ERROR_INVALID_STATE || noise_symmetricstate_get_mac_length(s) != 0) vh::viol("sym-after-split", "an operation succeeds after split");
            break;
        }
        vh::eval();
    }
    noise_symmetricstate_free(s); vh::sig(trace); vh::sample(trace.substr(0, 300));
}
int main(int argc, char **argv) {
    return vh::run(argc, argv, [](uint64_t i, vh::Rng &r) {
        std::string m = vh::opt("--mode", "aead");
        if (m == "sym") mode_sym(r, i); else if (m == "nonce") mode_nonce(r); else mode_aead(r, m.c_str());
    }, 60);
}
