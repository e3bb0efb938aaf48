// C05 on the OpenSSL back end: every libcrypto call of an encryption or decryption fails in turn.
// A failed decryption releases no plaintext and changes nothing; a failed encryption gives out no
// ciphertext under a nonce that is used again.
#include "vh.hpp"
#include "oracle.hpp"
#include <noise/protocol.h>
#include <openssl/evp.h>
#include <stdarg.h>
using namespace vh;
static struct { bool on = false, hit = false, after = false; unsigned n = 0, at = 0; const char *what = ""; } F;
static bool fails(const char *w) { if (!F.on) return false; if (F.n++ != F.at) return false; F.hit = true; F.what = w; return true; }
extern "C" {
#define W(name, args, call) int __real_##name args; int __wrap_##name args { if (!fails(#name)) return __real_##name call; if (F.after) __real_##name call; return 0; }
W(EVP_CIPHER_CTX_reset, (EVP_CIPHER_CTX *c), (c))
W(EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX *c, int t, int a, void *p), (c, t, a, p))
#define FAM(X) \
W(EVP_##X##Init_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *k, ENGINE *e, const unsigned char *key, const unsigned char *iv), (c, k, e, key, iv)) \
W(EVP_##X##Update, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il), (c, o, ol, i, il)) \
W(EVP_##X##Final_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol)) \
W(EVP_##X##Final, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol)) \
W(EVP_##X##Init, (EVP_CIPHER_CTX *c, const EVP_CIPHER *k, const unsigned char *key, const unsigned char *iv), (c, k, key, iv))
FAM(Encrypt) FAM(Decrypt)
W(EVP_CipherInit_ex, (EVP_CIPHER_CTX *c, const EVP_CIPHER *k, ENGINE *e, const unsigned char *key, const unsigned char *iv, int enc), (c, k, e, key, iv, enc))
W(EVP_CipherUpdate, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol, const unsigned char *i, int il), (c, o, ol, i, il))
W(EVP_CipherFinal_ex, (EVP_CIPHER_CTX *c, unsigned char *o, int *ol), (c, o, ol))
}
static bool leaks(const uint8_t *got, size_t n, const Bytes &want) { for (size_t i = 0; i + 16 <= want.size() && i + 16 <= n; ++i) if (!memcmp(got + i, &want[i], 16)) return true; return false; }
static void one(uint64_t, Rng &r) {
    Bytes key = r.bytes(32), ad = r.chance(1, 3) ? Bytes() : r.bytes(1 + r.below(100)), pt = r.bytes(16 + (r.chance(1, 5) ? r.below(3000) : r.below(200))); size_t n = pt.size();
    uint64_t nonce = r.chance(1, 3) ? r.next() >> r.below(60) : r.below(100); if (nonce >= 0xFFFFFFFFFFFFFFF0ULL) nonce = 7;
    bool dec = r.chance(2, 3); F.after = r.chance(1, 2);
    describe(fmt("%s of %zu bytes, ad %zu, n=%llu, %s", dec ? "decryption" : "encryption", n, ad.size(), (unsigned long long)nonce, F.after ? "failing after the work" : "failing before the work")); sig(ctx().desc); if (ctx().cur % 100 == 0) sample(ctx().desc);
    Bytes ct = oracle::aead(oracle::AESGCM, key, nonce, ad, pt);
    for (unsigned at = 0; at < 40; ++at) {
        NoiseCipherState *s = 0; if (noise_cipherstate_new_by_id(&s, NOISE_CIPHER_AESGCM)) die("new");
        if (noise_cipherstate_init_key(s, key.data(), 32) || noise_cipherstate_set_nonce(s, nonce)) die("key");
        Guard g(n + 16); NoiseBuffer b;
        if (dec) { memcpy(g.p, ct.data(), n + 16); noise_buffer_set_inout(b, g.p, n + 16, n + 16); } else { memcpy(g.p, pt.data(), n); noise_buffer_set_inout(b, g.p, n, n + 16); }
        F.on = true; F.hit = false; F.n = 0; F.at = at; 
        int e = dec ? noise_cipherstate_decrypt_with_ad(s, ad.data(), ad.size(), &b) : noise_cipherstate_encrypt_with_ad(s, ad.data(), ad.size(), &b);
        F.on = false; eval(); const char *what = F.what; bool hit = F.hit;
        if (!g.intact()) viol("overrun", "%s wrote outside the buffer", dec ? "decryption" : "encryption");
        if (!e) {   // carried out all the same: then it has to be right
            if (dec ? b.size != n || memcmp(b.data, pt.data(), n) : b.size != n + 16 || memcmp(b.data, ct.data(), n + 16)) viol(fmt("fault-ignored-%s", hit ? what : "none"), "%s succeeds with wrong data when %s fails", dec ? "decryption" : "encryption", hit ? what : "nothing");
        } else {
            if (!hit) viol("no-fault", "error %x without any fault", e);
            if (dec) {
                if (leaks(g.p, g.n, pt)) viol(fmt("plaintext-released-%s", what), "decryption fails with %x because %s failed, and the buffer holds plaintext", e, what);
                memcpy(g.p, ct.data(), n + 16); noise_buffer_set_inout(b, g.p, n + 16, n + 16); int e2 = noise_cipherstate_decrypt_with_ad(s, ad.data(), ad.size(), &b);
                if (e2 || b.size != n || memcmp(b.data, pt.data(), n)) viol(fmt("state-changed-%s", what), "after a decryption that failed with %x because %s failed, the genuine message gives %x", e, what, e2);
                ev("failed_decryptions");
            } else {
                bool out = leaks(g.p, g.n, ct); Bytes p2 = r.bytes(n); memcpy(g.p, p2.data(), n); noise_buffer_set_inout(b, g.p, n, n + 16);
                int e2 = noise_cipherstate_encrypt_with_ad(s, ad.data(), ad.size(), &b); Bytes w0 = oracle::aead(oracle::AESGCM, key, nonce, ad, p2), w1 = oracle::aead(oracle::AESGCM, key, nonce + 1, ad, p2);
                bool same = !e2 && b.size == n + 16 && !memcmp(b.data, w0.data(), n + 16), next = !e2 && b.size == n + 16 && !memcmp(b.data, w1.data(), n + 16);
                if (!same && !next) viol(fmt("state-changed-%s", what), "after an encryption that failed with %x because %s failed, the next gives %x", e, what, e2);
                if (same && out) viol(fmt("nonce-reused-%s", what), "an encryption that failed because %s failed left its ciphertext in the buffer, and its nonce was used again", what);
                ev("failed_encryptions");
            }
            ev(fmt("backend_fault_%s", what));
        }
        noise_cipherstate_free(s);
        if (!hit) break;
    }
}
int main(int argc, char **argv) { noise_init(); return run(argc, argv, one); }
