// Independent oracle for the cryptographic primitives: OpenSSL's libcrypto.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include "vh.hpp"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/err.h>

namespace oracle {
enum Hash { BLAKE2s, BLAKE2b, SHA256, SHA512 };
enum Cipher { ChaChaPoly, AESGCM };
enum Dh { X25519, X448 };

inline const EVP_MD *md(Hash h) {
    switch (h) {
    case BLAKE2s: return EVP_blake2s256();
    case BLAKE2b: return EVP_blake2b512();
    case SHA256: return EVP_sha256();
    default: return EVP_sha512();
    }
}
inline size_t hashlen(Hash h) { return h == BLAKE2s || h == SHA256 ? 32 : 64; }
inline size_t blocklen(Hash h) { return h == BLAKE2s || h == SHA256 ? 64 : 128; }

inline Bytes hash(Hash h, const Bytes &a, const Bytes &b = Bytes()) {
    Bytes o(hashlen(h)); unsigned n = 0;
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    if (!EVP_DigestInit_ex(c, md(h), 0) || !EVP_DigestUpdate(c, a.data(), a.size()) ||
        !EVP_DigestUpdate(c, b.data(), b.size()) || !EVP_DigestFinal_ex(c, o.data(), &n)) vh::die("oracle hash");
    EVP_MD_CTX_free(c);
    return o;
}
// HMAC built from the definition (RFC 2104) on top of the hash oracle.
inline Bytes hmac(Hash h, Bytes key, const Bytes &data) {
    size_t B = blocklen(h);
    if (key.size() > B) key = hash(h, key);
    key.resize(B, 0);
    Bytes i(key), o(key);
    for (auto &x : i) x ^= 0x36;
    for (auto &x : o) x ^= 0x5c;
    return hash(h, o, hash(h, i, data));
}
// Told every secret that the oracle computes.
inline std::function<void(const char *, const Bytes &)> &on_secret() { static std::function<void(const char *, const Bytes &)> f; return f; }
// Noise HKDF with two outputs.
inline void hkdf2(Hash h, const Bytes &ck, const Bytes &ikm, Bytes &o1, Bytes &o2) {
    Bytes t = hmac(h, ck, ikm);
    o1 = hmac(h, t, Bytes{1});
    Bytes d(o1); d.push_back(2);
    o2 = hmac(h, t, d);
    if (on_secret()) { on_secret()("hkdf-prk", t); on_secret()("chaining-key", o1); on_secret()("cipher-key", o2); }
}
inline Bytes pbkdf2(Hash h, const Bytes &pw, const Bytes &salt, size_t iter, size_t len) {
    Bytes out;
    for (uint32_t i = 1; out.size() < len; ++i) {
        Bytes d(salt);
        d.push_back(i >> 24); d.push_back(i >> 16); d.push_back(i >> 8); d.push_back(i);
        Bytes u = hmac(h, pw, d), t = u;
        for (size_t j = 1; j < iter; ++j) { u = hmac(h, pw, u); for (size_t k = 0; k < t.size(); ++k) t[k] ^= u[k]; }
        out.insert(out.end(), t.begin(), t.end());
    }
    out.resize(len);
    return out;
}
inline void nonce_bytes(Cipher c, uint64_t n, uint8_t out[12]) {
    memset(out, 0, 12);
    for (int i = 0; i < 8; ++i)
        out[4 + i] = c == ChaChaPoly ? (uint8_t)(n >> (8 * i)) : (uint8_t)(n >> (8 * (7 - i)));
}
inline Bytes aead(Cipher c, const Bytes &key, uint64_t n, const Bytes &ad, const Bytes &pt) {
    uint8_t iv[12]; nonce_bytes(c, n, iv);
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    Bytes out(pt.size() + 16); int l = 0, l2 = 0; uint8_t dummy[16];
    if (!EVP_EncryptInit_ex(x, c == ChaChaPoly ? EVP_chacha20_poly1305() : EVP_aes_256_gcm(), 0, key.data(), iv)) vh::die("oracle aead");
    if (!ad.empty() && !EVP_EncryptUpdate(x, 0, &l, ad.data(), ad.size())) vh::die("oracle ad");
    l = 0;
    if (!pt.empty() && !EVP_EncryptUpdate(x, out.data(), &l, pt.data(), pt.size())) vh::die("oracle enc");
    if (!EVP_EncryptFinal_ex(x, pt.empty() ? dummy : out.data() + l, &l2)) vh::die("oracle fin");
    if (!EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + pt.size())) vh::die("oracle tag");
    EVP_CIPHER_CTX_free(x);
    return out;
}
// false if the tag does not verify
inline bool aead_open(Cipher c, const Bytes &key, uint64_t n, const Bytes &ad, const Bytes &ct, Bytes &pt) {
    if (ct.size() < 16) return false;
    uint8_t iv[12]; nonce_bytes(c, n, iv);
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l = 0, l2 = 0; uint8_t dummy[16];
    size_t len = ct.size() - 16; pt.assign(len, 0);
    if (!EVP_DecryptInit_ex(x, c == ChaChaPoly ? EVP_chacha20_poly1305() : EVP_aes_256_gcm(), 0, key.data(), iv)) vh::die("oracle aead");
    if (!ad.empty() && !EVP_DecryptUpdate(x, 0, &l, ad.data(), ad.size())) vh::die("oracle ad");
    if (len && !EVP_DecryptUpdate(x, pt.data(), &l, ct.data(), len)) vh::die("oracle dec");
    Bytes tag(ct.end() - 16, ct.end());
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_TAG, 16, tag.data());
    int ok = EVP_DecryptFinal_ex(x, len ? pt.data() + len : dummy, &l2);
    EVP_CIPHER_CTX_free(x); ERR_clear_error();
    return ok > 0;
}
inline int dhnid(Dh d) { return d == X25519 ? EVP_PKEY_X25519 : EVP_PKEY_X448; }
inline size_t dhlen(Dh d) { return d == X25519 ? 32 : 56; }
inline Bytes dh_public(Dh d, const Bytes &priv) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(dhnid(d), 0, priv.data(), priv.size());
    if (!k) vh::die("oracle priv");
    Bytes o(dhlen(d)); size_t n = o.size();
    if (!EVP_PKEY_get_raw_public_key(k, o.data(), &n)) vh::die("oracle pub");
    EVP_PKEY_free(k);
    return o;
}
// false when libcrypto refuses (all-zero shared secret)
inline bool dh(Dh d, const Bytes &priv, const Bytes &pub, Bytes &out) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(dhnid(d), 0, priv.data(), priv.size());
    EVP_PKEY *p = EVP_PKEY_new_raw_public_key(dhnid(d), 0, pub.data(), pub.size());
    if (!k || !p) vh::die("oracle dh keys");
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, 0);
    out.assign(dhlen(d), 0); size_t n = out.size();
    bool ok = EVP_PKEY_derive_init(c) > 0 && EVP_PKEY_derive_set_peer_ex(c, p, 0) > 0 && EVP_PKEY_derive(c, out.data(), &n) > 0;
    if (!ok) out.assign(dhlen(d), 0);
    else if (on_secret()) on_secret()("dh-shared", out);
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(p); ERR_clear_error();
    return ok;
}
inline Bytes ed_public(const Bytes &priv) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, 0, priv.data(), priv.size());
    Bytes o(32); size_t n = 32; EVP_PKEY_get_raw_public_key(k, o.data(), &n); EVP_PKEY_free(k); return o;
}
inline Bytes ed_sign(const Bytes &priv, const Bytes &msg) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, 0, priv.data(), priv.size());
    EVP_MD_CTX *c = EVP_MD_CTX_new(); Bytes o(64); size_t n = 64;
    static const uint8_t z = 0;
    if (EVP_DigestSignInit(c, 0, 0, 0, k) <= 0 || EVP_DigestSign(c, o.data(), &n, msg.empty() ? &z : msg.data(), msg.size()) <= 0) vh::die("oracle sign");
    EVP_MD_CTX_free(c); EVP_PKEY_free(k); return o;
}
inline bool ed_verify(const Bytes &pub, const Bytes &msg, const Bytes &sg) {
    EVP_PKEY *k = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, 0, pub.data(), pub.size());
    if (!k) { ERR_clear_error(); return false; }
    EVP_MD_CTX *c = EVP_MD_CTX_new(); static const uint8_t z = 0;
    bool ok = EVP_DigestVerifyInit(c, 0, 0, 0, k) > 0 && EVP_DigestVerify(c, sg.data(), sg.size(), msg.empty() ? &z : msg.data(), msg.size()) > 0;
    EVP_MD_CTX_free(c); EVP_PKEY_free(k); ERR_clear_error(); return ok;
}
} // namespace oracle
#endif
