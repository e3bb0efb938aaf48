// Encrypted private key files: an independent writer, reader and plaintext search.
#ifndef KEYFILE_HPP
#define KEYFILE_HPP
#include "certdesc.hpp"
#include "oracle.hpp"
#include <noise/protocol.h>
using namespace vh;
using pb::Obj; using pb::POb; using pb::putv;

static const char *CN[] = {"ChaChaPoly", "AESGCM"}, *HN[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
static Bytes kdf(oracle::Hash h, const Bytes &pw, const Bytes &salt, uint32_t it) {
    Bytes o(40);
    if (PKCS5_PBKDF2_HMAC((const char *)pw.data(), (int)pw.size(), salt.data(), (int)salt.size(), (int)it, oracle::md(h), 40, o.data()) != 1) die("pbkdf2 oracle");
    return o;
}
static uint64_t nonce(const Bytes &k) { uint64_t n = 0; for (int i = 0; i < 8; ++i) n = n << 8 | k[32 + i]; return n; }
static bool parse_alg(const Bytes &a, oracle::Cipher &c, oracle::Hash &h) {
    std::string s(a.begin(), a.end());
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) if (s == std::string(CN[i]) + "_" + HN[j] + "_PBKDF2") { c = (oracle::Cipher)i; h = (oracle::Hash)j; return true; }
    return false;
}
enum { VERSION, ALG, SALT, ITER, DATA };
// What loading DATA with PW has to give: 0 and the plaintext, or the error; -1 any error, -2 not judged.
static int judge(const Bytes &file, const Bytes &pw, Bytes &plain) {
    pb::Dec dec{file}; Obj e(&Noise_EncryptedPrivateKey_d); size_t q = 0;
    bool ok = dec.msg(q, file.size(), e);
    if (dec.unjudged) return -2;
    if (!ok) return NOISE_ERROR_INVALID_FORMAT;
    auto &v = e.v;
    if (v[VERSION].n != 1 || !v[ALG].has || !v[SALT].has || !v[ITER].n || !v[DATA].has) return NOISE_ERROR_INVALID_FORMAT;
    oracle::Cipher c; oracle::Hash h;
    if (!parse_alg(v[ALG].b, c, h)) return NOISE_ERROR_UNKNOWN_NAME;
    if (v[ITER].n > 40000) return -2;
    if (v[DATA].b.size() < 16) return -1;
    Bytes k = kdf(h, pw, v[SALT].b, v[ITER].n), key(k.begin(), k.begin() + 32);
    if (!oracle::aead_open(c, key, nonce(k), Bytes(), v[DATA].b, plain)) return NOISE_ERROR_MAC_FAILURE;
    pb::Dec d2{plain}; Obj p(&Noise_PrivateKey_d); q = 0; ok = d2.msg(q, plain.size(), p);
    if (d2.unjudged) return -2;
    return ok ? 0 : NOISE_ERROR_INVALID_FORMAT;
}
static Bytes seal(int c, int h, const Bytes &pw, const Bytes &salt, uint32_t it, const Bytes &plain, const std::string &alg, uint32_t version = 1) {
    Obj e(&Noise_EncryptedPrivateKey_d); Bytes k = kdf((oracle::Hash)h, pw, salt, it);
    e.v[VERSION].n = version; e.v[ALG].has = e.v[SALT].has = e.v[DATA].has = true; e.v[ALG].b = Bytes(alg.begin(), alg.end());
    e.v[SALT].b = salt; e.v[ITER].n = it; e.v[DATA].b = oracle::aead((oracle::Cipher)c, Bytes(k.begin(), k.begin() + 32), nonce(k), Bytes(), plain);
    Bytes o; bool bad = false; pb::enc(o, e, bad); return o;
}
static bool leaks(const uint8_t *p, size_t n, const Bytes &plain, size_t win = 12) {
    if (plain.size() < win || n < win) return false;
    for (size_t i = 0; i + win <= plain.size(); i += 1) {
        // skip windows that are one repeated byte
        bool flat = true; for (size_t j = 1; j < win; ++j) if (plain[i + j] != plain[i]) flat = false;
        if (flat) continue;
        if (memmem(p, n, &plain[i], win)) return true;
    }
    return false;
}
#endif
