// Messages for which the Poly1305 accumulator of ChaCha20-Poly1305 takes a chosen value: around 0 and the
// prime 2^130-5, at the limb boundaries of every implementation, or such that adding the pad just carries.
// Random messages reach none of these (probability about 2^-100), and they are where carries can go wrong.
#ifndef POLY_EDGE_HPP
#define POLY_EDGE_HPP
#include <openssl/bn.h>
#include <openssl/evp.h>
namespace polyedge {
typedef std::vector<uint8_t> Bytes;
struct Ctx {
    BN_CTX *c = BN_CTX_new(); BIGNUM *p = BN_new(), *t = BN_new();
    Ctx() { BN_one(p); BN_lshift(p, p, 130); BN_sub_word(p, 5); }
    ~Ctx() { BN_free(p); BN_free(t); BN_CTX_free(c); }
};
inline void stream(const Bytes &key, uint64_t n, uint32_t counter, uint8_t *out, size_t len) {
    uint8_t iv[16] = {0}; int l; for (int i = 0; i < 4; ++i) iv[i] = counter >> 8 * i; for (int i = 0; i < 8; ++i) iv[8 + i] = n >> 8 * i;
    std::vector<uint8_t> z(len, 0); EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    if (!EVP_EncryptInit_ex(c, EVP_chacha20(), 0, key.data(), iv) || (len && !EVP_EncryptUpdate(c, out, &l, z.data(), len))) vh::die("chacha");
    EVP_CIPHER_CTX_free(c);
}
inline void target(BIGNUM *T, const Ctx &x, const uint8_t *pad, vh::Rng &r) {
    BN_zero(T);
    switch (r.below(6)) {
    case 0: BN_set_word(T, r.below(8)); break;
    case 1: BN_copy(T, x.p); BN_sub_word(T, 1 + r.below(8)); break;
    case 2: BN_set_bit(T, r.below(130)); if (r.chance(1, 2)) BN_sub_word(T, 1 + r.below(6)); else BN_add_word(T, r.below(6)); break;
    case 3: { static const int w[] = {8, 13, 26, 32, 44, 52}; int step = w[r.below(6)]; for (int b = 0; b < 130; b += step) { int k = r.below(3); for (int i = b; i < b + step && i < 130; ++i) if (k == 1 || (k == 2 && r.chance(1, 2))) BN_set_bit(T, i); } break; }
    default: { // T + pad = j * 2^128 + d
        BIGNUM *s = BN_lebin2bn(pad, 16, 0); BN_set_word(T, r.below(4)); BN_lshift(T, T, 128); BN_sub(T, T, s); BN_free(s);
        uint64_t d = r.below(4); if (r.chance(1, 2)) BN_add_word(T, d); else BN_sub_word(T, d); break; }
    }
    BN_nnmod(T, T, x.p, x.c);
}
// replaces the last block of data or one before it; false if the message is too short
inline bool craft(const Bytes &key, uint64_t n, const Bytes &ad, Bytes &pt, vh::Rng &r) {
    size_t blocks = pt.size() / 16; if (blocks < 2) return false;
    static Ctx x; BIGNUM *R = BN_new(), *h = BN_new(), *b = BN_new(), *T = BN_new(), *ri = BN_new(), *want = BN_new();
    uint8_t k0[64]; stream(key, n, 0, k0, 64); uint8_t *pad = k0 + 16;
    static const uint8_t clamp[16] = {255, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15, 252, 255, 255, 15};
    for (int i = 0; i < 16; ++i) k0[i] &= clamp[i];
    BN_lebin2bn(k0, 16, R); BN_mod_inverse(ri, R, x.p, x.c); bool ok = false;
    Bytes ks(pt.size()); stream(key, n, 1, ks.data(), ks.size()); Bytes ct(pt); for (size_t i = 0; i < ct.size(); ++i) ct[i] ^= ks[i];
    auto block = [&](const uint8_t *q, size_t len) { uint8_t m[17] = {0}; memcpy(m, q, len); m[16] = 1; BN_lebin2bn(m, 17, b); BN_add(h, h, b); BN_mod_mul(h, h, R, x.p, x.c); };
    auto all = [&](const Bytes &d) { for (size_t i = 0; i < d.size(); i += 16) block(&d[i], d.size() - i < 16 ? d.size() - i : 16); };
    target(T, x, pad, r);
    bool last = pt.size() % 16 == 0 && r.chance(2, 3); size_t at = last ? blocks - 1 : 1 + r.below(blocks - 1);
    // the value the accumulator must have before block AT is added and multiplied by r
    if (last) { uint8_t len[17] = {0}; for (int i = 0; i < 8; ++i) { len[i] = (uint64_t)ad.size() >> 8 * i; len[8 + i] = (uint64_t)ct.size() >> 8 * i; } len[16] = 1; BN_lebin2bn(len, 17, b); BN_mod_mul(want, T, ri, x.p, x.c); BN_mod_sub(want, want, b, x.p, x.c); BN_mod_mul(want, want, ri, x.p, x.c); }
    else if (r.chance(1, 2)) BN_mod_mul(want, T, ri, x.p, x.c); else BN_copy(want, T); // the product, or the sum before it
    for (int tries = 0; tries < 60 && !ok; ++tries) {
        for (int i = 0; i < 16; ++i) ct[(at - 1) * 16 + i] = r.next();
        BN_zero(h); all(ad); for (size_t i = 0; i < at; ++i) block(&ct[i * 16], 16);
        BN_one(b); BN_lshift(b, b, 128); BN_add(h, h, b); BN_mod_sub(h, want, h, x.p, x.c);
        if (BN_num_bits(h) <= 128) { BN_bn2lebinpad(h, &ct[at * 16], 16); ok = true; }
    }
    if (ok) { for (size_t i = 0; i < ct.size(); ++i) pt[i] = ct[i] ^ ks[i]; vh::ev(last ? "poly1305_tag_edges" : "poly1305_inner_edges");
        if (last) { // the tag really is (T + pad) mod 2^128
            BIGNUM *s = BN_lebin2bn(pad, 16, 0); BN_add(T, T, s); BN_mask_bits(T, 128); uint8_t t[16]; BN_bn2lebinpad(T, t, 16); BN_free(s); Bytes o = oracle::aead(oracle::ChaChaPoly, key, n, ad, pt);
            if (memcmp(t, &o[pt.size()], 16)) vh::die("poly_edge: crafted tag"); } }
    for (BIGNUM *q : {R, h, b, T, ri, want}) BN_free(q);
    return ok;
}
}
#endif
