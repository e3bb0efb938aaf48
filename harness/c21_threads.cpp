// C21: threads working on objects of their own, on keys shared for reading, and on the two halves of a session.
#include "hsdrive.hpp"
#include "certdesc.hpp"
#include <noise/keys/loader.h>
#include <thread>
#include <atomic>
#include <sched.h>
#define THREADS
#include "c07_api.cpp"
using namespace vh; using namespace hsd;

struct Tr { Bytes log; void put(const void *p, size_t n) { if (n) log.insert(log.end(), (const uint8_t *)p, (const uint8_t *)p + n); } void put(int v) { put(&v, sizeof v); } };
#define DO(expr) t.put((int)(expr))

// ---- keys shared by all threads, only ever passed as const
struct Shared {
    NoiseDHState *dh[2][2]; NoiseSignState *sg, *vf; Noise_Certificate *cert; Noise_CertificateChain *chain; Noise_PrivateKey *priv; Bytes psk, prologue;
    Shared(Rng &r) {
        for (int c = 0; c < 2; ++c) for (int k = 0; k < 2; ++k) { Bytes p = r.bytes(c ? 56 : 32); if (noise_dhstate_new_by_id(&dh[c][k], dh_id(c ? D448 : D25519)) || noise_dhstate_set_keypair_private(dh[c][k], p.data(), p.size())) die("shared key"); }
        Bytes p = r.bytes(32), q(32); noise_signstate_new_by_id(&sg, NOISE_SIGN_ED25519); noise_signstate_set_keypair_private(sg, p.data(), 32); noise_signstate_get_public_key(sg, q.data(), 32); noise_signstate_new_by_id(&vf, NOISE_SIGN_ED25519); noise_signstate_set_public_key(vf, q.data(), 32);
        Noise_Certificate_new(&cert); Noise_SubjectInfo *s; Noise_Certificate_get_new_subject(cert, &s); Noise_SubjectInfo_set_name(s, "shared", 6); Noise_PublicKeyInfo *k; Noise_SubjectInfo_add_keys(s, &k); Noise_PublicKeyInfo_set_algorithm(k, "25519", 5); Noise_PublicKeyInfo_set_key(k, q.data(), 32);
        Noise_CertificateChain_new(&chain); for (int i = 0; i < 3; ++i) { Noise_Certificate *c; Noise_SubjectInfo *x; Noise_CertificateChain_add_certs(chain, &c); Noise_Certificate_get_new_subject(c, &x); Noise_SubjectInfo_set_name(x, "link", 4); }
        Noise_PrivateKey_new(&priv); Noise_PrivateKey_set_id(priv, "kept", 4); Noise_PrivateKeyInfo *pk; Noise_PrivateKey_add_keys(priv, &pk); Noise_PrivateKeyInfo_set_algorithm(pk, "25519", 5); Noise_PrivateKeyInfo_set_key(pk, p.data(), 32);
        psk = r.bytes(32); prologue = r.bytes(40);
    }
    ~Shared() { for (auto &c : dh) for (auto k : c) noise_dhstate_free(k); noise_signstate_free(sg); noise_signstate_free(vf); Noise_Certificate_free(cert); Noise_CertificateChain_free(chain); Noise_PrivateKey_free(priv); }
};
static Shared *sh;

// ---- what one thread does; everything it sees goes into T
static void w_shared(Rng &r, Tr &t) {
    int c = r.below(3) == 0; uint8_t b[200]; size_t n = c ? 56 : 32;
    DO(noise_dhstate_calculate(sh->dh[c][0], sh->dh[c][1], b, n)); t.put(b, n);
    DO(noise_dhstate_get_public_key(sh->dh[c][1], b, n)); t.put(b, n);
    DO(noise_dhstate_get_keypair(sh->dh[c][0], b, n, b + n, n)); t.put(b, 2 * n);
    NoiseDHState *d = 0; DO(noise_dhstate_new_by_id(&d, dh_id(c ? D448 : D25519))); DO(noise_dhstate_copy(d, sh->dh[c][0])); DO(noise_dhstate_calculate(d, sh->dh[c][1], b, n)); t.put(b, n); noise_dhstate_free(d);
    char f[200]; DO(noise_dhstate_format_fingerprint(sh->dh[c][0], r.below(2) ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL, f, sizeof f)); t.put(f, strlen(f));
    Bytes m = r.bytes(r.below(300)); m.push_back(1); uint8_t sig[64]; DO(noise_signstate_sign(sh->sg, m.data(), m.size(), sig, 64)); t.put(sig, 64);
    DO(noise_signstate_verify(sh->vf, m.data(), m.size(), sig, 64)); sig[r.below(64)] ^= 1; DO(noise_signstate_verify(sh->vf, m.data(), m.size(), sig, 64));
    NoiseSignState *g = 0; DO(noise_signstate_new_by_id(&g, NOISE_SIGN_ED25519)); DO(noise_signstate_copy(g, sh->sg)); DO(noise_signstate_sign(g, m.data(), m.size(), sig, 64)); t.put(sig, 64); noise_signstate_free(g);
    Bytes o(300); NoiseProtobuf pb; uint8_t *p; size_t z = 0; noise_protobuf_prepare_output(&pb, o.data(), o.size()); DO(Noise_Certificate_write(&pb, 0, sh->cert)); DO(noise_protobuf_finish_output(&pb, &p, &z)); t.put(p, z);
}
static void w_hash(Rng &r, Tr &t) {
    static const char *H[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
    for (int i = 0; i < 4; ++i) {
        NoiseHashState *h = 0; DO(r.below(2) ? noise_hashstate_new_by_name(&h, H[i]) : noise_hashstate_new_by_id(&h, NOISE_ID('H', 1 + i))); size_t n = noise_hashstate_get_hash_length(h);
        Bytes d = r.bytes(1 + r.below(1500)), k = r.bytes(1 + r.below(200)); uint8_t o[128];
        DO(noise_hashstate_reset(h)); size_t a = r.below(d.size()); DO(noise_hashstate_update(h, d.data(), a)); sched_yield(); DO(noise_hashstate_update(h, d.data() + a, d.size() - a)); DO(noise_hashstate_finalize(h, o, n)); t.put(o, n);
        DO(noise_hashstate_hash_two(h, d.data(), d.size(), k.data(), k.size(), o, n)); t.put(o, n);
        DO(noise_hashstate_hkdf(h, k.data(), k.size(), d.data(), d.size(), o, n, o + n, n)); t.put(o, 2 * n);
        DO(noise_hashstate_pbkdf2(h, k.data(), k.size(), d.data(), d.size(), 20, o, 100)); t.put(o, 100); noise_hashstate_free(h);
    }
}
static void w_cipher(Rng &r, Tr &t) {
    for (int i = 0; i < 2; ++i) {
        NoiseCipherState *c = 0, *d = 0; Bytes k = r.bytes(32); DO(noise_cipherstate_new_by_id(&c, NOISE_ID('C', 1 + i))); DO(noise_cipherstate_new_by_name(&d, i ? "AESGCM" : "ChaChaPoly")); DO(noise_cipherstate_init_key(c, k.data(), 32)); DO(noise_cipherstate_init_key(d, k.data(), 32));
        for (int j = 0; j < 4; ++j) { Bytes ad = r.bytes(1 + r.below(50)), pt = r.bytes(1 + r.below(r.chance(1, 4) ? 5000 : 300)), ct, b; DO(cs_encrypt(c, pt, ct, &ad)); t.put(ct.data(), ct.size()); if (r.chance(1, 5)) { Bytes x = ct; x[r.below(x.size())] ^= 8; DO(cs_decrypt(d, x, b, &ad)); } DO(cs_decrypt(d, ct, b, &ad)); t.put(b.data(), b.size()); if (b != pt) DO(-1); }
        noise_cipherstate_free(c); noise_cipherstate_free(d);
    }
}
static void w_newhope(Rng &r, Tr &t) {
    NoiseDHState *a = 0, *b = 0; DO(noise_dhstate_new_by_id(&a, NOISE_DH_NEWHOPE)); DO(noise_dhstate_new_by_name(&b, "NewHope")); DO(noise_dhstate_set_role(a, NOISE_ROLE_INITIATOR)); DO(noise_dhstate_set_role(b, NOISE_ROLE_RESPONDER));
    Bytes k = r.bytes(64); DO(noise_dhstate_set_keypair_private(a, k.data(), 64)); Bytes p(noise_dhstate_get_public_key_length(a)); DO(noise_dhstate_get_public_key(a, p.data(), p.size())); t.put(p.data(), p.size());
    DO(noise_dhstate_generate_dependent_keypair(b, a)); Bytes s(32), u(32); DO(noise_dhstate_calculate(a, b, s.data(), 32)); DO(noise_dhstate_calculate(b, a, u.data(), 32)); DO(s == u);
    noise_dhstate_free(a); noise_dhstate_free(b);
}
static void w_rand(Rng &r, Tr &t) {
    NoiseRandState *s = 0; DO(noise_randstate_new(&s)); Bytes b(40 + r.below(5000)), c(b.size()); DO(noise_randstate_generate(s, b.data(), b.size())); DO(noise_randstate_reseed(s)); DO(noise_randstate_generate(s, c.data(), c.size())); DO(b == c); DO(noise_randstate_pad(s, b.data(), 10, b.size(), NOISE_PADDING_ZERO)); t.put(b.data() + 10, b.size() - 10);
    DO(noise_randstate_generate_simple(c.data(), c.size())); noise_randstate_free(s);
    NoiseDHState *d = 0; DO(noise_dhstate_new_by_id(&d, dh_id(r.chance(1, 3) ? D448 : D25519))); DO(noise_dhstate_generate_keypair(d)); noise_dhstate_free(d);
    NoiseSignState *g = 0; DO(noise_signstate_new_by_id(&g, NOISE_SIGN_ED25519)); DO(noise_signstate_generate_keypair(g)); noise_signstate_free(g);
}
static void w_names(Rng &r, Tr &t) {
    for (int i = 0; i < 20; ++i) {
        Proto p = sweep(r.below(10000), r); NoiseProtocolId id; std::string n = p.name(); if (r.chance(1, 4)) n[r.below(n.size())] ^= 1; memset(&id, 0, sizeof id); int e = noise_protocol_name_to_id(&id, n.c_str(), n.size()); DO(e); if (!e) { t.put(&id, sizeof id); char b[NOISE_MAX_PROTOCOL_NAME]; DO(noise_protocol_id_to_name(b, sizeof b, &id)); t.put(b, strlen(b)); }
        char b[100]; int err = NOISE_ID('E', r.below(20)); noise_strerror(err, b, 1 + r.below(99)); t.put(b, strlen(b)); DO(noise_name_to_id(NOISE_HASH_CATEGORY, "SHA256", 6)); const char *s = noise_id_to_name(0, NOISE_ID("CDHPR"[r.below(5)], r.below(6))); if (s) t.put(s, strlen(s));
    }
    uint8_t z[64]; memset(z, 7, 64); noise_clean(z, 64); DO(noise_is_zero(z, 64)); DO(noise_is_equal(z, z + 32, 32));
}
static void w_object(Rng &r, Tr &t) {
    bool chain = r.chance(1, 2); Bytes o(4000); NoiseProtobuf b; uint8_t *p; size_t z = 0; Noise_CertificateChain *h = 0; DO(Noise_CertificateChain_new(&h));
    for (int i = r.below(4); i >= 0; --i) {
        Noise_Certificate *c = 0; DO(Noise_CertificateChain_add_certs(h, &c)); DO(Noise_Certificate_set_version(c, r.below(5))); Noise_SubjectInfo *s = 0; DO(Noise_Certificate_get_new_subject(c, &s)); Bytes n = r.bytes(1 + r.below(20)); for (auto &x : n) x = 'a' + x % 26;
        DO(Noise_SubjectInfo_set_name(s, (char *)n.data(), n.size())); for (int j = r.below(20); j > 0; --j) { Noise_MetaInfo *m = 0; DO(Noise_SubjectInfo_add_meta(s, &m)); DO(Noise_MetaInfo_set_name(m, (char *)n.data(), n.size())); }
        Noise_Signature *g = 0; DO(Noise_Certificate_add_signatures(c, &g)); DO(Noise_Signature_set_signature(g, n.data(), n.size()));
    }
    noise_protobuf_prepare_output(&b, o.data(), o.size()); DO(Noise_CertificateChain_write(&b, 0, h)); DO(noise_protobuf_finish_output(&b, &p, &z)); t.put(p, z); Noise_CertificateChain_free(h);
    Bytes d(p, p + z); if (r.chance(1, 3) && d.size()) d[r.below(d.size())] ^= 1 << r.below(8); d.push_back(0); noise_protobuf_prepare_input(&b, d.data(), d.size() - 1); void *ld = 0;
    int e = chain ? noise_load_certificate_chain_from_buffer((Noise_CertificateChain **)&ld, &b) : noise_load_certificate_from_buffer((Noise_Certificate **)&ld, &b); DO(e);
    if (!e) { noise_protobuf_prepare_output(&b, o.data(), o.size()); DO(chain ? Noise_CertificateChain_write(&b, 0, (Noise_CertificateChain *)ld) : Noise_Certificate_write(&b, 0, (Noise_Certificate *)ld)); z = 0; noise_protobuf_finish_output(&b, &p, &z); t.put(p, z); if (chain) Noise_CertificateChain_free((Noise_CertificateChain *)ld); else Noise_Certificate_free((Noise_Certificate *)ld); }
}
static std::string scratch;
static Bytes keyfile;
static void w_files(Rng &r, Tr &t) {
    std::string f = scratch + "/t" + std::to_string((unsigned long)&r); Noise_Certificate *c = 0; DO(noise_save_certificate_to_file(sh->cert, f.c_str())); DO(noise_load_certificate_from_file(&c, f.c_str())); if (c) { const char *n = Noise_SubjectInfo_get_name(Noise_Certificate_get_subject(c)); t.put(n, strlen(n)); Noise_Certificate_free(c); }
    Noise_CertificateChain *h = 0; DO(noise_save_certificate_chain_to_file(sh->chain, f.c_str())); DO(noise_load_certificate_chain_from_file(&h, f.c_str())); if (h) { DO(Noise_CertificateChain_count_certs(h)); Noise_CertificateChain_free(h); }
    Bytes o(600); NoiseProtobuf b; uint8_t *p; size_t z = 0; noise_protobuf_prepare_output(&b, o.data(), o.size()); DO(noise_save_certificate_to_buffer(sh->cert, &b)); DO(noise_protobuf_finish_output(&b, &p, &z)); t.put(p, z); noise_protobuf_prepare_output(&b, o.data(), o.size()); DO(noise_save_certificate_chain_to_buffer(sh->chain, &b)); DO(noise_protobuf_finish_output_shift(&b, &p, &z)); t.put(p, z);
    for (int i = 0; i < 2; ++i) {
        Noise_PrivateKey *k = 0; Bytes d = keyfile; noise_protobuf_prepare_input(&b, d.data(), d.size()); const char *w = r.below(2) ? "pw" : "no"; DO(noise_load_private_key_from_buffer(&k, &b, w, 2)); if (k) { t.put(Noise_PrivateKey_get_id(k), 3); Noise_PrivateKey_free(k); } k = 0;
        FILE *q = fopen(f.c_str(), "wb"); fwrite(keyfile.data(), 1, keyfile.size(), q); fclose(q); DO(noise_load_private_key_from_file(&k, f.c_str(), w, 2)); if (k) { t.put(Noise_PrivateKey_get_id(k), 3); Noise_PrivateKey_free(k); }
    }
    unlink(f.c_str());
}
// Saving a key, 20000 rounds each time: what was saved is what is loaded.
static void w_save(Rng &r, Tr &t) {
    std::string f = scratch + "/s" + std::to_string((unsigned long)&r); Bytes o(600); NoiseProtobuf b; uint8_t *p; size_t z = 0;
    static const char *A[] = {"ChaChaPoly_BLAKE2s_PBKDF2", "AESGCM_SHA256_PBKDF2", "ChaChaPoly_SHA512_PBKDF2"}; const char *a = A[r.below(3)]; Noise_PrivateKey *k = 0; int e;
    if (r.below(2)) { DO(noise_save_private_key_to_file(sh->priv, f.c_str(), "secret", 6, a)); e = noise_load_private_key_from_file(&k, f.c_str(), "secret", 6); }
    else { noise_protobuf_prepare_output(&b, o.data(), o.size()); DO(noise_save_private_key_to_buffer(sh->priv, &b, "secret", 6, a)); DO(noise_protobuf_finish_output(&b, &p, &z)); Bytes d(p, p + z); noise_protobuf_prepare_input(&b, d.data(), d.size()); e = noise_load_private_key_from_buffer(&k, &b, "secret", 6); }
    DO(e); if (k) { t.put(Noise_PrivateKey_get_id(k), 4); t.put(Noise_PrivateKeyInfo_get_key(Noise_PrivateKey_get_at_keys(k, 0)), 32); Noise_PrivateKey_free(k); }
    unlink(f.c_str());
}
// Key objects from their parts, fingerprints of bare keys, copies, clearing.
static void w_keys(Rng &r, Tr &t) {
    char f[200]; uint8_t b[300];
    for (int i = 0; i < 2; ++i) {
        int c = i && r.below(2); size_t n = c ? 56 : 32; Bytes k = r.bytes(n), q(n); NoiseDHState *d = 0, *e = 0; DO(noise_dhstate_new_by_name(&d, c ? "448" : "25519")); DO(noise_dhstate_new_by_id(&e, noise_dhstate_get_dh_id(d)));
        DO(noise_dhstate_set_keypair_private(d, k.data(), n)); DO(noise_dhstate_get_public_key(d, q.data(), n)); DO(noise_dhstate_set_keypair(e, k.data(), n, q.data(), n)); DO(noise_dhstate_get_keypair(e, b, n, b + n, n)); t.put(b, 2 * n); q[r.below(n)] ^= 4; DO(noise_dhstate_set_keypair(e, k.data(), n, q.data(), n));
        DO(noise_dhstate_format_fingerprint(d, NOISE_FINGERPRINT_BASIC, f, sizeof f)); t.put(f, strlen(f)); DO(noise_format_fingerprint(r.below(2) ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL, f, sizeof f, q.data(), n)); t.put(f, strlen(f)); DO(noise_dhstate_set_public_key(e, q.data(), n)); DO(noise_dhstate_calculate(d, e, b, n)); t.put(b, n); DO(noise_dhstate_set_null_public_key(e)); DO(noise_dhstate_is_null_public_key(e)); DO(noise_dhstate_calculate(d, e, b, n)); t.put(b, n); DO(noise_dhstate_clear_key(d)); DO(noise_dhstate_has_keypair(d));
        noise_dhstate_free(d); noise_dhstate_free(e);
    }
    Bytes k = r.bytes(32), q(32); NoiseSignState *g = 0, *v = 0; DO(noise_signstate_new_by_name(&g, "Ed25519")); DO(noise_signstate_new_by_id(&v, NOISE_SIGN_ED25519)); DO(noise_signstate_set_keypair_private(g, k.data(), 32)); DO(noise_signstate_get_keypair(g, b, 32, q.data(), 32)); t.put(b, 32); t.put(q.data(), 32); DO(noise_signstate_set_keypair(v, k.data(), 32, q.data(), 32)); DO(noise_signstate_format_fingerprint(v, NOISE_FINGERPRINT_FULL, f, sizeof f)); t.put(f, strlen(f));
    Bytes m = r.bytes(1 + r.below(100)); DO(noise_signstate_sign(v, m.data(), m.size(), b, 64)); t.put(b, 64); q[r.below(32)] ^= 2; DO(noise_signstate_set_keypair(v, k.data(), 32, q.data(), 32)); DO(noise_signstate_set_public_key(v, q.data(), 32)); DO(noise_signstate_verify(v, m.data(), m.size(), b, 64)); DO(noise_signstate_clear_key(g)); noise_signstate_free(g); noise_signstate_free(v);
}
static void w_symmetric(Rng &r, Tr &t) {
    Proto p = sweep(r.below(10000), r); NoiseSymmetricState *s[2] = {0, 0}; NoiseProtocolId id = proto_id(p); DO(noise_symmetricstate_new_by_name(&s[0], p.name().c_str())); DO(noise_symmetricstate_new_by_id(&s[1], &id)); if (!s[0] || !s[1]) return;
    NoiseProtocolId got; DO(noise_symmetricstate_get_protocol_id(s[0], &got)); t.put(&got, sizeof got);
    for (int i = 0; i < 5; ++i) {
        Bytes d = r.bytes(1 + r.below(300)); int k = r.below(4);
        if (k == 0) for (auto x : s) DO(noise_symmetricstate_mix_key(x, d.data(), d.size())); else if (k == 1) for (auto x : s) DO(noise_symmetricstate_mix_hash(x, d.data(), d.size()));
        else { size_t n = d.size(); d.resize(n + 16); NoiseBuffer b; noise_buffer_set_inout(b, d.data(), n, d.size()); DO(noise_symmetricstate_encrypt_and_hash(s[0], &b)); t.put(b.data, b.size); if (r.chance(1, 9)) d[r.below(b.size)] ^= 1; DO(noise_symmetricstate_decrypt_and_hash(s[1], &b)); t.put(b.data, b.size); }
    }
    NoiseCipherState *c[2][2] = {{0, 0}, {0, 0}}; for (int i = 0; i < 2; ++i) { DO(noise_symmetricstate_split(s[i], &c[i][0], &c[i][1])); noise_symmetricstate_free(s[i]); }
    for (auto &x : c) for (auto y : x) if (y) { Bytes pt = r.bytes(1 + r.below(80)), ct; DO(noise_cipherstate_set_nonce(y, r.below(1000))); DO(cs_encrypt(y, pt, ct)); t.put(ct.data(), ct.size()); noise_cipherstate_free(y); }
}
static void w_codec(Rng &r, Tr &t) {
    Bytes o(200 + r.below(3000)); NoiseProtobuf b, m; size_t end = 0, z = 0; uint8_t *p = 0; std::vector<int> what; bool meas = r.below(2); noise_protobuf_prepare_measure(&m, 65535); noise_protobuf_prepare_output(&b, o.data(), o.size()); DO(noise_protobuf_write_end_element(&b, &end));
    for (int i = r.below(25); i >= 0; --i) {
        int k = r.below(15), tag = 1 + r.below(40); uint64_t v = r.next() >> r.below(64); double d = (double)v / 7; Bytes x = r.bytes(1 + r.below(60)); for (auto &c : x) c = 'a' + c % 26;
        for (NoiseProtobuf *q : {&b, &m}) if (q == &b || meas) switch (k) {
        case 0: DO(noise_protobuf_write_int32(q, tag, (int32_t)v)); break; case 1: DO(noise_protobuf_write_uint32(q, tag, v)); break; case 2: DO(noise_protobuf_write_int64(q, tag, v)); break; case 3: DO(noise_protobuf_write_uint64(q, tag, v)); break; case 4: DO(noise_protobuf_write_sint32(q, tag, (int32_t)v)); break;
        case 5: DO(noise_protobuf_write_sint64(q, tag, v)); break; case 6: DO(noise_protobuf_write_sfixed32(q, tag, (int32_t)v)); break; case 7: DO(noise_protobuf_write_fixed32(q, tag, v)); break; case 8: DO(noise_protobuf_write_sfixed64(q, tag, v)); break; case 9: DO(noise_protobuf_write_fixed64(q, tag, v)); break;
        case 10: DO(noise_protobuf_write_float(q, tag, d)); break; case 11: DO(noise_protobuf_write_double(q, tag, d)); break; case 12: DO(noise_protobuf_write_bool(q, tag, v & 1)); break; case 13: DO(noise_protobuf_write_string(q, tag, (char *)x.data(), x.size())); break; default: DO(noise_protobuf_write_bytes(q, tag, x.data(), x.size())); }
        what.push_back(k);
    }
    DO(noise_protobuf_write_start_element(&b, 7, end)); if (meas) { DO(noise_protobuf_finish_measure(&m, &z)); t.put(&z, sizeof z); } int e = r.below(2) ? noise_protobuf_finish_output(&b, &p, &z) : noise_protobuf_finish_output_shift(&b, &p, &z); DO(e); if (e) return; t.put(p, z);
    Bytes d(p, p + z); if (r.chance(1, 4)) d[r.below(d.size())] ^= 1 << r.below(8); noise_protobuf_prepare_input(&b, d.data(), d.size()); DO(noise_protobuf_read_start_element(&b, 7, &end));
    char **sa = 0; void **ba = 0; size_t *sl = 0, *bl = 0, sn = 0, sm = 0, bn = 0, bm = 0; int *ia = 0; size_t in = 0, im = 0;
    while (!noise_protobuf_read_at_end_element(&b, end)) {
        int tag = noise_protobuf_peek_tag(&b); size_t n = noise_protobuf_peek_size(&b); DO(tag); t.put(&n, sizeof n); int k = what.size() ? what.back() : 3; if (what.size()) what.pop_back(); if (r.chance(1, 6)) k = 99; if (r.chance(1, 40)) { DO(noise_protobuf_read_stop(&b)); break; }
        int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; uint64_t u64 = 0; float fl = 0; double db = 0; int bo = 0, rc; uint8_t buf[100]; size_t got = 0;
        switch (k) {
        case 0: rc = noise_protobuf_read_int32(&b, tag, &i32); break; case 1: rc = noise_protobuf_read_uint32(&b, tag, &u32); break; case 2: rc = noise_protobuf_read_int64(&b, tag, &i64); break; case 3: rc = noise_protobuf_read_uint64(&b, tag, &u64); break; case 4: rc = noise_protobuf_read_sint32(&b, tag, &i32); break;
        case 5: rc = noise_protobuf_read_sint64(&b, tag, &i64); break; case 6: rc = noise_protobuf_read_sfixed32(&b, tag, &i32); break; case 7: rc = noise_protobuf_read_fixed32(&b, tag, &u32); break; case 8: rc = noise_protobuf_read_sfixed64(&b, tag, &i64); break; case 9: rc = noise_protobuf_read_fixed64(&b, tag, &u64); break;
        case 10: rc = noise_protobuf_read_float(&b, tag, &fl); break; case 11: rc = noise_protobuf_read_double(&b, tag, &db); break; case 12: rc = noise_protobuf_read_bool(&b, tag, &bo); break;
        case 13: if (r.below(2)) rc = noise_protobuf_read_string(&b, tag, (char *)buf, sizeof buf, &got); else { char *s = 0; rc = noise_protobuf_read_alloc_string(&b, tag, &s, 80, &got); if (!rc) { t.put(s, got); DO(noise_protobuf_add_to_string_array(&sa, &sl, &sn, &sm, s, got)); noise_protobuf_free_memory(s, got); got = 0; } } break;
        case 14: if (r.below(2)) rc = noise_protobuf_read_bytes(&b, tag, buf, sizeof buf, &got); else { void *s = 0; rc = noise_protobuf_read_alloc_bytes(&b, tag, &s, 80, &got); if (!rc) { t.put(s, got); DO(noise_protobuf_add_to_bytes_array(&ba, &bl, &bn, &bm, s, got)); noise_protobuf_free_memory(s, got); got = 0; } } break;
        default: rc = noise_protobuf_read_skip(&b); }
        DO(rc); if (rc) break; t.put(i32); t.put(u32); t.put(&i64, 8); t.put(&u64, 8); t.put(&fl, 4); t.put(&db, 8); t.put(bo); t.put(buf, got); DO(in && r.below(2) ? noise_protobuf_insert_into_array((void **)&ia, &in, &im, r.below(in), &k, sizeof k) : noise_protobuf_add_to_array((void **)&ia, &in, &im, &k, sizeof k));
    }
    DO(noise_protobuf_read_end_element(&b, end)); DO(noise_protobuf_finish_input(&b)); t.put(ia, in * sizeof *ia); free(ia); for (size_t i = 0; i < sn; ++i) free(sa[i]); for (size_t i = 0; i < bn; ++i) free(ba[i]); free(sa); free(sl); free(ba); free(bl);
}
// An IK attempt with a wrong key, and both sides going on with XXfallback.
static void w_fallback(Rng &r, Tr &t) {
    Proto p = sweep(r.below(10000), r, false, 12); bool hfs = r.chance(1, 4); std::string cn[] = {"ChaChaPoly", "AESGCM"}, hn[] = {"SHA256", "SHA512", "BLAKE2s", "BLAKE2b"}, name = (hfs ? "Noise_IKhfs_25519+25519_" : "Noise_IK_25519_") + cn[r.below(2)] + "_" + hn[r.below(4)];
    NoiseHandshakeState *h[2] = {0, 0}; Bytes k[5]; for (auto &x : k) x = r.bytes(32); Bytes q(32);
    for (int i = 0; i < 2; ++i) { DO(noise_handshakestate_new_by_name(&h[i], name.c_str(), i ? NOISE_ROLE_RESPONDER : NOISE_ROLE_INITIATOR)); if (!h[i]) return; DO(noise_dhstate_set_keypair_private(noise_handshakestate_get_local_keypair_dh(h[i]), k[i].data(), 32)); DO(noise_dhstate_set_keypair_private(noise_handshakestate_get_fixed_ephemeral_dh(h[i]), k[2 + i].data(), 32)); NoiseDHState *f = noise_handshakestate_get_fixed_hybrid_dh(h[i]); if (f) DO(noise_dhstate_set_keypair_private(f, k[4].data(), 32)); }
    noise_dhstate_get_public_key(sh->dh[0][0], q.data(), 32); DO(noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(h[0]), q.data(), 32)); for (auto x : h) DO(noise_handshakestate_start(x));
    Bytes m(2000), w(2000); NoiseBuffer mb, pb; bool fell = false;
    for (int n = 0; n < 8; ++n) {
        int a = noise_handshakestate_get_action(h[0]) == NOISE_ACTION_WRITE_MESSAGE ? 0 : noise_handshakestate_get_action(h[1]) == NOISE_ACTION_WRITE_MESSAGE ? 1 : -1; if (a < 0) break; Bytes pl = r.bytes(1 + r.below(60));
        noise_buffer_set_output(mb, m.data(), m.size()); noise_buffer_set_input(pb, pl.data(), pl.size()); int e = noise_handshakestate_write_message(h[a], &mb, &pb); DO(e); if (e) break; t.put(mb.data, mb.size); noise_buffer_set_input(mb, m.data(), mb.size); noise_buffer_set_output(pb, w.data(), w.size()); e = noise_handshakestate_read_message(h[!a], &mb, &pb); DO(e); if (!e) t.put(pb.data, pb.size);
        if (e && fell) break;
        if (e) { fell = true; for (int i = 1; i >= 0; --i) { DO(r.below(2) ? noise_handshakestate_fallback(h[i]) : noise_handshakestate_fallback_to(h[i], hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK)); DO(noise_handshakestate_start(h[i])); } }
    }
    for (auto x : h) { uint8_t z[64]; if (!noise_handshakestate_get_handshake_hash(x, z, 64)) t.put(z, 64); DO(noise_handshakestate_get_action(x)); noise_handshakestate_free(x); }
}
// Random scripts over everything (the interpreter of C07); only ThreadSanitizer judges.
static void w_api(Rng &r, Tr &) {
    Bytes b = r.bytes(r.range(60, 500)); b[0] |= 1; for (size_t k = 3; k < b.size(); k += r.range(1, 20)) if (r.chance(2, 3)) b[k] = 136 + r.below(120);
    script(b.data(), b.size(), 40);
}
// One thread runs both ends; afterwards two threads use the two directions while a third frees the handshakes.
static void w_handshake(Rng &r, Tr &t, bool threads) {
    Proto p = sweep(r.below(10000), r, false, 12); if (p.dh == D448 && r.chance(3, 4)) p.dh = D25519;
    Setup s = make_setup(p, r); NoiseHandshakeState *h[2] = {0, 0};
    for (int i = 0; i < 2; ++i) {
        bool ini = !i; NoiseProtocolId id = proto_id(p); int role = ini ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER; DO(r.below(2) ? noise_handshakestate_new_by_id(&h[i], &id, role) : noise_handshakestate_new_by_name(&h[i], p.name().c_str(), role)); if (!h[i]) return;
        s.prologue.push_back(1); DO(noise_handshakestate_set_prologue(h[i], s.prologue.data(), s.prologue.size() - 1)); s.prologue.pop_back(); if (p.psk) DO(noise_handshakestate_set_pre_shared_key(h[i], s.psk.data(), 32));
        int c = p.dh == D448; if (p.owns_static(ini)) DO(noise_dhstate_copy(noise_handshakestate_get_local_keypair_dh(h[i]), sh->dh[c][i]));
        if (p.knows_remote_static_first(ini)) { Bytes k(c ? 56 : 32); DO(noise_dhstate_get_public_key(sh->dh[c][!i], k.data(), k.size())); DO(noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(h[i]), k.data(), k.size())); }
        NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(h[i]); const Bytes &e = i ? s.re : s.ie, &f = i ? s.rf : s.iff; if (d) DO(noise_dhstate_set_keypair_private(d, e.data(), e.size()));
        d = noise_handshakestate_get_fixed_hybrid_dh(h[i]); if (d && f.size()) DO(noise_dhstate_set_keypair_private(d, f.data(), f.size()));
    }
    for (auto x : h) DO(noise_handshakestate_start(x));
    Bytes m(65535), q(65535);
    for (int n = 0; n < 20; ++n) {
        int w = noise_handshakestate_get_action(h[0]) == NOISE_ACTION_WRITE_MESSAGE ? 0 : noise_handshakestate_get_action(h[1]) == NOISE_ACTION_WRITE_MESSAGE ? 1 : -1; if (w < 0) break;
        Bytes pl = r.bytes(1 + r.below(200)); NoiseBuffer mb, pb; noise_buffer_set_output(mb, m.data(), m.size()); noise_buffer_set_input(pb, pl.data(), pl.size()); int e = noise_handshakestate_write_message(h[w], &mb, &pb); DO(e); if (e) break; t.put(mb.data, mb.size); sched_yield();
        noise_buffer_set_input(mb, m.data(), mb.size); noise_buffer_set_output(pb, q.data(), q.size()); e = noise_handshakestate_read_message(h[!w], &mb, &pb); DO(e); if (e) break; t.put(pb.data, pb.size);
    }
    NoiseCipherState *c[2][2] = {{0, 0}, {0, 0}}; bool ok = true;
    for (int i = 0; i < 2; ++i) { int e = noise_handshakestate_split(h[i], &c[i][0], &c[i][1]); DO(e); ok = ok && !e; uint8_t hh[64]; if (!e) { noise_handshakestate_get_handshake_hash(h[i], hh, 64); t.put(hh, 64); } }
    Tr d[2]; uint64_t seed = r.next();
    auto dir = [&](int i) {      // everything sent from end i to the other
        Rng x(seed, i); Tr &o = d[i]; for (int n = 0; ok && n < 6; ++n) { Bytes pt = x.bytes(1 + x.below(400)), ct, b; o.put(cs_encrypt(c[i][0], pt, ct)); o.put(ct.data(), ct.size()); o.put(cs_decrypt(c[!i][1], ct, b)); o.put(b.data(), b.size()); }
        if (ok) { noise_cipherstate_free(c[i][0]); noise_cipherstate_free(c[!i][1]); } };
    auto fin = [&] { for (auto x : h) noise_handshakestate_free(x); };
    if (threads) { std::thread a(dir, 0), b(dir, 1), f(fin); a.join(); b.join(); f.join(); } else { dir(0); dir(1); fin(); }
    for (auto &x : d) t.put(x.log.data(), x.log.size());
}
static const char *W[] = {"shared", "hash", "cipher", "newhope", "rand", "names", "object", "files", "keys", "symmetric", "codec", "fallback", "api", "handshake", "save"};
enum { NW = 14, HS = NW - 1, SAVE = NW };
static void work(int k, Rng r, Tr &t, bool threads) {
    switch (k) { case 0: w_shared(r, t); break; case 1: w_hash(r, t); break; case 2: w_cipher(r, t); break; case 3: w_newhope(r, t); break; case 4: w_rand(r, t); break; case 5: w_names(r, t); break; case 6: w_object(r, t); break; case 7: w_files(r, t); break; case 8: w_keys(r, t); break; case 9: w_symmetric(r, t); break; case 10: w_codec(r, t); break; case 11: w_fallback(r, t); break; case 12: w_api(r, t); break; case SAVE: w_save(r, t); break; default: w_handshake(r, t, threads); }
}
static void body(uint64_t i, Rng &r) {
    // The first case of a process meets the library untouched: by concurrent noise_init(), or with none at all.
    bool raw = !sh && i % 2 && strcmp(VH_BACKEND, "sodium");
    if (!sh && !raw) {
        std::atomic<int> go{0}; std::vector<std::thread> v; int e[6]; for (int j = 0; j < 6; ++j) v.emplace_back([&, j] { ++go; while (go < 6) sched_yield(); e[j] = noise_init(); }); for (auto &x : v) x.join();
        for (int x : e) if (x) viol("init", "noise_init gave %x", x);
        ev("concurrent_inits"); sh = new Shared(r);
    }
    bool same = i % 2 || i % 5 == 0; int n = 4 + r.below(3); std::string what; std::vector<std::vector<std::pair<int, Rng>>> plan(n); std::vector<std::vector<Tr>> res(n), ref(n); int k0 = r.below(NW); static const int R[] = {1, 2, 8, 3, 9, 4, 10, 5, 12, 6}; if (raw) { same = true; ev("untouched_starts"); }
    for (int a = 0; a < n; ++a) for (int j = 0; j < 3; ++j) { int k = same ? raw ? R[(k0 + j) % 10] : (k0 + j) % NW : r.chance(1, 4) ? (int)HS : (int)r.below(NW); plan[a].push_back({k, Rng(r.next(), 1)}); what += std::to_string(k); }
    if (!raw && i % 24 == 10) plan[0][0].first = plan[1][0].first = SAVE;
    describe((same ? "same work " : "mixed work ") + what); sig(what + hex(r.bytes(8)));
    for (auto &x : res) x.resize(3); for (auto &x : ref) x.resize(3);
    std::atomic<int> go{0}; std::vector<std::thread> th;
    for (int a = 0; a < n; ++a) th.emplace_back([&, a] { ++go; while (go < n) sched_yield(); for (int j = 0; j < 3; ++j) work(plan[a][j].first, plan[a][j].second, res[a][j], true); });
    for (auto &x : th) x.join();
    if (!sh) sh = new Shared(r);
    for (int a = 0; a < n; ++a) for (int j = 0; j < 3; ++j) {
        work(plan[a][j].first, plan[a][j].second, ref[a][j], false); eval(); ev(std::string("compared_") + W[plan[a][j].first]);
        if (ref[a][j].log != res[a][j].log) { size_t d = 0; auto &p = ref[a][j].log, &q = res[a][j].log; while (d < p.size() && d < q.size() && p[d] == q[d]) ++d; viol(fmt("differs:%s", W[plan[a][j].first]), "%s in one of %d threads gave a different result than alone, from byte %zu of %zu", W[plan[a][j].first], n, d, p.size()); }
    }
    ev("threads", n); ev("results_compared", 3 * n); sample(fmt("%d threads, %s", n, what.c_str()));
}
int main(int argc, char **argv) {
    describe_all(); patterns(); { Rng q(1, 1); sweep(0, q); } char d[] = "/tmp/c21-XXXXXX"; if (!mkdtemp(d)) die("mkdtemp"); scratch = d;
    Rng kr(4711, 1); Bytes salt = kr.bytes(16), k(40), plain; plain.push_back(0x0a); plain.push_back(3); plain.insert(plain.end(), {'a', 'b', 'c'});
    PKCS5_PBKDF2_HMAC("pw", 2, salt.data(), 16, 2, oracle::md(oracle::BLAKE2s), 40, k.data()); uint64_t nn = 0; for (int i = 0; i < 8; ++i) nn = nn << 8 | k[32 + i];
    pb::Obj e(&Noise_EncryptedPrivateKey_d); std::string alg = "ChaChaPoly_BLAKE2s_PBKDF2"; e.v[0].n = 1; e.v[1].has = e.v[2].has = e.v[4].has = true; e.v[1].b = Bytes(alg.begin(), alg.end()); e.v[2].b = salt; e.v[3].n = 2;
    e.v[4].b = oracle::aead(oracle::ChaChaPoly, Bytes(k.begin(), k.begin() + 32), nn, Bytes(), plain); bool bad = false; pb::enc(keyfile, e, bad);
    int rc = run(argc, argv, body, 300); delete sh; rmdir(d); return rc;
}
