// C11: encrypted private keys against an independent writer and reader.
#include "keyfile.hpp"
#include <noise/keys/loader.h>
#include <sys/stat.h>
#include <sys/types.h>
static std::set<Bytes> salts;

static Bytes genpass(Rng &r) {
    size_t n = r.chance(1, 8) ? 0 : r.chance(1, 6) ? 60 + r.below(80) : r.chance(1, 10) ? 200 + r.below(900) : 1 + r.below(30);
    Bytes b = r.bytes(n); if (r.chance(1, 2)) for (auto &x : b) x = 0x21 + x % 0x5e;
    if (n && !b[n - 1]) b[n - 1] = 1;                       // HMAC keys are padded with zeroes
    return b;
}
static Bytes otherpass(Rng &r, const Bytes &pw, bool &same) {
    Bytes o = pw;
    switch (r.below(6)) {
    case 0: if (o.size()) o[r.below(o.size())] ^= 1 << r.below(8); else o.push_back('x'); break;
    case 1: if (o.size()) o.resize(r.below(o.size())); else o.push_back(1 + r.below(255)); break;
    case 2: o.push_back(1 + r.below(255)); break;
    case 3: if (o.size() > 1) std::swap(o[0], o[o.size() - 1]); break;
    case 4: o.insert(o.begin(), 1 + r.below(255)); break;
    default: o = genpass(r);
    }
    if (o.size() && !o.back()) o.back() = 7;
    same = o == pw;
    return o;
}
static void makekey(Rng &r, void *&o, POb &m, Bytes &plain, bool &bad) {
    Noise_PrivateKey_d.mk(&o); m.reset(new Obj(&Noise_PrivateKey_d));
    int n = 3 + r.below(25); for (int i = 0; i < n; ++i) pb::mutate(r, o, *m, 0);
    // one key that is certainly secret
    void *k = 0; Noise_PrivateKey_add_keys((Noise_PrivateKey *)o, (Noise_PrivateKeyInfo **)&k); POb s(new Obj(&Noise_PrivateKeyInfo_d));
    Bytes sec = r.bytes(r.chance(1, 3) ? 56 : 32); Noise_PrivateKeyInfo_set_key((Noise_PrivateKeyInfo *)k, sec.data(), sec.size());
    Noise_PrivateKeyInfo_set_algorithm((Noise_PrivateKeyInfo *)k, "25519", 5); s->v[1].b = sec; s->v[1].has = true; s->v[0].b = Bytes({'2','5','5','1','9'}); s->v[0].has = true;
    m->v[3].ms.push_back(s);
    plain.clear(); bad = false; pb::enc(plain, *m, bad);
}
static void check_loaded(Rng &r, const Bytes &file, const Bytes &pw, const char *what) {
    Bytes plain; int want = judge(file, pw, plain);
    if (want == -2) { ev("not_judged"); return; }
    describe(fmt("%s: load %s", what, hex(file, 150).c_str()));
    pb::Exact x(file), p(pw); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n);
    Noise_PrivateKey *k = (Noise_PrivateKey *)1;
    int e = noise_load_private_key_from_buffer(&k, &b, p.p, p.n); eval();
    if (want == -1 ? e == 0 : e != want) viol(fmt("load-%s-%d-%d", what, want, e), "%s: loading gave %d, expected %d: %s", what, e, want, hex(file, 200).c_str());
    if (e && k) viol("load-object-on-error", "%s: an object comes with error %d", what, e);
    if (!e && want == 0) {
        if (!k) { viol("load-no-object", "%s: no object", what); return; }
        pb::Dec d2{plain}; Obj m(&Noise_PrivateKey_d); size_t q = 0; d2.msg(q, plain.size(), m);
        pb::same(k, m, "after loading"); ev("keys_loaded");
    } else if (want > 0 || want == -1) ev(fmt("refused_%s", want == NOISE_ERROR_MAC_FAILURE ? "mac" : want == NOISE_ERROR_UNKNOWN_NAME ? "name" : "format"));
    if (!e) Noise_PrivateKey_free(k);
}
static void save_case(Rng &r) {
    void *o; POb m; Bytes plain; bool bad; makekey(r, o, m, plain, bad);
    Noise_PrivateKey *key = (Noise_PrivateKey *)o;
    int c = r.below(2), h = r.below(4); std::string alg = std::string(CN[c]) + "_" + HN[h] + "_PBKDF2"; Bytes pw = genpass(r);
    bool badalg = r.chance(1, 8);
    if (badalg) { static const char *bn[] = {"", "_", "__", "ChaChaPoly", "ChaChaPoly_BLAKE2s", "ChaChaPoly_BLAKE2s_", "ChaChaPoly_BLAKE2s_PBKDF", "ChaChaPoly_BLAKE2s_PBKDF22",
        "chachapoly_BLAKE2s_PBKDF2", "ChaChaPoly_blake2s_PBKDF2", "BLAKE2s_ChaChaPoly_PBKDF2", "25519_BLAKE2s_PBKDF2", "ChaChaPoly_AESGCM_PBKDF2", "ChaChaPoly__PBKDF2", "_BLAKE2s_PBKDF2",
        "ChaChaPoly_BLAKE2s_Scrypt", " ChaChaPoly_BLAKE2s_PBKDF2", "ChaChaPoly_BLAKE2s_PBKDF2_", "Noise_BLAKE2s_PBKDF2"}; alg = bn[r.below(sizeof bn / sizeof *bn)]; }
    sig("save" + alg + hex(plain, 300)); sample(fmt("save %s, %zu bytes of key data, %zu bytes of passphrase", alg.c_str(), plain.size(), pw.size()));
    describe(fmt("save %s %zu bytes", alg.c_str(), plain.size()));
    size_t need = plain.size() + 16; { Bytes t; putv(t, need); need += 1 + t.size(); } need += 2 + 1 + 1 + alg.size() + 1 + 1 + 16 + 1 + 3;
    // the size has to be within a few bytes of this; short buffers are those clearly below
    bool small = !bad && !badalg && r.chance(1, 3);
    size_t room = small ? r.below(need) : need + 40 + r.below(50);
    bool file = !small && r.chance(1, 4);
    pb::Exact p(pw); Bytes out; int e;
    if (file) {
        char dir[] = "/tmp/c11XXXXXX"; if (!mkdtemp(dir)) die("mkdtemp"); std::string fn = std::string(dir) + "/key";
        e = noise_save_private_key_to_file(key, fn.c_str(), p.p, p.n, alg.c_str());
        if (FILE *f = fopen(fn.c_str(), "rb")) { int ch; while ((ch = fgetc(f)) != EOF) out.push_back(ch); fclose(f); if (e) viol("file-on-error", "error %d but a file was left with %zu bytes", e, out.size()); }
        if (!e) {
            Noise_PrivateKey *k2 = 0; int e2 = noise_load_private_key_from_file(&k2, fn.c_str(), p.p, p.n);
            if (e2 || !k2) viol("file-roundtrip", "loading the saved file gave %d", e2); else { pb::same(k2, *m, "from file"); Noise_PrivateKey_free(k2); ev("files_loaded"); }
            bool same; Bytes wp = otherpass(r, pw, same); k2 = 0; pb::Exact wx(wp);
            if (!same) { e2 = noise_load_private_key_from_file(&k2, fn.c_str(), wx.p, wx.n); if (e2 != NOISE_ERROR_MAC_FAILURE || k2) viol("file-wrong-pass", "wrong passphrase gave %d", e2); ev("wrong_passphrases"); }
        }
        unlink(fn.c_str()); rmdir(dir);
    } else {
        Guard g(room); NoiseProtobuf b; noise_protobuf_prepare_output(&b, g.p, g.n);
        e = noise_save_private_key_to_buffer(key, &b, p.p, p.n, alg.c_str());
        if (!g.intact()) viol("save-overrun", "wrote outside the buffer");
        if (leaks(g.p, g.n, plain)) viol(e ? "plaintext-left-after-error" : "plaintext-left", "the caller's buffer holds private key data after saving (error %d)", e);
        ev("buffers_searched");
        if (!e) { uint8_t *dp; size_t sz; int e2 = noise_protobuf_finish_output(&b, &dp, &sz); if (e2) viol("save-finish", "finish gave %d", e2); else out.assign(dp, dp + sz); }
    }
    int want = badalg ? NOISE_ERROR_UNKNOWN_NAME : bad ? NOISE_ERROR_INVALID_FORMAT : small ? NOISE_ERROR_INVALID_LENGTH : 0;
    if (e != want) viol(fmt("save-%d-%d", want, e), "saving gave %d, expected %d (%s, room %zu of about %zu)", e, want, alg.c_str(), room, need);
    eval();
    if (e) { ev("saves_refused"); Noise_PrivateKey_free(key); return; }
    ev("keys_saved");
    // the independent reader
    pb::Dec dec{out}; Obj en(&Noise_EncryptedPrivateKey_d); size_t q = 0;
    if (!dec.msg(q, out.size(), en)) { viol("save-format", "what was saved does not parse"); }
    else {
        auto &v = en.v;
        if (v[VERSION].n != 1 || std::string(v[ALG].b.begin(), v[ALG].b.end()) != alg) viol("save-fields", "version %llu algorithm %s", (unsigned long long)v[VERSION].n, hex(v[ALG].b).c_str());
        if (v[SALT].b.size() < 16) viol("salt-short", "a salt of %zu bytes", v[SALT].b.size());
        if (v[ITER].n < 10000) viol("iterations", "only %llu iterations", (unsigned long long)v[ITER].n);
        if (!salts.insert(v[SALT].b).second) viol("salt-repeated", "the same salt was used twice");
        Bytes z(v[SALT].b.size(), 0); if (v[SALT].b == z) viol("salt-zero", "an all-zero salt");
        for (size_t i = 0; i + 8 <= v[SALT].b.size(); i += 8) if (!memcmp(&v[SALT].b[i], z.data(), 8)) viol("salt-zero-part", "half of the salt is zero");
        Bytes pl; int j = judge(out, pw, pl);
        if (j || pl != plain) viol("save-content", "independent decryption gave %d", j);
        ev("saved_decrypted_independently");
    }
    for (int i = 0; i < 2; ++i) { bool same; Bytes wp = otherpass(r, pw, same); if (same) continue; check_loaded(r, out, wp, "wrongpass"); ev("wrong_passphrases"); }
    check_loaded(r, out, pw, "saved");
    Noise_PrivateKey_free(key);
}
static void load_case(Rng &r) {
    void *o; POb m; Bytes plain; bool bad; makekey(r, o, m, plain, bad); Noise_PrivateKey_free((Noise_PrivateKey *)o);
    int c = r.below(2), h = r.below(4); std::string alg = std::string(CN[c]) + "_" + HN[h] + "_PBKDF2"; Bytes pw = genpass(r);
    Bytes salt = r.bytes(r.chance(1, 6) ? r.below(3) : r.below(80)); uint32_t it = 1 + r.below(r.chance(1, 4) ? 60 : 4);
    if (r.chance(1, 10)) pb::damage(r, plain);              // authentic but malformed
    Bytes f = seal(c, h, pw, salt, it, plain, alg);
    sig("load" + hex(f, 300)); sample(fmt("load %s, salt of %zu, %u iterations, %zu bytes", alg.c_str(), salt.size(), it, f.size()));
    check_loaded(r, f, pw, "genuine");
    bool same; Bytes wp = otherpass(r, pw, same); if (!same) { check_loaded(r, f, wp, "wrongpass"); ev("wrong_passphrases"); }
    for (int k = 0; k < 12; ++k) {
        Bytes t = f; const char *what;
        switch (r.below(8)) {
        case 0: case 1: case 2: t[r.below(t.size())] ^= 1 << r.below(8); what = "bitflip"; break;
        case 3: t.resize(r.below(t.size())); what = "truncated"; break;
        case 4: pb::damage(r, t); what = "damaged"; break;
        case 5: { std::string a2 = std::string(CN[r.below(2)]) + "_" + HN[r.below(4)] + "_PBKDF2"; if (r.chance(1, 2)) { a2 = alg; switch (r.below(5)) { case 0: a2 += "2"; break; case 1: a2.resize(r.below(a2.size())); break;
                    case 2: a2[r.below(a2.size())] ^= 0x20; break; case 3: a2.insert(r.below(a2.size()), "_"); break; default: a2 = " " + a2; } }
                  t = seal(c, h, pw, salt, it, plain, a2); what = "algorithm"; break; }
        case 6: t = seal(c, h, pw, salt, it, plain, alg, r.chance(1, 2) ? 0 : r.chance(1, 2) ? 2 : (uint32_t)r.next()); what = "version"; break;
        default: { // a missing field
            pb::Dec dec{f}; Obj en(&Noise_EncryptedPrivateKey_d); size_t q = 0; dec.msg(q, f.size(), en); int w = r.below(5); en.v[w].n = 0; en.v[w].has = r.chance(1, 3); en.v[w].b.clear(); bool b2; t.clear(); pb::enc(t, en, b2); what = "missing"; }
        }
        check_loaded(r, t, pw, what);
    }
    if (r.chance(1, 6)) {
        NoiseProtobuf b; pb::Exact x(f); Noise_PrivateKey *k = (Noise_PrivateKey *)1; const int IP = NOISE_ERROR_INVALID_PARAM;
        noise_protobuf_prepare_input(&b, x.p, x.n); bool ok = noise_load_private_key_from_buffer(0, &b, "a", 1) == IP; ok &= noise_load_private_key_from_buffer(&k, 0, "a", 1) == IP && !k;
        k = (Noise_PrivateKey *)1; ok &= noise_load_private_key_from_buffer(&k, &b, 0, 0) == IP && !k;
        Noise_PrivateKey *n; Noise_PrivateKey_new(&n); Guard g(200); noise_protobuf_prepare_output(&b, g.p, g.n);
        ok &= noise_save_private_key_to_buffer(0, &b, "a", 1, alg.c_str()) == IP && noise_save_private_key_to_buffer(n, 0, "a", 1, alg.c_str()) == IP && noise_save_private_key_to_buffer(n, &b, 0, 1, alg.c_str()) == IP && noise_save_private_key_to_buffer(n, &b, "a", 1, 0) == IP;
        ok &= noise_save_private_key_to_file(0, "/nonexistent/x", "a", 1, alg.c_str()) == IP && noise_save_private_key_to_file(n, 0, "a", 1, alg.c_str()) == IP && noise_save_private_key_to_file(n, "/nonexistent/x", 0, 1, alg.c_str()) == IP && noise_save_private_key_to_file(n, "/nonexistent/x", "a", 1, 0) == IP;
        k = 0; ok &= noise_load_private_key_from_file(&k, 0, "a", 1) == IP && !k;
        ok &= noise_save_private_key_to_file(n, "/nonexistent/x", "a", 1, alg.c_str()) == NOISE_ERROR_SYSTEM && noise_load_private_key_from_file(&k, "/nonexistent/x", "a", 1) == NOISE_ERROR_SYSTEM && !k;
        if (!ok) viol("null", "null arguments or missing files not refused as documented"); Noise_PrivateKey_free(n); ev("null_arguments_refused");
    }
}
// Keys around the longest that can be encrypted, and around the longest file.
static void long_case(Rng &r) {
    Noise_PrivateKey *k; Noise_PrivateKey_new(&k); std::string alg = std::string(CN[r.below(2)]) + "_" + HN[r.below(4)] + "_PBKDF2";
    size_t head = 2 + (2 + alg.size()) + (2 + 16) + (1 + 3) + (1 + 3), cap = r.chance(1, 2) ? 65535 : 65535 - head; size_t over = 4; size_t n = cap - 16 - over + (size_t)r.below(31) - 15;
    Bytes big(n, 'n'); Noise_PrivateKey_set_name(k, (const char *)big.data(), n);
    size_t plain = n + 4; describe(fmt("long key %zu %s", plain, alg.c_str())); sig(fmt("long %zu %s", plain, alg.c_str()));
    Guard g(90000); NoiseProtobuf b; noise_protobuf_prepare_output(&b, g.p, g.n);
    int e = noise_save_private_key_to_buffer(k, &b, "pw", 2, alg.c_str());
    bool fits = plain + 16 <= 65535; eval();
    if (fits ? e != 0 : e != NOISE_ERROR_INVALID_LENGTH) viol("long-key", "private key data of %zu bytes: error %d", plain, e);
    if (memmem(g.p, g.n, std::string(64, 'n').data(), 64)) viol("plaintext-left-long", "private key data of %zu bytes stays in the buffer (error %d)", plain, e);
    ev(fits ? "longest_saved" : "overlong_refused");
    // files hold at most 65535 bytes
    size_t total = head + plain + 16; if (!e) { uint8_t *dp; size_t sz; if (noise_protobuf_finish_output(&b, &dp, &sz) || sz != total) viol("long-size", "%zu bytes of key data take %zu bytes, expected %zu", plain, sz, total); }
    char dir[] = "/tmp/c11XXXXXX"; if (!mkdtemp(dir)) die("mkdtemp"); std::string fn = std::string(dir) + "/key";
    e = noise_save_private_key_to_file(k, fn.c_str(), "pw", 2, alg.c_str()); struct stat st; bool there = !stat(fn.c_str(), &st); eval();
    if (total <= 65535 ? e != 0 : e != NOISE_ERROR_INVALID_LENGTH) viol("long-file", "a key file of %zu bytes: error %d", total, e);
    if (e ? there : !there || (size_t)st.st_size != total) viol("long-file-size", "a key file of %zu bytes: error %d, file %s of %zu bytes", total, e, there ? "made" : "not made", there ? (size_t)st.st_size : 0);
    if (!e) { Noise_PrivateKey *l = 0; int e2 = noise_load_private_key_from_file(&l, fn.c_str(), "pw", 2); if (e2 || !l || Noise_PrivateKey_get_size_name(l) != n || memcmp(Noise_PrivateKey_get_name(l), big.data(), n)) viol("long-file-load", "a key file of %zu bytes does not load: %d", total, e2); if (l) Noise_PrivateKey_free(l); ev("longest_files"); }
    else ev("overlong_files_refused");
    unlink(fn.c_str()); rmdir(dir); Noise_PrivateKey_free(k);
}
int main(int argc, char **argv) {
    describe_all(); noise_init();
    return run(argc, argv, [](uint64_t i, Rng &r) { if (i % 61 == 5) long_case(r); else if (i % 7 == 0) save_case(r); else load_case(r); });
}
