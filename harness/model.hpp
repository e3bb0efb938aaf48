// Executable model of the Noise handshake (revision 30 with the extensions noise-c
// documents: noidh, hfs, XXfallback), written from the specification on top of the oracle.
#ifndef MODEL_HPP
#define MODEL_HPP
#include "oracle.hpp"
#include "newhope_oracle.hpp"
#include <noise/protocol/constants.h>

namespace model {
using oracle::Hash; using oracle::Cipher;
enum DhAlg { D25519, D448, DNewHope, DNone };

struct PatSpec { const char *name; int id; const char *msgs; bool is_pre, rs_pre; bool fallback; };
// is_pre: initiator static known beforehand; rs_pre: responder static known beforehand.
inline const std::vector<PatSpec> &patterns() {
    static std::vector<PatSpec> p = {
        {"N", NOISE_PATTERN_N, "e es", 0, 1, 0},
        {"X", NOISE_PATTERN_X, "e es s ss", 0, 1, 0},
        {"K", NOISE_PATTERN_K, "e es ss", 1, 1, 0},
        {"NN", NOISE_PATTERN_NN, "e | e ee", 0, 0, 0},
        {"NK", NOISE_PATTERN_NK, "e es | e ee", 0, 1, 0},
        {"NX", NOISE_PATTERN_NX, "e | e ee s es", 0, 0, 0},
        {"XN", NOISE_PATTERN_XN, "e | e ee | s se", 0, 0, 0},
        {"XK", NOISE_PATTERN_XK, "e es | e ee | s se", 0, 1, 0},
        {"XX", NOISE_PATTERN_XX, "e | e ee s es | s se", 0, 0, 0},
        {"KN", NOISE_PATTERN_KN, "e | e ee se", 1, 0, 0},
        {"KK", NOISE_PATTERN_KK, "e es ss | e ee se", 1, 1, 0},
        {"KX", NOISE_PATTERN_KX, "e | e ee se s es", 1, 0, 0},
        {"IN", NOISE_PATTERN_IN, "e s | e ee se", 0, 0, 0},
        {"IK", NOISE_PATTERN_IK, "e es s ss | e ee se", 0, 1, 0},
        {"IX", NOISE_PATTERN_IX, "e s | e ee se s es", 0, 0, 0},
        {"XXfallback", NOISE_PATTERN_XX_FALLBACK, "e ee s se | s es", 0, 0, 1},
        {"Xnoidh", NOISE_PATTERN_X_NOIDH, "e s es ss", 0, 1, 0},
        {"NXnoidh", NOISE_PATTERN_NX_NOIDH, "e | e s ee es", 0, 0, 0},
        {"XXnoidh", NOISE_PATTERN_XX_NOIDH, "e | e s ee es | s se", 0, 0, 0},
        {"KXnoidh", NOISE_PATTERN_KX_NOIDH, "e | e s ee se es", 1, 0, 0},
        {"IKnoidh", NOISE_PATTERN_IK_NOIDH, "e s es ss | e ee se", 0, 1, 0},
        {"IXnoidh", NOISE_PATTERN_IX_NOIDH, "e s | e s ee se es", 0, 0, 0},
        {"NNhfs", NOISE_PATTERN_NN_HFS, "e f | e f ee ff", 0, 0, 0},
        {"NKhfs", NOISE_PATTERN_NK_HFS, "e f es | e f ee ff", 0, 1, 0},
        {"NXhfs", NOISE_PATTERN_NX_HFS, "e f | e f ee ff s es", 0, 0, 0},
        {"XNhfs", NOISE_PATTERN_XN_HFS, "e f | e f ee ff | s se", 0, 0, 0},
        {"XKhfs", NOISE_PATTERN_XK_HFS, "e f es | e f ee ff | s se", 0, 1, 0},
        {"XXhfs", NOISE_PATTERN_XX_HFS, "e f | e f ee ff s es | s se", 0, 0, 0},
        {"KNhfs", NOISE_PATTERN_KN_HFS, "e f | e f ee ff se", 1, 0, 0},
        {"KKhfs", NOISE_PATTERN_KK_HFS, "e f es ss | e f ee ff se", 1, 1, 0},
        {"KXhfs", NOISE_PATTERN_KX_HFS, "e f | e f ee ff se s es", 1, 0, 0},
        {"INhfs", NOISE_PATTERN_IN_HFS, "e f s | e f ee ff se", 0, 0, 0},
        {"IKhfs", NOISE_PATTERN_IK_HFS, "e f es s ss | e f ee ff se", 0, 1, 0},
        {"IXhfs", NOISE_PATTERN_IX_HFS, "e f s | e f ee ff se s es", 0, 0, 0},
        {"XXfallback+hfs", NOISE_PATTERN_XX_FALLBACK_HFS, "e f ee ff s se | s es", 0, 0, 1},
        {"NXnoidh+hfs", NOISE_PATTERN_NX_NOIDH_HFS, "e f | e f s ee ff es", 0, 0, 0},
        {"XXnoidh+hfs", NOISE_PATTERN_XX_NOIDH_HFS, "e f | e f s ee ff es | s se", 0, 0, 0},
        {"KXnoidh+hfs", NOISE_PATTERN_KX_NOIDH_HFS, "e f | e f s ee ff se es", 1, 0, 0},
        {"IKnoidh+hfs", NOISE_PATTERN_IK_NOIDH_HFS, "e f s es ss | e f ee ff se", 0, 1, 0},
        {"IXnoidh+hfs", NOISE_PATTERN_IX_NOIDH_HFS, "e f s | e f s ee ff se es", 0, 0, 0},
    };
    return p;
}
inline const PatSpec *pattern_by_id(int id) { for (auto &p : patterns()) if (p.id == id) return &p; return nullptr; }
inline bool is_hfs(const PatSpec &p) { return strstr(p.name, "hfs") != nullptr; }

struct Proto {
    const PatSpec *pat = nullptr; bool psk = false; DhAlg dh = D25519, hybrid = DNone; Cipher c = oracle::ChaChaPoly; Hash h = oracle::SHA256;
    static const char *dhname(DhAlg d) { return d == D25519 ? "25519" : d == D448 ? "448" : "NewHope"; }
    std::string name() const {
        static const char *hn[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
        std::string s = psk ? "NoisePSK_" : "Noise_";
        s += pat->name; s += "_"; s += dhname(dh);
        if (hybrid != DNone) { s += "+"; s += dhname(hybrid); }
        s += c == oracle::ChaChaPoly ? "_ChaChaPoly_" : "_AESGCM_";
        return s + hn[h];
    }
    bool has(const char *tok) const { std::string m = std::string(" ") + pat->msgs + " "; return m.find(std::string(" ") + tok + " ") != std::string::npos; }
    // who sends / owns what
    bool owns_static(bool initiator) const {
        if (initiator ? pat->is_pre : pat->rs_pre) return true;
        bool ini = true;
        std::string m(pat->msgs); size_t i = 0;
        while (i < m.size()) { size_t j = m.find(' ', i); if (j == std::string::npos) j = m.size(); std::string t = m.substr(i, j - i); i = j + 1;
            if (t == "|") ini = !ini; else if (t == "s" && ini == initiator) return true; }
        return false;
    }
    bool knows_remote_static_first(bool initiator) const { return initiator ? pat->rs_pre : pat->is_pre; }
    int messages() const { int n = 1; for (const char *p = pat->msgs; *p; ++p) n += *p == '|'; return n; }
};
inline int dh_id(DhAlg d) { return d == D25519 ? NOISE_DH_CURVE25519 : d == D448 ? NOISE_DH_CURVE448 : d == DNewHope ? NOISE_DH_NEWHOPE : 0; }
inline int cipher_id(Cipher c) { return c == oracle::ChaChaPoly ? NOISE_CIPHER_CHACHAPOLY : NOISE_CIPHER_AESGCM; }
inline int hash_id(Hash h) { int t[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}; return t[h]; }
// A random supported protocol. NewHope is ephemeral-only, hence NN only, and as a hybrid it is slow to model.
inline bool valid(const Proto &p) {
    if (is_hfs(*p.pat) != (p.hybrid != DNone)) return false;
    if (p.dh == DNewHope && strcmp(p.pat->name, "NN") && strcmp(p.pat->name, "NNhfs")) return false;
    return true;
}

struct Key {
    DhAlg alg = DNone; Bytes priv, pub; newhope::Alice nh; Bytes nhshared; bool have = false;
    void clear() { *this = Key(); }
};
inline size_t privlen(DhAlg d, bool alice) { return d == D25519 ? 32 : d == D448 ? 56 : alice ? 64 : 32; }
inline size_t publen(DhAlg d, bool alice) { return d == D25519 ? 32 : d == D448 ? 56 : alice ? 1824 : 2048; }
// peer: the public key already received, if any (NewHope's responder depends on it)
inline Key make_key(DhAlg d, const Bytes &priv, bool alice, const Bytes &peer) {
    Key k; k.alg = d; k.priv = priv; k.have = true;
    if (d != DNewHope) k.pub = oracle::dh_public(d == D25519 ? oracle::X25519 : oracle::X448, priv);
    else if (alice) { k.nh = newhope::keygen(priv); k.pub = k.nh.pub; }
    else newhope::sharedb(priv, peer, k.pub, k.nhshared);
    return k;
}
inline Bytes shared(const Key &mine, const Bytes &theirs) {
    if (mine.alg == DNewHope) { Bytes o = mine.nhshared.empty() ? newhope::shareda(mine.nh.s, theirs) : mine.nhshared; if (oracle::on_secret()) oracle::on_secret()("newhope-shared", o); return o; }
    Bytes o; oracle::dh(mine.alg == D25519 ? oracle::X25519 : oracle::X448, mine.priv, theirs, o); return o;
}

struct Sym {
    Hash h; Cipher c; Bytes ck, hh, k; bool has = false; uint64_t n = 0;
    void init(Hash h_, Cipher c_, const std::string &name) {
        h = h_; c = c_; has = false; n = 0; k.clear();
        Bytes nm(name.begin(), name.end());
        if (nm.size() <= oracle::hashlen(h)) { hh = nm; hh.resize(oracle::hashlen(h), 0); } else hh = oracle::hash(h, nm);
        ck = hh;
    }
    void mixHash(const Bytes &d) { hh = oracle::hash(h, hh, d); }
    void mixKey(const Bytes &d) { Bytes a, b; oracle::hkdf2(h, ck, d, a, b); ck = a; b.resize(32); k = b; has = true; n = 0; }
    Bytes enc(const Bytes &pt) { Bytes o = has ? oracle::aead(c, k, n++, hh, pt) : pt; mixHash(o); return o; }
    bool dec(const Bytes &ct, Bytes &pt) {
        if (!has) pt = ct; else { if (!oracle::aead_open(c, k, n, hh, ct, pt)) return false; ++n; }
        mixHash(ct); return true;
    }
    void split(Bytes &k1, Bytes &k2) { oracle::hkdf2(h, ck, Bytes(), k1, k2); k1.resize(32); k2.resize(32); }
    size_t mac() const { return has ? 16 : 0; }
};

struct Party {
    Proto p; bool initiator; Sym sym; Key s, e, f; Bytes rs, re, rf;
    Bytes prologue, psk; bool have_psk = false; bool after_fallback = false;
    std::vector<std::vector<std::string>> msgs; size_t idx = 0;
    // ephemerals to use, in order of use
    Bytes e_priv, f_priv;
    bool null_e = false, null_f = false;   // a peer that sends null ephemerals
    void setup(const Proto &pr, bool ini) {
        p = pr; initiator = ini; idx = 0; msgs.assign(1, {});
        std::string m(p.pat->msgs); size_t i = 0;
        while (i < m.size()) { size_t j = m.find(' ', i); if (j == std::string::npos) j = m.size(); std::string t = m.substr(i, j - i); i = j + 1;
            if (t == "|") msgs.push_back({}); else msgs.back().push_back(t); }
    }
    void start() {
        sym.init(p.h, p.c, p.name());
        sym.mixHash(prologue);
        if (p.psk) { Bytes a, b; oracle::hkdf2(p.h, sym.ck, psk, a, b); sym.ck = a; sym.mixHash(b); }
        const Bytes &is = initiator ? s.pub : rs, &rs_ = initiator ? rs : s.pub;
        if (p.pat->is_pre) sym.mixHash(is);
        if (p.pat->fallback) { // the responder of the fallback was the original initiator
            const Bytes &pe = initiator ? re : e.pub, &pf = initiator ? rf : f.pub;
            sym.mixHash(pe);
            if (p.hybrid != DNone) sym.mixHash(pf);
            if (p.psk) sym.mixKey(pe);
        }
        if (p.pat->rs_pre) sym.mixHash(rs_);
    }
    bool done() const { return idx >= msgs.size(); }
    bool my_turn() const { return !done() && ((idx % 2 == 0) == initiator); }
    void dh(const std::string &t) {
        if (t == "ff") { sym.mixKey(null_f ? Bytes(shared(f, rf).size(), 0) : shared(f, rf)); return; }
        char a = initiator ? t[0] : t[1], b = initiator ? t[1] : t[0];
        Bytes k = shared(a == 'e' ? e : s, b == 'e' ? re : rs); if (null_e && a == 'e') k.assign(k.size(), 0);
        sym.mixKey(k);
    }
    // Bytes this side must put on the wire; e_priv / f_priv are its ephemeral secrets.
    Bytes write(const Bytes &payload) {
        Bytes out;
        for (auto &t : msgs[idx]) {
            if (t == "e") {
                // who is NewHope's Alice: the first party to send an ephemeral
                bool alice = re.empty();
                e = make_key(p.dh, e_priv, alice, re); if (null_e) e.pub.assign(e.pub.size(), 0);
                out.insert(out.end(), e.pub.begin(), e.pub.end()); sym.mixHash(e.pub);
                if (p.psk) sym.mixKey(e.pub);
            } else if (t == "f") {
                f = make_key(p.hybrid, f_priv, rf.empty(), rf); if (null_f) f.pub.assign(f.pub.size(), 0);
                Bytes x = sym.enc(f.pub); out.insert(out.end(), x.begin(), x.end());
            } else if (t == "s") { Bytes x = sym.enc(s.pub); out.insert(out.end(), x.begin(), x.end()); }
            else dh(t);
        }
        Bytes x = sym.enc(payload); out.insert(out.end(), x.begin(), x.end());
        ++idx; return out;
    }
    // 0 or the documented error
    int read(const Bytes &m, Bytes &payload) {
        size_t pos = 0;
        for (auto &t : msgs[idx]) {
            if (t == "e") {
                size_t l = publen(p.dh, !e.have);
                if (m.size() - pos < l) return NOISE_ERROR_INVALID_LENGTH;
                re.assign(m.begin() + pos, m.begin() + pos + l); pos += l;
                sym.mixHash(re);
                bool nz = false; for (auto b : re) nz |= b != 0;
                if (!nz && p.dh != DNewHope) return NOISE_ERROR_INVALID_PUBLIC_KEY; // New Hope has no null key
                if (p.psk) sym.mixKey(re);
            } else if (t == "s" || t == "f") {
                size_t l = (t == "s" ? publen(p.dh, true) : publen(p.hybrid, !f.have)) + sym.mac();
                if (m.size() - pos < l) return NOISE_ERROR_INVALID_LENGTH;
                Bytes ct(m.begin() + pos, m.begin() + pos + l), pt; pos += l;
                if (!sym.dec(ct, pt)) return NOISE_ERROR_MAC_FAILURE;
                (t == "s" ? rs : rf) = pt;
                if (t == "f") { bool nz = false; for (auto b : pt) nz |= b != 0; if (!nz && p.hybrid != DNewHope) return NOISE_ERROR_INVALID_PUBLIC_KEY; }
            } else dh(t);
        }
        Bytes ct(m.begin() + pos, m.end());
        if (ct.size() < sym.mac()) return NOISE_ERROR_INVALID_LENGTH;
        if (!sym.dec(ct, payload)) return NOISE_ERROR_MAC_FAILURE;
        ++idx; return 0;
    }
    // Switch this party to XXfallback[+hfs], keeping the original initiator's ephemeral.
    void fallback(const PatSpec *to) {
        Proto np = p; np.pat = to;
        bool wasI = initiator;
        if (wasI) { re.clear(); rf.clear(); rs.clear(); } else { e.clear(); f.clear(); rs.clear(); }
        setup(np, !wasI);
    }
};
// Bytes that message N of a handshake adds to its payload.
inline size_t overhead(const Proto &p, int n) {
    Party t; t.setup(p, true); bool has = p.pat->fallback && p.psk; size_t out = 0; int es = p.pat->fallback, fs = p.pat->fallback;
    for (int i = 0; i <= n; ++i) {
        out = 0;
        for (auto &k : t.msgs[i]) {
            if (k == "e") { out += publen(p.dh, es == 0); es++; if (p.psk) has = true; }
            else if (k == "f") { out += publen(p.hybrid, fs == 0) + (has ? 16 : 0); fs++; }
            else if (k == "s") out += publen(p.dh, true) + (has ? 16 : 0);
            else has = true;
        }
        out += has ? 16 : 0;
    }
    return out;
}
} // namespace model
#endif
