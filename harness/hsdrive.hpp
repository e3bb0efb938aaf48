// Drives noise-c HandshakeState objects through their public API, next to the model.
#ifndef HSDRIVE_HPP
#define HSDRIVE_HPP
#include "model.hpp"
#include <noise/protocol.h>
namespace hsd {
using namespace model;

inline NoiseProtocolId proto_id(const Proto &p) {
    NoiseProtocolId id; memset(&id, 0, sizeof id);
    id.prefix_id = p.psk ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD; id.pattern_id = p.pat->id; id.dh_id = dh_id(p.dh);
    id.hybrid_id = dh_id(p.hybrid); id.cipher_id = cipher_id(p.c); id.hash_id = hash_id(p.h); return id;
}
// Protocol number I of a sweep over patterns, prefixes and algorithms.
inline Proto sweep(uint64_t i, vh::Rng &r, bool allow_fallback = false, int newhope_pct = 25) {
    static std::vector<const PatSpec *> plain;
    if (plain.empty()) for (auto &p : patterns()) if (!p.fallback) plain.push_back(&p);
    Proto p; p.pat = plain[i % plain.size()];
    uint64_t c = (i / plain.size() * 7 + i % plain.size() * 3) % 32;
    p.psk = c & 1; p.c = c & 2 ? oracle::ChaChaPoly : oracle::AESGCM; p.h = (Hash)(c >> 2 & 3); p.dh = c & 16 ? D25519 : D448;
    bool nn = !strcmp(p.pat->name, "NN") || !strcmp(p.pat->name, "NNhfs");
    if (nn && (int)r.below(100) < newhope_pct * 2) p.dh = DNewHope;
    if (is_hfs(*p.pat)) { p.hybrid = (int)r.below(100) < newhope_pct ? DNewHope : r.chance(1, 2) ? D25519 : D448; }
    return p;
}
struct Setup {
    Proto p; Bytes prologue; Bytes psk; Bytes is, rs; Bytes ie, re, iff, rf;
};
inline Setup make_setup(const Proto &p, vh::Rng &r) {
    Setup s; s.p = p;
    static const int pl[] = {0, 0, 1, 5, 31, 32, 63, 64, 127, 128, 129, 300, 1000};
    s.prologue = r.bytes(r.chance(1, 12) ? r.range(1000, 70000) : pl[r.below(13)]);
    s.psk = r.bytes(32);
    s.is = r.bytes(privlen(p.dh, true)); s.rs = r.bytes(privlen(p.dh, true));
    s.ie = r.bytes(privlen(p.dh, true)); s.re = r.bytes(privlen(p.dh, false));
    if (p.hybrid != DNone) { s.iff = r.bytes(privlen(p.hybrid, true)); s.rf = r.bytes(privlen(p.hybrid, false)); }
    return s;
}
inline Bytes pub_of(DhAlg d, const Bytes &priv) { return oracle::dh_public(d == D25519 ? oracle::X25519 : oracle::X448, priv); }
inline void model_setup(Party &m, const Setup &s, bool initiator) {
    m.setup(s.p, initiator); m.prologue = s.prologue; m.psk = s.psk;
    bool hs = s.p.owns_static(initiator), ps = s.p.knows_remote_static_first(initiator);
    if (hs) m.s = make_key(s.p.dh, initiator ? s.is : s.rs, true, Bytes());
    if (ps) m.rs = pub_of(s.p.dh, initiator ? s.rs : s.is);
    m.e_priv = initiator ? s.ie : s.re; m.f_priv = initiator ? s.iff : s.rf;
}
struct Lib {
    NoiseHandshakeState *hs = nullptr; bool initiator = false;
    ~Lib() { if (hs) noise_handshakestate_free(hs); }
    Lib() {}
    Lib(const Lib &) = delete;
    int create(const Proto &p, bool ini, bool by_name) {
        initiator = ini;
        int role = ini ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER;
        if (by_name) return noise_handshakestate_new_by_name(&hs, p.name().c_str(), role);
        NoiseProtocolId id = proto_id(p);
        return noise_handshakestate_new_by_id(&hs, &id, role);
    }
    // everything needed before start(); the order and the API entry points vary
    int configure(const Setup &s, vh::Rng &r, bool fixed) {
        std::vector<int> steps = {0, 1, 2, 3, 4};
        for (int i = 4; i > 0; --i) std::swap(steps[i], steps[r.below(i + 1)]);
        for (int st : steps) {
            int err = 0;
            if (st == 0) {
                if (r.chance(1, 4)) { Bytes junk = r.bytes(r.chance(1, 2) ? s.prologue.size() + 1 : s.prologue.size()); junk.push_back(0);
                    if ((err = noise_handshakestate_set_prologue(hs, junk.data(), junk.size() - 1))) return err; }
                uint8_t z = 0;
                bool had = r.chance(3, 4);
                if (!s.prologue.empty() || had) err = noise_handshakestate_set_prologue(hs, s.prologue.empty() ? &z : s.prologue.data(), s.prologue.size());
                else err = noise_handshakestate_set_prologue(hs, &z, 0);
            } else if (st == 1) {
                if (s.p.psk) {
                    if (r.chance(1, 4)) { Bytes j = r.bytes(32); if ((err = noise_handshakestate_set_pre_shared_key(hs, j.data(), 32))) return err; }
                    err = noise_handshakestate_set_pre_shared_key(hs, s.psk.data(), s.psk.size());
                }
            } else if (st == 2) {
                if (s.p.owns_static(initiator)) {
                    NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(hs);
                    const Bytes &priv = initiator ? s.is : s.rs;
                    if (r.chance(1, 2)) err = noise_dhstate_set_keypair_private(d, priv.data(), priv.size());
                    else if (r.chance(1, 2)) { Bytes pub = pub_of(s.p.dh, priv); err = noise_dhstate_set_keypair(d, priv.data(), priv.size(), pub.data(), pub.size()); }
                    else {
                        NoiseDHState *t = 0; err = noise_dhstate_new_by_id(&t, dh_id(s.p.dh));
                        if (!err) err = noise_dhstate_set_keypair_private(t, priv.data(), priv.size());
                        if (!err) err = noise_dhstate_copy(d, t);
                        noise_dhstate_free(t);
                    }
                }
            } else if (st == 3) {
                if (s.p.knows_remote_static_first(initiator)) {
                    Bytes pub = pub_of(s.p.dh, initiator ? s.rs : s.is);
                    err = noise_dhstate_set_public_key(noise_handshakestate_get_remote_public_key_dh(hs), pub.data(), pub.size());
                }
            } else if (fixed) err = set_ephemerals(s);
            if (err) return err;
        }
        return 0;
    }
    int set_ephemerals(const Setup &s) {
        const Bytes &e = initiator ? s.ie : s.re, &f = initiator ? s.iff : s.rf;
        NoiseDHState *d = noise_handshakestate_get_fixed_ephemeral_dh(hs);
        if (d) {
            int err = noise_dhstate_set_keypair_private(d, e.data(), e.size()); if (err) return err;
        }
        d = noise_handshakestate_get_fixed_hybrid_dh(hs);
        if (d && !f.empty()) { int err = noise_dhstate_set_keypair_private(d, f.data(), f.size()); if (err) return err; }
        return 0;
    }
    int action() const { return noise_handshakestate_get_action(hs); }
    // out: wire bytes; cap: buffer size offered
    int write(const Bytes *payload, size_t cap, Bytes &out, bool &intact) {
        vh::Guard g(cap); NoiseBuffer mb, pb; noise_buffer_set_output(mb, g.p, cap);
        uint8_t *pp = nullptr; size_t pn = 0;
        if (payload) { pn = payload->size(); pp = (uint8_t *)malloc(pn ? pn : 1); if (pn) memcpy(pp, payload->data(), pn); noise_buffer_set_input(pb, pp, pn); }
        int err = noise_handshakestate_write_message(hs, &mb, payload ? &pb : nullptr);
        intact = g.intact() && mb.size <= cap && mb.data == g.p && (!payload || (pb.size == pn && (!pn || !memcmp(pp, payload->data(), pn))));
        out.assign(g.p, g.p + (mb.size <= cap ? mb.size : 0));
        free(pp);
        return err;
    }
    int read(const Bytes &msg, size_t cap, bool want, Bytes &payload, bool &intact) {
        size_t n = msg.size(); uint8_t *mp = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(mp, msg.data(), n);
        NoiseBuffer mb, pb; noise_buffer_set_input(mb, mp, n);
        vh::Guard g(cap); noise_buffer_set_output(pb, g.p, cap); pb.size = cap; // whatever the caller left there
        int err = noise_handshakestate_read_message(hs, &mb, want ? &pb : nullptr);
        intact = g.intact() && (!want || pb.size <= cap);
        payload.assign(g.p, g.p + (want && pb.size <= cap ? pb.size : 0));
        raw_payload.assign(g.p, g.p + cap); msg_cleared = true; for (size_t i = 0; i < n; ++i) if (mp[i]) msg_cleared = false;
        free(mp);
        return err;
    }
    bool msg_cleared = true; // the message buffer after the last read
    Bytes raw_payload; // the whole payload buffer after the last read
    Bytes hash(size_t n) { Bytes h(n + 1, 0xEE); int e = noise_handshakestate_get_handshake_hash(hs, h.data(), n); if (e || h[n] != 0xEE) return Bytes(); h.resize(n); return h; }
    Bytes remote_static() {
        NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(hs); if (!d || !noise_dhstate_has_public_key(d)) return Bytes();
        Bytes b(noise_dhstate_get_public_key_length(d)); if (noise_dhstate_get_public_key(d, b.data(), b.size())) return Bytes(); return b;
    }
};
inline int cs_encrypt(NoiseCipherState *c, const Bytes &pt, Bytes &out, const Bytes *ad = nullptr) {
    Bytes b(pt); b.resize(pt.size() + 16); NoiseBuffer nb; noise_buffer_set_inout(nb, b.data(), pt.size(), b.size());
    int e = ad ? noise_cipherstate_encrypt_with_ad(c, ad->data(), ad->size(), &nb) : noise_cipherstate_encrypt(c, &nb);
    out.assign(b.begin(), b.begin() + nb.size); return e;
}
inline int cs_decrypt(NoiseCipherState *c, const Bytes &ct, Bytes &out, const Bytes *ad = nullptr) {
    Bytes b(ct); if (b.empty()) b.push_back(0); NoiseBuffer nb; noise_buffer_set_inout(nb, b.data(), ct.size(), ct.size());
    int e = ad ? noise_cipherstate_decrypt_with_ad(c, ad->data(), ad->size(), &nb) : noise_cipherstate_decrypt(c, &nb);
    out.assign(b.begin(), b.begin() + (nb.size <= ct.size() ? nb.size : 0)); return e;
}
inline std::string actname(int a) {
    switch (a) { case NOISE_ACTION_NONE: return "NONE"; case NOISE_ACTION_WRITE_MESSAGE: return "WRITE"; case NOISE_ACTION_READ_MESSAGE: return "READ";
    case NOISE_ACTION_FAILED: return "FAILED"; case NOISE_ACTION_SPLIT: return "SPLIT"; case NOISE_ACTION_COMPLETE: return "COMPLETE"; } return vh::fmt("%d", a);
}
inline size_t pick_payload(vh::Rng &r, size_t overhead) {
    static const size_t s[] = {0, 0, 1, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4096};
    if (r.chance(1, 25)) return 65535 - overhead;
    if (r.chance(1, 25)) return r.below(65535 - overhead + 1);
    if (r.chance(1, 3)) return r.below(600);
    return s[r.below(18)];
}
// Split both CipherStates of a finished handshake and compare with the model's keys.
inline void check_transport(Lib &l, Party &m, vh::Rng &r, const char *who, int rounds) {
    Bytes k1, k2; m.sym.split(k1, k2);
    const Bytes &ks = l.initiator ? k1 : k2, &kr = l.initiator ? k2 : k1;
    int variant = r.below(5); NoiseCipherState *snd = 0, *rcv = 0;
    int err = noise_handshakestate_split(l.hs, variant == 1 ? 0 : &snd, variant == 2 ? 0 : &rcv);
    if (err || (variant != 1 && !snd) || (variant != 2 && !rcv)) { vh::viol("split", "%s split failed err=%x", who, err); return; }
    if (l.action() != NOISE_ACTION_COMPLETE) vh::viol("action-after-split", "%s action %s after split", who, actname(l.action()).c_str());
    vh::ev("splits");
    for (int n = 0; n < rounds; ++n) {
        Bytes pt = r.bytes(r.chance(1, 30) ? 65519 : r.below(200)), out;
        if (snd) {
            err = cs_encrypt(snd, pt, out);
            if (err || out != oracle::aead(m.p.c, ks, n, Bytes(), pt)) vh::viol("transport-send", "%s transport message %d (len %zu) differs from specification err=%x", who, n, pt.size(), err);
            vh::ev("transport_messages");
        }
        if (rcv) {
            err = cs_decrypt(rcv, oracle::aead(m.p.c, kr, n, Bytes(), pt), out);
            if (err || out != pt) vh::viol("transport-recv", "%s transport message %d (len %zu) from the specification rejected err=%x", who, n, pt.size(), err);
            vh::ev("transport_messages");
        }
    }
    if (snd) noise_cipherstate_free(snd);
    if (rcv) noise_cipherstate_free(rcv);
}
inline void check_hash(Lib &l, Party &m, vh::Rng &r, const char *who) {
    size_t lens[] = {m.sym.hh.size(), 0, 1, 16, 32, 64, 80, 128};
    for (int i = 0; i < 3; ++i) {
        size_t n = i == 0 ? lens[0] : lens[r.below(8)];
        Bytes got = l.hash(n), want = m.sym.hh; want.resize(n, 0);
        if (got != want) vh::viol("handshake-hash", "%s handshake hash (max_len %zu) got %s want %s", who, n, vh::hex(got).c_str(), vh::hex(want).c_str());
    }
}
} // namespace hsd
#endif
