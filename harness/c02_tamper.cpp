// C02: a handshake completes only between peers that agree on everything and saw the same bytes.
// Two ends, each a library object with fixed ephemerals shadowed by its own model, an active
// network between them, configurations that may differ, impostors without the private key.
#include "hsdrive.hpp"
using namespace hsd;
struct End { Lib lib; Party m; Setup s; bool attacker = false; bool failed = false; };

static std::vector<Bytes> low_order(DhAlg d) {
    std::vector<Bytes> v;
    if (d == D25519) {
        Bytes z(32, 0); v.push_back(z); Bytes o(z); o[0] = 1; v.push_back(o);
        Bytes p(32, 0xff); p[0] = 0xed; p[31] = 0x7f; v.push_back(p); p[0] = 0xec; v.push_back(p); p[0] = 0xee; v.push_back(p);
        static const uint8_t a[32] = {0xe0,0xeb,0x7a,0x7c,0x3b,0x41,0xb8,0xae,0x16,0x56,0xe3,0xfa,0xf1,0x9f,0xc4,0x6a,0xda,0x09,0x8d,0xeb,0x9c,0x32,0xb1,0xfd,0x86,0x62,0x05,0x16,0x5f,0x49,0xb8,0x00};
        v.push_back(Bytes(a, a + 32));
    } else { Bytes z(56, 0); v.push_back(z); Bytes o(z); o[0] = 1; v.push_back(o); Bytes p(56, 0xff); p[28] = 0xfe; v.push_back(p); p[0] = 0xfe; v.push_back(p); }
    return v;
}
static Bytes flip(Bytes b, vh::Rng &r, size_t lo, size_t hi) { if (hi > lo) b[lo + r.below(hi - lo)] ^= 1 << r.below(8); return b; }

// A dead handshake stays dead.
static void check_failed(Lib &l, const char *who, const std::string &name) {
    if (l.action() != NOISE_ACTION_FAILED) { vh::viol("not-failed", "%s %s: action %s after a rejected message", name.c_str(), who, actname(l.action()).c_str()); return; }
    Bytes out; bool in; uint8_t h[64]; NoiseCipherState *a = 0, *b = 0;
    Bytes pl(4, 7);
    int e1 = l.write(&pl, 5000, out, in), e2 = l.read(Bytes(5000, 1), 5000, true, out, in), e3 = noise_handshakestate_split(l.hs, &a, &b), e4 = noise_handshakestate_get_handshake_hash(l.hs, h, 64), e5 = noise_handshakestate_start(l.hs);
    if (e1 != NOISE_ERROR_INVALID_STATE || e2 != NOISE_ERROR_INVALID_STATE || e3 != NOISE_ERROR_INVALID_STATE || e4 != NOISE_ERROR_INVALID_STATE || e5 != NOISE_ERROR_INVALID_STATE || a || b || l.action() != NOISE_ACTION_FAILED)
        vh::viol("alive-after-failure", "%s %s: after a rejected message write=%x read=%x split=%x hash=%x start=%x", name.c_str(), who, e1, e2, e3, e4, e5);
    vh::ev("failed_states_checked");
}
static bool contains(const Bytes &hay, const Bytes &needle) {
    if (needle.size() < 16) return false;
    for (size_t i = 0; i + 16 <= needle.size(); i += 16) if (std::search(hay.begin(), hay.end(), needle.begin() + i, needle.begin() + i + 16) != hay.end()) return true;
    return false;
}

// Every bit of the tag and one bit of every byte of a transport message matter.
static void forge_transport(NoiseCipherState *rcv, const Bytes &key, Cipher c, uint64_t n, vh::Rng &r, const std::string &name) {
    size_t m = r.chance(1, 2) ? 0 : r.below(60); Bytes pt = r.bytes(m), ct = oracle::aead(c, key, n, Bytes(), pt), out;
    for (size_t k = 0; k < m + 128; ++k) {
        Bytes x = ct; if (k < m) x[k] ^= 1 << r.below(8); else x[m + (k - m) / 8] ^= 1 << (k - m) % 8;
        int e = cs_decrypt(rcv, x, out); vh::ev("forged_transport_messages");
        if (e != NOISE_ERROR_MAC_FAILURE) { vh::viol("forged-transport", "%s: a transport message of %zu bytes with byte %zu altered gave %x", name.c_str(), m, k < m ? k : m + (k - m) / 8, e); return; }
    }
    for (size_t k = 0; k < m + 16; ++k) { Bytes x(ct.begin(), ct.begin() + k); int e = cs_decrypt(rcv, x, out); if (e != (k < 16 ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_MAC_FAILURE)) { vh::viol("forged-transport", "%s: a transport message cut from %zu to %zu bytes gave %x", name.c_str(), m + 16, k, e); return; } }
    if (cs_decrypt(rcv, ct, out) || out != pt) vh::viol("transport-after-forgery", "%s: the true message is rejected after forgeries", name.c_str());
}
static void one(uint64_t i, vh::Rng &r) {
    Proto p = sweep(i, r, false, vh::ctx().thorough ? 12 : 6);
    End E[2]; End &I = E[0], &R = E[1];
    Setup s = make_setup(p, r); if (s.prologue.size() > 2000) s.prologue.resize(100);
    for (int k = 0; k < 2; ++k) E[k].s = s;
    // ---- what differs between the two ends
    int kind = r.below(14); std::string what = "same";
    End &X = E[r.below(2)];
    if (kind == 0) { what = "prologue"; Bytes &q = X.s.prologue; int v = r.below(4);
        if (r.chance(1, 3)) { Bytes l = r.bytes(r.chance(1, 3) ? 65520 + r.below(40) : r.range(256, 70000)); for (int k = 0; k < 2; ++k) E[k].s.prologue = l; vh::ev("long_prologues"); // differing near the end, or anywhere
            if (r.chance(1, 2)) { q[q.size() - 1 - r.below(16)] ^= 1 << r.below(8); v = 9; } }
        if (v == 9) {} else if (v == 0 || q.empty()) q.push_back(r.below(2) ? 0 : 1); else if (v == 1) q.pop_back(); else q[r.below(q.size())] ^= 1 << r.below(8); }
    else if (kind == 1 && p.psk) { what = "psk"; X.s.psk[r.below(32)] ^= 1 << r.below(8); }
    else if (kind == 2 && p.pat->rs_pre) { what = "initiator-believes-other-rs"; I.s.rs = r.bytes(privlen(p.dh, true)); }
    else if (kind == 3 && p.pat->is_pre) { what = "responder-believes-other-is"; R.s.is = r.bytes(privlen(p.dh, true)); }
    else if (kind == 4) { what = "cipher"; X.s.p.c = p.c == oracle::ChaChaPoly ? oracle::AESGCM : oracle::ChaChaPoly; }
    else if (kind == 5) { what = "hash"; static const Hash t[] = {oracle::SHA256, oracle::SHA512, oracle::BLAKE2s, oracle::BLAKE2b}; X.s.p.h = t[p.h]; } // same length, other function
    else if (kind == 6) { what = "prefix"; X.s.p.psk = !p.psk; }
    else if (kind == 7) { // another pattern with the same ownership of keys
        std::vector<const PatSpec *> c; for (auto &q : patterns()) { Proto t = p; t.pat = &q; if (&q != p.pat && !q.fallback && valid(t) && q.is_pre == p.pat->is_pre && q.rs_pre == p.pat->rs_pre && t.owns_static(true) == p.owns_static(true) && t.owns_static(false) == p.owns_static(false)) c.push_back(&q); }
        if (!c.empty()) { X.s.p.pat = c[r.below(c.size())]; what = std::string("pattern-") + X.s.p.pat->name; }
    }
    bool differs = what != "same";
    bool impostor = false; int who_imp = -1;
    if (!differs && kind >= 11) { // an attacker that lacks the private key it claims
        who_imp = r.below(2);
        if (p.owns_static(who_imp == 0) && p.dh != DNewHope) { impostor = true; what = who_imp ? "impostor-responder" : "impostor-initiator"; E[who_imp].attacker = true; }
        else who_imp = -1;
    }
    bool nulls = false;
    if (!differs && !impostor && kind >= 9 && r.chance(1, 3)) { // a peer with every key it needs that sends a null ephemeral
        int a = r.below(2); bool hy = p.hybrid != DNone && p.hybrid != DNewHope && r.chance(2, 3); bool sends = false; { Party t; t.setup(p, true); for (size_t k = a; k < t.msgs.size(); k += 2) for (auto &x : t.msgs[k]) sends |= x == (hy ? "f" : "e"); }
        if (sends && (hy || p.dh != DNewHope)) { nulls = true; impostor = true; E[a].attacker = true; what = hy ? "null-hybrid-peer" : "null-ephemeral-peer"; (hy ? E[a].m.null_f : E[a].m.null_e) = true; vh::ev("null_ephemeral_peers"); }
    }
    for (int k = 0; k < 2; ++k) {
        model_setup(E[k].m, E[k].s, k == 0);
        if (E[k].attacker && !nulls) E[k].m.s.priv = r.bytes(privlen(p.dh, true)); // public key claimed, private key not known
        E[k].m.start();
        if (E[k].attacker) continue;
        Lib &l = E[k].lib; int err = l.create(E[k].s.p, k == 0, r.chance(1, 2)); if (!err) err = l.configure(E[k].s, r, true); if (!err) err = noise_handshakestate_start(l.hs);
        if (err) { vh::viol("setup", "%s cannot be set up: %x", E[k].s.p.name().c_str(), err); return; }
    }
    std::string name = p.name(), trace = name + " " + what; const char *who[2] = {"initiator", "responder"};
    std::vector<Bytes> sent; bool tampered = false, lowinj = false; bool dead = false, skip = false; int rejected_at = -1;
    for (int n = 0; !dead && !skip; ++n) {
        int w = n & 1, rd = 1 - w; End &W = E[w], &D = E[rd];
        if (W.m.done() || D.m.done() || W.failed || D.failed) break;
        if (!W.m.my_turn() || D.m.my_turn()) break;
        vh::describe(trace);
        Bytes payload = r.bytes(r.chance(1, 2) ? 16 + r.below(100) : r.chance(1, 3) ? 0 : r.below(20)), wire, exp = W.m.write(payload); bool intact;
        if (!W.attacker) {
            int err = W.lib.write(&payload, exp.size() + r.below(30), wire, intact);
            if (err && lowinj) { W.failed = true; break; } // a backend that refuses low order points
            if (err || wire != exp) { vh::viol("writer-diverged", "%s (%s) message %d by %s is not what its inputs define: %x", name.c_str(), what.c_str(), n, who[w], err); return; }
        } else wire = exp;
        Bytes orig = wire; std::string tk = "-";
        // ---- the network
        if (!differs && !impostor && r.chance(n == p.messages() - 1 ? 2 : 1, 3)) {
            size_t el = publen(p.dh, n == 0), ov = overhead(p, n);
            switch (r.below(13)) {
            case 0: wire = flip(wire, r, 0, wire.size()); tk = "flip"; break;
            case 1: wire = flip(wire, r, 0, std::min(el, wire.size())); tk = "flip-e"; break;
            case 2: wire = flip(wire, r, std::min(el, wire.size() - 1), std::max(wire.size() - payload.size() - (wire.size() >= ov ? 0 : 0), std::min(el, wire.size() - 1) + 1)); tk = "flip-mid"; break;
            case 3: wire = flip(wire, r, wire.size() > 16 ? wire.size() - 16 : 0, wire.size()); tk = "flip-tail"; break;
            case 4: wire.resize(wire.size() - 1 - r.below(std::min<size_t>(wire.size(), 40))); tk = "truncate"; break;
            case 5: wire.resize(r.below(wire.size())); tk = "cut"; break;
            case 6: { Bytes x = r.bytes(1 + r.below(33)); wire.insert(wire.end(), x.begin(), x.end()); tk = "extend"; break; }
            case 7: if (!sent.empty()) { wire = sent[r.below(sent.size())]; tk = "replay"; } break;
            case 8: { // the same message of another session of the same two peers
                Setup s2 = E[0].s; vh::Rng r2(r.next(), 1); s2.ie = r2.bytes(privlen(p.dh, true)); s2.re = r2.bytes(privlen(p.dh, false)); if (p.hybrid != DNone) { s2.iff = r2.bytes(privlen(p.hybrid, true)); s2.rf = r2.bytes(privlen(p.hybrid, false)); }
                if (p.dh == DNewHope || p.hybrid == DNewHope) { wire = flip(wire, r, 0, wire.size()); tk = "flip"; break; }
                Party a, b; model_setup(a, s2, true); model_setup(b, s2, false); a.start(); b.start(); Bytes got;
                for (int k = 0; k <= n; ++k) { Party &ww = k & 1 ? b : a, &rr = k & 1 ? a : b; wire = ww.write(payload); rr.read(wire, got); } tk = "other-session"; break; }
            case 9: if (p.dh != DNewHope && W.m.msgs[n][0] == "e" && wire.size() >= el) { Bytes x = pub_of(p.dh, r.bytes(privlen(p.dh, true))); std::copy(x.begin(), x.end(), wire.begin()); tk = "other-e"; } break;
            case 10: if (wire.size() >= el) { std::fill(wire.begin(), wire.begin() + el, 0); tk = "null-e"; } break;
            case 11: if (p.dh != DNewHope && W.m.msgs[n][0] == "e") { auto lo = low_order(p.dh); Bytes x = lo[r.below(lo.size())]; std::copy(x.begin(), x.end(), wire.begin()); tk = "low-order-e"; lowinj = true; } break;
            case 12: if (wire.size() > 48) { size_t a = r.below(wire.size() - 32), b = r.below(wire.size() - 32); for (int k = 0; k < 16; ++k) std::swap(wire[a + k], wire[b + k]); tk = "swap"; } break;
            }
            if (wire != orig) { tampered = true; vh::ev("tampered_" + tk); } else tk = "-";
        }
        sent.push_back(orig); trace += vh::fmt(" %zu%s", payload.size(), tk.c_str()); vh::describe(trace);
        // ---- the reader
        Bytes want, got; int me = D.m.read(wire, want);
        if (D.attacker) { // the attacker pretends all is well as long as it can
            if (me) { vh::ev("attacker_cannot_read"); break; } continue;
        }
        if (r.chance(1, 10)) { // talking out of turn changes nothing
            Bytes o; bool in; int e = D.lib.write(&payload, 5000, o, in); if (e != NOISE_ERROR_INVALID_STATE || D.lib.action() != NOISE_ACTION_READ_MESSAGE) { vh::viol("out-of-turn", "%s %s writes out of turn: %x", name.c_str(), who[rd], e); return; } }
        int err = D.lib.read(wire, std::max(want.size(), payload.size()) + 70, true, got, intact);
        if (!intact) vh::viol("bounds", "%s %s read_message wrote outside the payload buffer", name.c_str(), who[rd]);
        if (lowinj && err) { check_failed(D.lib, who[rd], name); D.failed = true; vh::ev("low_order_rejected"); break; }
        if (me) {
            if (!err) { vh::viol("accepted-" + (tk != "-" ? tk : what), "%s %s accepts message %d although the network or a configuration difference (%s, %s) makes it invalid", name.c_str(), who[rd], n, what.c_str(), tk.c_str()); return; }
            if (err != me) vh::viol("reject-code", "%s %s rejects message %d (%s %s) with %x, documented %x", name.c_str(), who[rd], n, what.c_str(), tk.c_str(), err, me);
            if (!got.empty()) vh::viol("payload-size-on-failure", "%s payload size %zu reported for a rejected message", name.c_str(), got.size());
            if (contains(D.lib.raw_payload, payload) && D.m.sym.has) vh::viol("payload-released", "%s %s: the payload of a rejected message (%s) is in the output buffer", name.c_str(), who[rd], tk.c_str());
            check_failed(D.lib, who[rd], name); D.failed = true; rejected_at = n; vh::ev("messages_rejected"); vh::ev("rejected_" + (tk != "-" ? std::string("tamper") : what.substr(0, 8)));
        } else {
            if (err) { vh::viol("rejected-valid", "%s %s rejects message %d (%s %s) which its own state accepts: %x", name.c_str(), who[rd], n, what.c_str(), tk.c_str(), err); return; }
            if (got != want) { vh::viol("payload", "%s %s message %d: payload differs", name.c_str(), who[rd], n); return; }
            vh::ev("messages_accepted");
        }
    }
    // ---- the end: agreement or nothing
    bool c[2]; for (int k = 0; k < 2; ++k) c[k] = !E[k].attacker && !E[k].failed && E[k].lib.hs && E[k].lib.action() == NOISE_ACTION_SPLIT;
    for (int k = 0; k < 2; ++k) if (c[k]) {
        if (!E[k].m.done()) { vh::viol("early-split", "%s %s is ready to split before its last message", name.c_str(), who[k]); return; }
        check_hash(E[k].lib, E[k].m, r, who[k]);
    }
    if (c[0] && c[1]) {
        bool agree = I.lib.hash(64) == R.lib.hash(64);
        if (agree && (tampered || differs)) vh::viol("agree-on-different", "%s both ends complete with one handshake hash although %s", name.c_str(), trace.c_str());
        if (!agree && !tampered && !differs) vh::viol("disagree", "%s ends disagree without interference", name.c_str());
        vh::ev(agree ? "completed_agreeing" : "completed_disagreeing");
    }
    for (int k = 0; k < 2; ++k) if (c[k] && (E[1 - k].attacker || c[1 - k])) { // transport keys of the two ends
        NoiseCipherState *snd = 0, *rcv = 0; if (noise_handshakestate_split(E[k].lib.hs, &snd, &rcv)) { vh::viol("split", "split fails"); return; }
        Bytes k1, k2; E[1 - k].m.sym.split(k1, k2); const Bytes &peer_send = k == 0 ? k2 : k1; Bytes pt = r.bytes(20), out;
        bool ok = !cs_decrypt(rcv, oracle::aead(E[1 - k].s.p.c, peer_send, 0, Bytes(), pt), out) && out == pt;
        bool same = !tampered && !differs && !impostor;
        if (ok && (tampered || differs)) vh::viol("transport-on-different", "%s transport data flows although %s", name.c_str(), trace.c_str());
        if (!ok && same) vh::viol("transport-same", "%s transport data is rejected between agreeing ends", name.c_str());
        if (ok && impostor) {
            // only acceptable when nothing the peer did ever used the key the attacker lacks
            bool used = false; for (auto &m : p.pat->msgs ? I.m.msgs : I.m.msgs) for (auto &t : m) if (t.size() == 2 && (t == "ss" || (k == 0 && t == "es") || (k == 1 && t == "se"))) used = true;
            if (used) vh::viol("impostor-accepted", "%s %s completes a session with a peer that does not hold the static private key", name.c_str(), who[k]);
        }
        if (ok) forge_transport(rcv, peer_send, E[1 - k].s.p.c, 1, r, name);
        vh::ev(ok ? "transport_agreed" : "transport_refused"); noise_cipherstate_free(snd); noise_cipherstate_free(rcv);
    }
    if (impostor) vh::ev("impostor_runs");
    (void)rejected_at; vh::eval(); vh::sig(trace); vh::sample(trace);
}
int main(int argc, char **argv) { return vh::run(argc, argv, one, 60); }
