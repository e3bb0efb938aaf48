// C20: falling back to XXfallback (Noise Pipes) works exactly as specified, and only there.
#include "hsdrive.hpp"
using namespace hsd;
static const PatSpec *pat(int id) { for (auto &q : patterns()) if (q.id == id) return &q; return 0; }
static void one(uint64_t i, vh::Rng &r) {
    static std::vector<const PatSpec *> base; if (base.empty()) for (auto &q : patterns()) { Proto t; t.pat = &q; if (q.rs_pre && !q.fallback && t.messages() > 1 && t.owns_static(true)) base.push_back(&q); }
    Proto p = sweep(i, r, false, 0); p.pat = base[i % base.size()]; if (p.dh == DNewHope) p.dh = D25519; bool hfs = is_hfs(*p.pat);
    p.hybrid = !hfs ? DNone : r.chance(1, 10) ? DNewHope : r.chance(1, 2) ? D25519 : D448;
    Setup s = make_setup(p, r); if (s.prologue.size() > 3000) s.prologue.resize(64);
    int trigger = r.below(6); // 0,1: stale responder key; 2: responder's choice; 3: initiator saw garbage; 4: initiator's ephemeral was altered on the way; 5: the responder's reply did not fit its buffer
    bool fixed = r.chance(2, 3); bool new_prologue = r.chance(1, 4); int attack = r.below(4); // 0: tamper with a message of the fallback
    std::string name = p.name(), trace = vh::fmt("%s trigger=%d fixed=%d", name.c_str(), trigger, fixed); vh::describe(trace);
    Setup si = s, sr = s; if (trigger < 2) si.rs = r.bytes(privlen(p.dh, true));
    Lib I, R; Party mi, mr; model_setup(mi, si, true); model_setup(mr, sr, false); mi.start(); mr.start();
    Lib *L[2] = {&I, &R}; Party *M[2] = {&mi, &mr}; Setup *S[2] = {&si, &sr};
    for (int k = 0; k < 2; ++k) { int e = L[k]->create(p, k == 0, r.chance(1, 2)); if (!e) e = L[k]->configure(*S[k], r, fixed); if (!e) e = noise_handshakestate_start(L[k]->hs); if (e) { vh::viol("setup", "%s: %x", name.c_str(), e); return; } }
    if (noise_handshakestate_fallback_to(I.hs, hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK) != NOISE_ERROR_INVALID_STATE) { vh::viol("fallback-early", "%s initiator falls back before its first message", name.c_str()); return; }
    if (noise_handshakestate_fallback_to(R.hs, hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK) != NOISE_ERROR_INVALID_STATE) { vh::viol("fallback-early", "%s responder falls back before the first message", name.c_str()); return; }
    Bytes pl = r.bytes(r.below(60)), wire, got; bool in; size_t ov = overhead(p, 0);
    int e = I.write(&pl, ov + pl.size() + 10, wire, in); if (e) { vh::viol("write1", "%s: %x", name.c_str(), e); return; }
    if (fixed) { Bytes x = mi.write(pl); if (x != wire) { vh::viol("wire1", "%s first message differs", name.c_str()); return; } }
    Bytes e_pub(wire.begin(), wire.begin() + publen(p.dh, true));
    if (trigger == 4) { Bytes x = pub_of(p.dh, r.bytes(privlen(p.dh, true))); std::copy(x.begin(), x.end(), wire.begin()); }
    e = R.read(wire, 200, true, got, in); int me = 0; if (fixed) { Bytes g; me = mr.read(wire, g); if (me != e) { vh::viol("read1", "%s first message: %x, model %x", name.c_str(), e, me); return; } }
    vh::ev(e ? "first_message_failed" : "first_message_read");
    if (e && R.action() != NOISE_ACTION_FAILED) vh::viol("action", "%s not failed", name.c_str());
    if (trigger == 3) { Bytes g; e = I.read(r.bytes(100), 200, true, g, in); if (!e) { vh::viol("garbage", "%s garbage reply accepted", name.c_str()); return; } }
    if (trigger == 5 && !e) {
        Bytes o; int e5 = R.write(&pl, r.below(overhead(p, 1) + pl.size()), o, in);
        if (e5 != NOISE_ERROR_INVALID_LENGTH || R.action() != NOISE_ACTION_FAILED) { vh::viol("write-small", "%s reply into a small buffer: %x", name.c_str(), e5); return; } vh::ev("failed_reply_then_fallback");
    }
    // the fallback itself
    int fid = hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK; const PatSpec *fp = pat(fid);
    bool order = r.chance(1, 2);
    for (int z = 0; z < 2; ++z) { int k = order ? z : 1 - z;
        if (noise_handshakestate_fallback_to(L[k]->hs, p.pat->id) != NOISE_ERROR_NOT_APPLICABLE) { vh::viol("fallback-to-nonfallback", "%s falls back to its own pattern", name.c_str()); return; }
        e = (!hfs && r.chance(1, 2)) ? noise_handshakestate_fallback(L[k]->hs) : noise_handshakestate_fallback_to(L[k]->hs, fid);
        // the initiator's ephemeral may never have reached the responder intact, but an ephemeral did
        bool has_f = !hfs || !fixed || k == 0 || !mr.rf.empty();
        if (e) { if (!has_f && e == NOISE_ERROR_INVALID_STATE) { vh::ev("fallback_refused_without_hybrid"); return; } if (hfs && !fixed && k == 1 && e == NOISE_ERROR_INVALID_STATE && p.psk) return; vh::viol("fallback", "%s %s cannot fall back (trigger %d): %x", name.c_str(), k ? "responder" : "initiator", trigger, e); return; }
        if (L[k]->action() != NOISE_ACTION_NONE || noise_handshakestate_get_role(L[k]->hs) != (k ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER)) { vh::viol("fallback-state", "%s after fallback: action %s role %x", name.c_str(), actname(L[k]->action()).c_str(), noise_handshakestate_get_role(L[k]->hs)); return; }
        if (fixed) M[k]->fallback(fp);
        L[k]->initiator = k == 1; vh::ev("fallbacks");
        // XXfallback sends both static keys: neither side knows its peer's any more
        if (noise_handshakestate_has_remote_public_key(L[k]->hs) || !L[k]->remote_static().empty()) { vh::viol("fallback-remote-kept", "%s %s still has a remote static key after falling back", name.c_str(), k ? "responder" : "initiator"); return; }
        NoiseProtocolId id; noise_handshakestate_get_protocol_id(L[k]->hs, &id); if (id.pattern_id != fid) vh::viol("fallback-id", "%s protocol id after fallback is pattern %x", name.c_str(), id.pattern_id);
        if (noise_handshakestate_fallback_to(L[k]->hs, fid) != NOISE_ERROR_NOT_APPLICABLE && noise_handshakestate_fallback_to(L[k]->hs, fid) != NOISE_ERROR_INVALID_STATE) { vh::viol("fallback-twice", "%s falls back twice", name.c_str()); return; }
    }
    Bytes np = r.bytes(1 + r.below(50)); bool mism = new_prologue && r.chance(1, 3);
    if (new_prologue) for (int k = 0; k < 2; ++k) { Bytes q = np; if (mism && k) q[0] ^= 1; if ((e = noise_handshakestate_set_prologue(L[k]->hs, q.data(), q.size()))) { vh::viol("set-prologue", "%s prologue between fallback and start: %x", name.c_str(), e); return; } M[k]->prologue = q; }
    for (int k = 0; k < 2; ++k) { if ((e = noise_handshakestate_start(L[k]->hs))) { vh::viol("restart", "%s %s cannot start after fallback: %x", name.c_str(), k ? "responder" : "initiator", e); return; } if (fixed) M[k]->start(); }
    bool broken = mism || trigger == 4; bool tampered = false;
    for (int n = 0; n < 2; ++n) {
        int w = n ? 0 : 1, d = 1 - w;
        if (L[w]->action() != NOISE_ACTION_WRITE_MESSAGE || L[d]->action() != NOISE_ACTION_READ_MESSAGE) { vh::viol("fallback-action", "%s message %d: actions %s %s", name.c_str(), n, actname(L[w]->action()).c_str(), actname(L[d]->action()).c_str()); return; }
        Bytes pay = r.bytes(r.below(100)), exp, out; if (fixed) exp = M[w]->write(pay); Proto q = p; q.pat = fp;
        e = L[w]->write(&pay, 9000, out, in); if (e) { vh::viol("fallback-write", "%s fallback message %d: %x", name.c_str(), n, e); return; }
        if (fixed && out != exp) { size_t z = 0; while (z < out.size() && z < exp.size() && out[z] == exp[z]) ++z; vh::viol("fallback-wire", "%s fallback message %d differs from the specification at byte %zu of %zu/%zu", name.c_str(), n, z, out.size(), exp.size()); return; }
        vh::ev(fixed ? "fallback_messages_byte_exact" : "fallback_messages");
        if (attack == 0 && !tampered && r.chance(1, 2)) { tampered = true; switch (r.below(4)) { case 0: out[r.below(out.size())] ^= 1 << r.below(8); break; case 1: out.resize(out.size() - 1 - r.below(20)); break; case 2: out.push_back(0); break; default: out[r.below(std::min<size_t>(out.size(), publen(p.dh, true)))] ^= 4; } }
        Bytes g; e = L[d]->read(out, 400, true, g, in); Bytes mg; me = fixed ? M[d]->read(out, mg) : (broken || tampered) ? -1 : 0;
        if (fixed && (me != 0) != (e != 0)) { vh::viol("fallback-read", "%s fallback message %d: library %x, specification %x (tampered=%d broken=%d)", name.c_str(), n, e, me, tampered, broken); return; }
        if (!fixed && me == 0 && e) { vh::viol("fallback-read", "%s fallback message %d rejected: %x", name.c_str(), n, e); return; }
        if (e) { vh::ev("fallback_rejected"); if (!broken && !tampered) { vh::viol("fallback-fails", "%s fallback message %d rejected: %x", name.c_str(), n, e); } if (L[d]->action() != NOISE_ACTION_FAILED) vh::viol("action", "%s not failed after %x", name.c_str(), e); goto end; }
        if (broken || tampered) { vh::viol("fallback-forged", "%s fallback message %d accepted although %s", name.c_str(), n, tampered ? "it was altered" : mism ? "the prologues differ" : "the initiator's ephemeral was altered"); return; }
        if (g != pay) vh::viol("fallback-payload", "%s payload differs", name.c_str());
    }
    for (int k = 0; k < 2; ++k) {
        if (L[k]->action() != NOISE_ACTION_SPLIT) { vh::viol("fallback-nosplit", "%s action %s at the end", name.c_str(), actname(L[k]->action()).c_str()); return; }
        Bytes want = pub_of(p.dh, k == 0 ? s.rs : s.is); if (L[k]->remote_static() != want) vh::viol("fallback-remote-static", "%s wrong remote static key after fallback", name.c_str());
    }
    if (I.hash(64) != R.hash(64)) vh::viol("fallback-hash", "%s handshake hashes differ", name.c_str());
    if (fixed) for (int k = 0; k < 2; ++k) { check_hash(*L[k], *M[k], r, k ? "responder" : "initiator"); check_transport(*L[k], *M[k], r, k ? "responder" : "initiator", 2); }
    else { NoiseCipherState *a = 0, *b = 0, *c = 0, *d = 0; noise_handshakestate_split(I.hs, &a, &b); noise_handshakestate_split(R.hs, &c, &d); Bytes pt = r.bytes(30), ct, bk; if (cs_encrypt(a, pt, ct) || cs_decrypt(d, ct, bk) || bk != pt || cs_encrypt(c, pt, ct) || cs_decrypt(b, ct, bk) || bk != pt) vh::viol("fallback-transport", "%s transport fails", name.c_str());
        for (auto x : {a, b, c, d}) if (x) noise_cipherstate_free(x); }
    vh::ev("fallback_handshakes_completed");
end:
    vh::eval(); trace += vh::fmt(" order=%d newprologue=%d%s tampered=%d", order, new_prologue, mism ? "!" : "", tampered); vh::sig(trace + vh::fmt(" %zu", s.prologue.size())); vh::sample(trace);
}
int main(int argc, char **argv) { return vh::run(argc, argv, one, 60); }
