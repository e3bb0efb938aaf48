// C01: every handshake noise-c performs is byte for byte the one the Noise specification defines.
#include "hsdrive.hpp"
using namespace hsd;
static void one(uint64_t i, vh::Rng &r) {
    Proto p = sweep(i, r, false, vh::ctx().thorough ? 20 : 12);
    int mode = (i / 38 + i) % 4; // 0: both fixed, byte exact; 1: library initiator, model responder; 2: the reverse; 3: both library, random ephemerals
    vh::describe(vh::fmt("%s mode=%d", p.name().c_str(), mode));
    Setup s = make_setup(p, r);
    if (p.psk && r.chance(1, 10)) std::fill(s.psk.begin(), s.psk.end(), 0);
    Party mi, mr; model_setup(mi, s, true); model_setup(mr, s, false); mi.start(); mr.start();
    Lib li, lr; Lib *L[2] = {&li, &lr}; Party *M[2] = {&mi, &mr}; bool use[2] = {mode != 2, mode != 1};
    const char *who[2] = {"initiator", "responder"};
    for (int k = 0; k < 2; ++k) {
        if (!use[k]) continue;
        int err = L[k]->create(p, k == 0, r.chance(1, 2));
        if (err) { vh::viol("create", "%s cannot be created: %x", p.name().c_str(), err); return; }
        NoiseProtocolId id; memset(&id, 0, sizeof id); NoiseProtocolId want = proto_id(p);
        noise_handshakestate_get_protocol_id(L[k]->hs, &id);
        if (id.prefix_id != want.prefix_id || id.pattern_id != want.pattern_id || id.dh_id != want.dh_id || id.cipher_id != want.cipher_id || id.hash_id != want.hash_id || id.hybrid_id != want.hybrid_id)
            vh::viol("protocol-id", "%s: protocol id differs", p.name().c_str());
        bool nl = p.owns_static(k == 0), nr = p.knows_remote_static_first(k == 0);
        if (!!noise_handshakestate_needs_local_keypair(L[k]->hs) != nl || !!noise_handshakestate_needs_remote_public_key(L[k]->hs) != nr ||
            !!noise_handshakestate_needs_pre_shared_key(L[k]->hs) != p.psk)
            vh::viol("needs", "%s %s: needs_* disagree with the pattern", p.name().c_str(), who[k]);
        if ((err = L[k]->configure(s, r, mode == 0))) { vh::viol("configure", "%s %s configure err %x", p.name().c_str(), who[k], err); return; }
        if ((err = noise_handshakestate_start(L[k]->hs))) { vh::viol("start", "%s %s start err %x", p.name().c_str(), who[k], err); return; }
    }
    int nmsg = p.messages();
    std::string sizes;
    for (int n = 0; n < nmsg; ++n) {
        int w = n & 1, rd = 1 - w;
        for (int k = 0; k < 2; ++k) if (use[k]) {
            int want = k == w ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE;
            if (L[k]->action() != want) { vh::viol("action", "%s %s action %s before message %d", p.name().c_str(), who[k], actname(L[k]->action()).c_str(), n); return; }
        }
        size_t ov = overhead(p, n); Bytes payload = r.bytes(pick_payload(r, ov)); bool null_payload = payload.empty() && r.chance(1, 2);
        sizes += vh::fmt(" %zu", payload.size());
        Bytes wire, expect; bool intact;
        if (mode == 0 || !use[w]) expect = M[w]->write(payload);
        if (use[w]) {
            size_t need = ov + payload.size(), cap = r.chance(1, 2) ? need : need + r.below(100);
            int err = L[w]->write(null_payload ? nullptr : &payload, cap, wire, intact);
            if (err || !intact) { vh::viol("write", "%s %s cannot write message %d (payload %zu, buffer %zu): %x intact=%d", p.name().c_str(), who[w], n, payload.size(), cap, err, intact); return; }
            vh::ev("messages_written");
            if (mode == 0 && wire != expect) {
                size_t d = 0; while (d < wire.size() && d < expect.size() && wire[d] == expect[d]) ++d;
                vh::viol("wire", "%s message %d by %s differs from the specification at byte %zu of %zu (expected %zu bytes)", p.name().c_str(), n, who[w], d, wire.size(), expect.size()); return;
            }
            if (mode == 0) vh::ev("messages_byte_exact");
        } else wire = expect;
        // the reading side: the model always can when its own ephemerals are its own
        if (mode == 0 || !use[rd]) {
            Bytes got; int e = M[rd]->read(wire, got);
            if (e || got != payload) { vh::viol("model-read", "%s message %d written by %s is not what the specification's peer accepts (%x)", p.name().c_str(), n, who[w], e); return; }
            vh::ev("messages_read_by_model");
        }
        if (use[rd]) {
            Bytes got; bool want = !r.chance(1, 10);
            int err = L[rd]->read(wire, payload.size() + (r.chance(1, 2) ? 0 : r.below(50)), want, got, intact);
            if (err || (want && got != payload) || !intact) { vh::viol("read", "%s message %d (payload %zu) rejected by %s: %x intact=%d", p.name().c_str(), n, payload.size(), who[rd], err, intact); return; }
            vh::ev("messages_read_by_library");
        }
    }
    for (int k = 0; k < 2; ++k) if (use[k]) {
        if (L[k]->action() != NOISE_ACTION_SPLIT) { vh::viol("no-split", "%s %s action %s at the end", p.name().c_str(), who[k], actname(L[k]->action()).c_str()); return; }
        if (p.owns_static(k == 1)) {
            Bytes want = pub_of(p.dh, k == 0 ? s.rs : s.is), got = L[k]->remote_static();
            if (got != want) vh::viol("remote-static", "%s %s reports remote static %s, peer used %s", p.name().c_str(), who[k], vh::hex(got).c_str(), vh::hex(want).c_str());
            vh::ev("remote_statics_checked");
        }
        if (mode != 3) { Party &m = *M[mode == 0 ? k : 1 - k]; check_hash(*L[k], m, r, who[k]); check_transport(*L[k], m, r, who[k], 3); check_hash(*L[k], m, r, who[k]); }
    }
    if (mode == 3) {
        if (li.hash(64) != lr.hash(64) || li.hash(64).empty()) vh::viol("hash-agree", "%s handshake hashes differ", p.name().c_str());
        NoiseCipherState *is = 0, *ir = 0, *rs = 0, *rr = 0;
        if (noise_handshakestate_split(li.hs, &is, &ir) || noise_handshakestate_split(lr.hs, &rs, &rr)) { vh::viol("split", "%s split failed", p.name().c_str()); return; }
        for (int n = 0; n < 3; ++n) for (int d = 0; d < 2; ++d) {
            Bytes pt = r.bytes(r.below(300)), ct, back;
            int e1 = cs_encrypt(d ? rs : is, pt, ct), e2 = cs_decrypt(d ? ir : rr, ct, back);
            if (e1 || e2 || back != pt) vh::viol("transport-agree", "%s transport message does not come through: %x %x", p.name().c_str(), e1, e2);
            vh::ev("transport_messages");
        }
        noise_cipherstate_free(is); noise_cipherstate_free(ir); noise_cipherstate_free(rs); noise_cipherstate_free(rr);
    }
    vh::ev("handshakes_completed"); vh::eval();
    vh::sig(p.name() + vh::fmt(" %d", mode) + sizes + vh::fmt(" %zu", s.prologue.size()));
    vh::sample(vh::fmt("%s mode=%d prologue=%zu payloads%s", p.name().c_str(), mode, s.prologue.size(), sizes.c_str()));
}
int main(int argc, char **argv) { return vh::run(argc, argv, one, 60); }
