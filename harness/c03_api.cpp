// C03: the HandshakeState API follows its documented state machine for every order of calls.
// Two library objects and, for each, a small executable model of the documented states; random
// calls, most of them out of order or malformed, on either.
#include "hsdrive.hpp"
using namespace hsd;
typedef std::set<int> Codes;
struct Obj {
    Lib lib; Proto p; bool ini; int action = NOISE_ACTION_NONE; bool psk = false, local = false, remote = false; int idx = 0; bool fellback = false, dead = false;
    bool have_e = false; // the ephemeral a fallback would need exists (local for the initiator, remote for the responder)
    Bytes prologue, pskv; int curpat() const { return fellback ? (is_hfs(*p.pat) ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK) : p.pat->id; }
};
static std::string codes(const Codes &c) { std::string s; for (int x : c) s += vh::fmt("%x ", x); return s; }
static bool g_bad;
static void expect(const std::string &trace, const char *call, int got, const Codes &want) {
    vh::ev(std::string("calls_") + call); vh::eval();
    if (!want.count(got)) { vh::viol(std::string("return-") + call, "%s returns %x, documented: %s| %s", call, got, codes(want).c_str(), trace.substr(trace.size() > 260 ? trace.size() - 260 : 0).c_str()); g_bad = true; }
    else if (got) vh::ev(vh::fmt("rejected_%s_%x", call, got));
}
static void one(uint64_t i, vh::Rng &r) {
    g_bad = false;
    Proto p = sweep(i, r, false, 5); if (i % 38 == 37 && r.chance(1, 2)) { p.pat = 0; for (auto &q : patterns()) if (q.fallback && (r.chance(1, 2) || !p.pat)) p.pat = &q; p.hybrid = is_hfs(*p.pat) ? D25519 : DNone; if (p.dh == DNewHope) p.dh = D25519; }
    Setup s = make_setup(p, r); if (s.prologue.size() > 500) s.prologue.resize(20);
    Obj O[2]; std::string name = p.name(), trace = name; vh::describe(name);
    for (int k = 0; k < 2; ++k) { O[k].ini = k == 0; O[k].p = p; int e = O[k].lib.create(p, k == 0, r.chance(1, 2)); if (e) { vh::viol("create", "%s: %x", name.c_str(), e); return; } }
    bool random_order = r.chance(1, 3); // otherwise mostly useful calls, so that late states are reached
    std::vector<std::pair<int, Bytes>> flight; Bytes msg[2]; bool have_msg[2] = {false, false}; // message waiting for side k
    int ops = 60 + r.below(60);
    bool poison = false;
    for (int step = 0; step < ops && !g_bad; ++step) {
        int k = r.below(2); if (!random_order) { if (O[0].action == NOISE_ACTION_WRITE_MESSAGE || have_msg[0]) k = r.chance(3, 4) ? 0 : 1; else if (O[1].action == NOISE_ACTION_WRITE_MESSAGE || have_msg[1]) k = r.chance(3, 4) ? 1 : 0; }
        Obj &o = O[k]; NoiseHandshakeState *hs = o.lib.hs; const char *w = k ? "R." : "I.";
        int op = r.below(14);
        if (!random_order && r.chance(3, 5)) {
            if (o.action == NOISE_ACTION_NONE) { op = (p.psk && !o.psk) ? 0 : (p.owns_static(o.ini) && !o.local) ? 2 : (p.knows_remote_static_first(o.ini) && !o.remote) ? 3 : 4; }
            else if (o.action == NOISE_ACTION_WRITE_MESSAGE) op = 5; else if (o.action == NOISE_ACTION_READ_MESSAGE) op = 7; else if (o.action == NOISE_ACTION_SPLIT) op = r.chance(1, 2) ? 8 : 9;
        }
        bool fallbackpat = p.pat->fallback && !o.fellback;
        vh::describe(trace.size() > 380 ? trace.substr(trace.size() - 380) : trace);
        switch (op) {
        case 0: { // pre-shared key
            Codes c; int v = r.below(8); Bytes key = s.psk; if (!random_order && v < 3) v = 7;
            if (v == 0) { key = r.bytes(r.chance(1, 2) ? 31 + 2 * r.below(2) : r.below(100)); if (key.size() == 32 || key.empty()) key.push_back(0); c.insert(NOISE_ERROR_INVALID_LENGTH); }
            if (v == 1) c = {NOISE_ERROR_INVALID_PARAM};
            if (!p.psk) c.insert(NOISE_ERROR_NOT_APPLICABLE);
            if (o.action != NOISE_ACTION_NONE) c.insert(NOISE_ERROR_INVALID_STATE);
            bool ok = c.empty(); if (ok) c.insert(0); trace += std::string(" ") + w + "psk";
            expect(trace, "set_pre_shared_key", noise_handshakestate_set_pre_shared_key(hs, v == 1 ? 0 : key.data(), key.size()), c); if (ok) o.psk = true; break; }
        case 1: {
            Codes c; bool null = r.chance(1, 6); if (null) c.insert(NOISE_ERROR_INVALID_PARAM); if (o.action != NOISE_ACTION_NONE) c.insert(NOISE_ERROR_INVALID_STATE);
            Bytes pr = s.prologue; bool ok = c.empty(); if (ok) c.insert(0); pr.push_back(0); trace += std::string(" ") + w + "prologue";
            expect(trace, "set_prologue", noise_handshakestate_set_prologue(hs, null ? 0 : pr.data(), pr.size() - 1), c); if (ok) o.prologue = s.prologue; break; }
        case 2: {
            NoiseDHState *d = noise_handshakestate_get_local_keypair_dh(hs); bool own = p.owns_static(o.ini);
            if (!!d != own) { vh::viol("local-dh", "%s local static object %s", name.c_str(), d ? "present but not needed" : "missing"); return; }
            if (d && o.action == NOISE_ACTION_NONE && !o.fellback) { const Bytes &pv = o.ini ? s.is : s.rs; trace += std::string(" ") + w + "key"; expect(trace, "set_keypair", noise_dhstate_set_keypair_private(d, pv.data(), pv.size()), {0}); o.local = true; }
            break; }
        case 3: {
            NoiseDHState *d = noise_handshakestate_get_remote_public_key_dh(hs); bool has = p.owns_static(!o.ini);
            if (!!d != has) { vh::viol("remote-dh", "%s remote static object %s", name.c_str(), d ? "present but not needed" : "missing"); return; }
            if (d && o.action == NOISE_ACTION_NONE && !o.fellback && p.knows_remote_static_first(o.ini)) { Bytes pub = pub_of(p.dh, o.ini ? s.rs : s.is); trace += std::string(" ") + w + "rkey"; expect(trace, "set_public_key", noise_dhstate_set_public_key(d, pub.data(), pub.size()), {0}); o.remote = true; }
            break; }
        case 4: { // start
            Codes c; if (o.action != NOISE_ACTION_NONE) c = {NOISE_ERROR_INVALID_STATE}; else {
                if (fallbackpat) c.insert(NOISE_ERROR_NOT_APPLICABLE);
                bool nl = o.fellback ? true : p.owns_static(o.ini), nr = o.fellback ? false : p.knows_remote_static_first(o.ini);
                if (!fallbackpat) {
                if (nl && !o.local) c.insert(NOISE_ERROR_LOCAL_KEY_REQUIRED); if (nr && !o.remote) c.insert(NOISE_ERROR_REMOTE_KEY_REQUIRED); if (p.psk && !o.psk) c.insert(NOISE_ERROR_PSK_REQUIRED); } }
            bool ok = c.empty(); if (ok) c.insert(0); trace += std::string(" ") + w + "start";
            expect(trace, "start", noise_handshakestate_start(hs), c);
            if (ok) { bool ini = o.fellback ? !o.ini : o.ini; o.action = ini ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE; o.idx = 0; } break; }
        case 5: case 6: { // write
            int v = r.below(12); if (!random_order && v < 4 && r.chance(3, 4)) v = 11; Bytes buf(8192 + 64, 0x77); NoiseBuffer mb, pb; Bytes pl = r.bytes(r.below(200)); pl.reserve(1); size_t cap = 8192;
            bool my = o.action == NOISE_ACTION_WRITE_MESSAGE; size_t need = 0;
            const PatSpec *cur = p.pat; Proto q = p; if (o.fellback) { for (auto &z : patterns()) if (z.id == o.curpat()) cur = &z; q.pat = cur; }
            if (my) need = overhead(q, o.idx) + pl.size();
            if (v == 0 && need) cap = r.chance(1, 2) ? need - 1 : r.below(need);
            noise_buffer_set_output(mb, buf.data(), cap); noise_buffer_set_input(pb, pl.empty() ? buf.data() : pl.data(), pl.size());
            Codes c; NoiseHandshakeState *h2 = hs; NoiseBuffer *m2 = &mb, *p2 = &pb; bool fatal = false;
            if (v == 1) { h2 = 0; c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 2) { m2 = 0; c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 3) { mb.data = 0; c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 4 && random_order) { pb.data = 0; c = {NOISE_ERROR_INVALID_PARAM}; }
            else if (!my) c = {NOISE_ERROR_INVALID_STATE}; else if (v == 0) { c = {NOISE_ERROR_INVALID_LENGTH}; fatal = true; }
            else if (v == 5 && random_order) { p2 = 0; need -= pl.size(); }
            bool ok = c.empty(); if (ok) c.insert(0); trace += vh::fmt(" %swrite%s", w, ok ? "" : fatal ? "!short" : "!");
            int e = noise_handshakestate_write_message(h2, m2, p2); expect(trace, "write_message", e, c); if (g_bad) break;
            if (ok && mb.size != need) { vh::viol("write-size", "%s message %d has %zu bytes, expected %zu", name.c_str(), o.idx, (size_t)mb.size, need); return; }
            if (!ok && m2 && mb.size != 0) { vh::viol("write-size-on-error", "%s failed write leaves size %zu", name.c_str(), (size_t)mb.size); return; }
            for (size_t z = cap; z < buf.size(); ++z) if (buf[z] != 0x77) { vh::viol("bounds", "write_message wrote outside its buffer"); return; }
            if (fatal) { o.action = NOISE_ACTION_FAILED; if (o.ini && !o.fellback && cap >= publen(p.dh, true) + (is_hfs(*p.pat) ? publen(p.hybrid, true) : 0)) o.have_e = true; else if (o.ini && !o.fellback && o.idx == 0) o.dead = true; }
            if (ok) { have_msg[1 - k] = true; msg[1 - k].assign(buf.begin(), buf.begin() + mb.size); if (o.ini && o.idx == 0 && !o.fellback) o.have_e = true; ++o.idx;
                int cm = q.messages(); o.action = o.idx >= cm ? NOISE_ACTION_SPLIT : NOISE_ACTION_READ_MESSAGE; }
            break; }
        case 7: { // read
            int v = r.below(12); if (!random_order && v < 5 && r.chance(3, 4)) v = 11; Bytes out(9000, 0x66); NoiseBuffer mb, pb; bool avail = have_msg[k]; Bytes m = avail ? msg[k] : r.bytes(1 + r.below(4000)); bool my = o.action == NOISE_ACTION_READ_MESSAGE;
            Bytes orig = m; if (v == 0 && !m.empty()) m.resize(r.below(std::min<size_t>(m.size(), 32))); m.reserve(1);
            noise_buffer_set_input(mb, m.empty() ? out.data() : m.data(), m.size()); noise_buffer_set_output(pb, out.data(), out.size()); pb.size = 5;
            Codes c; NoiseHandshakeState *h2 = hs; NoiseBuffer *m2 = &mb, *p2 = &pb; bool fatal = false;
            if (v == 1) { h2 = 0; c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 2) { m2 = 0; c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 3) { mb.data = 0; c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 4 && random_order) { pb.data = 0; c = {NOISE_ERROR_INVALID_PARAM}; }
            else if (v == 5 && random_order) { mb.max_size = mb.size; mb.size += 1 + r.below(9); c = {NOISE_ERROR_INVALID_LENGTH}; if (!my) c.insert(NOISE_ERROR_INVALID_STATE); }
            else if (!my) c = {NOISE_ERROR_INVALID_STATE}; else if (v == 0) { c = {NOISE_ERROR_INVALID_LENGTH}; fatal = true; }
            else if (!avail || poison || O[1 - k].fellback != o.fellback || O[0].prologue != O[1].prologue) { if (!avail && v != 0 && !random_order) break; fatal = true; } // garbage or disagreeing: judged by C02, only the bookkeeping here
            else if (v == 6 && random_order) p2 = 0;
            trace += vh::fmt(" %sread%s", w, !c.empty() ? "!" : avail ? "" : "!junk");
            int e = noise_handshakestate_read_message(h2, m2, p2);
            if (e && e != NOISE_ERROR_INVALID_PARAM && p2 && pb.size) { vh::viol("read-size-on-error", "%s failed read (%x) reports payload size %zu", name.c_str(), e, (size_t)pb.size); return; }
            if (fatal && c.empty()) { if (!e) { poison = true; // an unauthenticated first message may be accepted
                    if (o.idx == 0 && !o.ini && !o.fellback) o.have_e = true; ++o.idx; Proto q = p; if (o.fellback) for (auto &z : patterns()) if (z.id == o.curpat()) q.pat = &z; o.action = o.idx >= q.messages() ? NOISE_ACTION_SPLIT : NOISE_ACTION_WRITE_MESSAGE; have_msg[k] = false; }
                else { o.action = NOISE_ACTION_FAILED; have_msg[k] = false; o.dead = true; } break; }
            if (c.empty()) c.insert(0); expect(trace, "read_message", e, c); if (g_bad) break;
            if (fatal) { o.action = NOISE_ACTION_FAILED; have_msg[k] = false; }
            else if (c.count(0)) { have_msg[k] = false; if (!o.ini && o.idx == 0 && !o.fellback) o.have_e = true; ++o.idx; Proto q = p; if (o.fellback) for (auto &z : patterns()) if (z.id == o.curpat()) q.pat = &z; o.action = o.idx >= q.messages() ? NOISE_ACTION_SPLIT : NOISE_ACTION_WRITE_MESSAGE; vh::ev("handshake_messages_read"); }
            else if (p2 && pb.size != 0 && e != NOISE_ERROR_INVALID_PARAM) { vh::viol("read-size-on-error", "%s failed read reports payload size %zu", name.c_str(), (size_t)pb.size); return; }
            break; }
        case 8: { // split
            int v = r.below(7); NoiseCipherState *a = 0, *b = 0; Codes c; if (v == 0) c = {NOISE_ERROR_INVALID_PARAM}; else if (o.action != NOISE_ACTION_SPLIT) c = {NOISE_ERROR_INVALID_STATE};
            if (v == 0 && o.action != NOISE_ACTION_SPLIT) c.insert(NOISE_ERROR_INVALID_STATE);
            bool ok = c.empty(); if (ok) c.insert(0); trace += std::string(" ") + w + "split";
            int e = noise_handshakestate_split(hs, v == 0 || v == 1 ? 0 : &a, v == 0 || v == 2 ? 0 : &b); expect(trace, "split", e, c);
            if (ok && !e) { if ((v != 1) != !!a || (v != 2) != !!b) vh::viol("split-outputs", "%s split did not return the CipherStates asked for", name.c_str()); o.action = NOISE_ACTION_COMPLETE; vh::ev("splits");
                if ((a && !noise_cipherstate_has_key(a)) || (b && !noise_cipherstate_has_key(b))) vh::viol("split-nokey", "%s split returned a CipherState without key", name.c_str()); }
            else if (a || b) vh::viol("split-on-error", "%s failed split returned CipherStates", name.c_str());
            if (a) noise_cipherstate_free(a); if (b) noise_cipherstate_free(b); break; }
        case 9: {
            uint8_t h[65]; memset(h, 0xEE, 65); size_t n = r.below(65); bool null = r.chance(1, 8); Codes c; if (null) c.insert(NOISE_ERROR_INVALID_PARAM); else if (o.action != NOISE_ACTION_SPLIT && o.action != NOISE_ACTION_COMPLETE) c.insert(NOISE_ERROR_INVALID_STATE); else c.insert(0);
            expect(trace, "get_handshake_hash", noise_handshakestate_get_handshake_hash(hs, null ? 0 : h, n), c); if (h[n] != 0xEE) vh::viol("bounds", "handshake hash overran %zu bytes", n); break; }
        case 10: { // fallback
            int pid; int v = r.below(6); bool hfs = is_hfs(*p.pat); pid = v == 0 ? NOISE_PATTERN_XX : v == 1 ? NOISE_ID('P', 200) : v == 2 ? NOISE_PATTERN_IK : hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK;
            if (!random_order && r.chance(2, 3)) break;
            Codes c; bool possible = !o.fellback && p.pat->rs_pre && p.messages() > 1; bool isfb = v > 2;
            bool st = o.action == NOISE_ACTION_FAILED || o.action == (o.ini ? NOISE_ACTION_READ_MESSAGE : NOISE_ACTION_WRITE_MESSAGE);
            if (!possible || !isfb) c.insert(NOISE_ERROR_NOT_APPLICABLE); if (possible && isfb && (!st || !o.have_e)) c.insert(NOISE_ERROR_INVALID_STATE);
            if (possible && isfb && st && !o.have_e && o.dead) break; // whether the ephemeral arrived before the failure is not tracked
            bool ok = c.empty(); if (ok) c.insert(0); trace += vh::fmt(" %sfallback", w);
            int e = (isfb && !hfs && r.chance(1, 2)) ? noise_handshakestate_fallback(hs) : noise_handshakestate_fallback_to(hs, pid);
            expect(trace, "fallback", e, c); if (ok && !e) { o.fellback = true; o.action = NOISE_ACTION_NONE; o.idx = 0; o.local = o.local && p.owns_static(o.ini); have_msg[k] = false; have_msg[1 - k] = false; vh::ev("fallbacks"); if (!p.owns_static(true)) step = ops; /* NK: XXfallback has no static key to send */ }
            break; }
        case 11: { // queries
            bool nl = o.fellback ? true : p.owns_static(o.ini);
            if (!o.fellback) {
                if (!!noise_handshakestate_needs_local_keypair(hs) != (nl && !o.local)) vh::viol("needs-local", "%s %sneeds_local_keypair wrong", name.c_str(), w);
                if (!!noise_handshakestate_has_local_keypair(hs) != o.local) vh::viol("has-local", "%s %shas_local_keypair wrong", name.c_str(), w);
                if (!!noise_handshakestate_needs_remote_public_key(hs) != (p.knows_remote_static_first(o.ini) && !o.remote)) vh::viol("needs-remote", "%s %sneeds_remote_public_key wrong", name.c_str(), w);
                if (o.action == NOISE_ACTION_NONE && !!noise_handshakestate_has_remote_public_key(hs) != o.remote) vh::viol("has-remote", "%s %shas_remote_public_key wrong", name.c_str(), w);
            }
            if (!!noise_handshakestate_needs_pre_shared_key(hs) != (p.psk && !o.psk) || !!noise_handshakestate_has_pre_shared_key(hs) != o.psk) vh::viol("psk-queries", "%s %spsk queries wrong", name.c_str(), w);
            int role = (o.ini != o.fellback) ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER; if (noise_handshakestate_get_role(hs) != role) vh::viol("role", "%s %srole %x", name.c_str(), w, noise_handshakestate_get_role(hs));
            NoiseProtocolId id; if (noise_handshakestate_get_protocol_id(hs, &id) || id.pattern_id != o.curpat()) vh::viol("protocol-id", "%s %sprotocol id pattern %x", name.c_str(), w, id.pattern_id);
            vh::ev("queries"); break; }
        case 12: // NULL objects
            expect(trace, "null_start", noise_handshakestate_start(0), {NOISE_ERROR_INVALID_PARAM}); expect(trace, "null_free", noise_handshakestate_free(0), {NOISE_ERROR_INVALID_PARAM}); expect(trace, "null_fallback", noise_handshakestate_fallback(0), {NOISE_ERROR_INVALID_PARAM});
            { NoiseCipherState *a = 0; expect(trace, "null_split", noise_handshakestate_split(0, &a, 0), {NOISE_ERROR_INVALID_PARAM}); uint8_t h[4]; expect(trace, "null_hash", noise_handshakestate_get_handshake_hash(0, h, 4), {NOISE_ERROR_INVALID_PARAM}); expect(trace, "null_prologue", noise_handshakestate_set_prologue(0, h, 4), {NOISE_ERROR_INVALID_PARAM});
              expect(trace, "null_psk", noise_handshakestate_set_pre_shared_key(0, h, 4), {NOISE_ERROR_INVALID_PARAM, NOISE_ERROR_INVALID_LENGTH}); NoiseProtocolId id; expect(trace, "null_id", noise_handshakestate_get_protocol_id(0, &id), {NOISE_ERROR_INVALID_PARAM}); expect(trace, "null_id2", noise_handshakestate_get_protocol_id(hs, 0), {NOISE_ERROR_INVALID_PARAM}); }
            if (noise_handshakestate_get_action(0) != NOISE_ACTION_NONE || noise_handshakestate_get_role(0) || noise_handshakestate_needs_pre_shared_key(0) || noise_handshakestate_has_pre_shared_key(0) || noise_handshakestate_needs_local_keypair(0) || noise_handshakestate_has_local_keypair(0) || noise_handshakestate_needs_remote_public_key(0) || noise_handshakestate_has_remote_public_key(0) ||
                noise_handshakestate_get_local_keypair_dh(0) || noise_handshakestate_get_remote_public_key_dh(0) || noise_handshakestate_get_fixed_ephemeral_dh(0) || noise_handshakestate_get_fixed_hybrid_dh(0)) vh::viol("null-queries", "a query of a NULL handshake is not empty");
            break;
        case 13: { // creation errors leave nothing behind
            NoiseHandshakeState *h = (NoiseHandshakeState *)16; NoiseProtocolId id = proto_id(p); int v = r.below(8), e = 0; Codes c;
            if (v == 0) { e = noise_handshakestate_new_by_id(&h, &id, 0); c = {NOISE_ERROR_INVALID_PARAM}; } else if (v == 1) { e = noise_handshakestate_new_by_name(&h, 0, NOISE_ROLE_INITIATOR); c = {NOISE_ERROR_INVALID_PARAM}; }
            else if (v == 2) { id.pattern_id = NOISE_ID('P', 1 + r.below(255)); bool known = false; for (auto &q : patterns()) known |= q.id == id.pattern_id; if (known) { h = 0; break; } e = noise_handshakestate_new_by_id(&h, &id, NOISE_ROLE_INITIATOR); c = {NOISE_ERROR_UNKNOWN_ID}; }
            else if (v == 3) { id.cipher_id = NOISE_ID('C', 9); e = noise_handshakestate_new_by_id(&h, &id, NOISE_ROLE_RESPONDER); c = {NOISE_ERROR_UNKNOWN_ID}; }
            else if (v == 4) { std::string b = name; b[r.below(b.size())] ^= 0x15; b += "x"; e = noise_handshakestate_new_by_name(&h, b.c_str(), NOISE_ROLE_RESPONDER); c = {NOISE_ERROR_UNKNOWN_NAME}; }
            else if (v == 5) { e = noise_handshakestate_new_by_id(&h, 0, NOISE_ROLE_INITIATOR); c = {NOISE_ERROR_INVALID_PARAM}; }
            else if (v == 6) { // ephemeral-only key agreement where the pattern needs static keys
                if (p.owns_static(true) || p.owns_static(false)) { id.dh_id = NOISE_DH_NEWHOPE; e = noise_handshakestate_new_by_id(&h, &id, NOISE_ROLE_INITIATOR); c = {NOISE_ERROR_NOT_APPLICABLE}; } else { h = 0; break; } }
            else { // hybrid secrecy without a hybrid algorithm and the other way round
                if (is_hfs(*p.pat)) id.hybrid_id = 0; else id.hybrid_id = NOISE_DH_CURVE25519; e = noise_handshakestate_new_by_id(&h, &id, r.chance(1, 2) ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER); c = {NOISE_ERROR_NOT_APPLICABLE}; }
            trace += vh::fmt(" new!%d", v); expect(trace, "new", e, c); if (h) { vh::viol("new-dangling", "%s failed creation (%d, %x) leaves a pointer behind", name.c_str(), v, e); return; } break; }
        }
        for (int z = 0; z < 2 && !g_bad; ++z) if (O[z].lib.action() != O[z].action) { vh::viol("action", "%s %s: action %s, documented %s after%s", name.c_str(), z ? "responder" : "initiator", actname(O[z].lib.action()).c_str(), actname(O[z].action).c_str(), trace.substr(trace.size() > 200 ? trace.size() - 200 : 0).c_str()); return; }
        vh::ev(std::string("state_") + actname(o.action));
    }
    vh::sig(trace); vh::sample(trace.substr(0, 400));
}
int main(int argc, char **argv) { return vh::run(argc, argv, one, 60); }
