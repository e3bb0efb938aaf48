// C06: buffer capacities and length limits of the handshake, at every capacity.
#include "hsdrive.hpp"
using namespace hsd;
struct Run { Setup s; std::vector<Bytes> wire, payload; Proto p; };
// a pair of ends that has exchanged the first N messages
static bool advance(Run &R, Lib &l, bool ini, int n, vh::Rng &r) {
    if (l.create(R.p, ini, false) || l.configure(R.s, r, true) || noise_handshakestate_start(l.hs)) { vh::viol("setup", "%s cannot be set up", R.p.name().c_str()); return false; }
    for (int k = 0; k < n; ++k) {
        bool mine = (k % 2 == 0) == ini, intact; Bytes o;
        int e = mine ? l.write(&R.payload[k], R.wire[k].size() + 8, o, intact) : l.read(R.wire[k], R.payload[k].size(), true, o, intact);
        if (e || o != (mine ? R.wire[k] : R.payload[k])) { vh::viol("replay", "%s message %d cannot be repeated (%x)", R.p.name().c_str(), k, e); return false; }
    }
    return true;
}
static void failed(Lib &l, const char *what) {
    if (l.action() != NOISE_ACTION_FAILED) vh::viol(std::string("not-failed-") + what, "after a refused %s the action is %s", what, actname(l.action()).c_str());
}
static void one(uint64_t i, vh::Rng &r) {
    Run R; R.p = sweep(i, r, false, 4); R.s = make_setup(R.p, r); int nm = R.p.messages(); std::string sg = R.p.name();
    Party mi, mr; model_setup(mi, R.s, true); model_setup(mr, R.s, false); mi.start(); mr.start();
    for (int k = 0; k < nm; ++k) {
        size_t ov = overhead(R.p, k); Bytes pl = r.bytes(r.chance(1, 20) ? 65535 - ov - r.below(2) : r.chance(1, 4) ? 0 : r.below(90)), junk; R.payload.push_back(pl);
        Party &w = k % 2 ? mr : mi, &d = k % 2 ? mi : mr; R.wire.push_back(w.write(pl)); if (d.read(R.wire.back(), junk)) vh::die("model");
        if (R.wire[k].size() != ov + pl.size()) vh::die("overhead");
    }
    int k = r.below(nm); size_t ov = overhead(R.p, k), need = R.wire[k].size(), pn = R.payload[k].size(); bool wini = k % 2 == 0;
    int trials = need > 5000 ? 6 : 14;
    for (int t = 0; t < trials; ++t) {
        size_t cap; switch (r.below(5)) { case 0: cap = need - 1; break; case 1: cap = need; break; case 2: cap = ov - r.below(18) % (ov + 1); break; case 3: cap = need + r.range(1, 40); break; default: cap = r.below(need + 1); }
        vh::describe(vh::fmt("%s write message %d need %zu cap %zu", sg.c_str(), k, need, cap));
        { Lib l; if (!advance(R, l, wini, k, r)) return; Bytes o; bool intact; int e = l.write(&R.payload[k], cap, o, intact);
          if (!intact) vh::viol("write-overrun", "%s message %d into %zu bytes wrote outside its buffer or changed its payload", sg.c_str(), k, cap);
          if (cap >= need) { if (e || o != R.wire[k]) vh::viol("write-exact", "%s message %d needs %zu, got %zu bytes, gave %x", sg.c_str(), k, need, cap, e); vh::ev("writes_accepted"); }
          else { if (e != NOISE_ERROR_INVALID_LENGTH || !o.empty()) vh::viol("write-small", "%s message %d needs %zu, got %zu bytes, gave %x size %zu", sg.c_str(), k, need, cap, e, o.size()); failed(l, "write"); vh::ev("writes_refused"); } }
        // payload capacity on reading
        size_t pc; switch (r.below(4)) { case 0: pc = pn ? pn - 1 : 0; break; case 1: pc = pn; break; case 2: pc = pn + r.range(1, 40); break; default: pc = r.below(pn + 1); }
        vh::describe(vh::fmt("%s read message %d payload %zu cap %zu", sg.c_str(), k, pn, pc));
        { Lib l; if (!advance(R, l, !wini, k, r)) return; Bytes o; bool intact; int e = l.read(R.wire[k], pc, true, o, intact);
          if (!intact) vh::viol("read-overrun", "%s message %d: payload of %zu into %zu bytes written outside the buffer", sg.c_str(), k, pn, pc);
          if (pc >= pn) { if (e || o != R.payload[k]) vh::viol("read-exact", "%s message %d: payload of %zu into %zu bytes gave %x", sg.c_str(), k, pn, pc, e); vh::ev("reads_accepted"); }
          else { if (e != NOISE_ERROR_INVALID_LENGTH || !o.empty()) vh::viol("read-small", "%s message %d: payload of %zu into %zu bytes gave %x size %zu", sg.c_str(), k, pn, pc, e, o.size()); failed(l, "read"); vh::ev("reads_refused"); } }
        // truncated input, exactly allocated: never read past, always refused
        size_t cut = r.chance(1, 3) ? need - 1 : r.chance(1, 2) ? r.below(std::min(need, ov + 2)) : r.below(need); Bytes shrt(R.wire[k].begin(), R.wire[k].begin() + cut);
        vh::describe(vh::fmt("%s read message %d cut to %zu of %zu", sg.c_str(), k, cut, need));
        { Lib l; if (!advance(R, l, !wini, k, r)) return; Bytes o; bool intact, want = r.chance(3, 4); int e = l.read(shrt, pn, want, o, intact);
          // a message that is not authenticated yet may lose payload bytes unnoticed
          bool legit = cut >= ov;
          if (!e && !legit) vh::viol("short-accepted", "%s message %d cut to %zu bytes (fixed part %zu) accepted", sg.c_str(), k, cut, ov);
          if (!intact) vh::viol("read-overrun", "%s message %d cut to %zu: payload buffer overrun", sg.c_str(), k, cut);
          if (e) { failed(l, "read"); vh::ev("truncations_refused"); } else vh::ev("cleartext_truncations"); }
        vh::eval();
    }
    // the 65535-byte limit, from both sides
    {
        size_t over = 65535 - ov + r.range(1, 40), at = 65535 - ov; bool ok = r.chance(1, 2); Bytes big = r.bytes(ok ? at : over); Lib l; if (!advance(R, l, wini, k, r)) return; Bytes o; bool intact;
        vh::describe(vh::fmt("%s message %d of %zu bytes", sg.c_str(), k, big.size() + ov));
        int e = l.write(&big, ov + big.size() + r.below(100), o, intact);
        if (ok ? (e || o.size() != 65535) : (e != NOISE_ERROR_INVALID_LENGTH || !o.empty())) vh::viol("limit-write", "%s message %d of %zu bytes gave %x (%zu bytes)", sg.c_str(), k, ov + big.size(), e, o.size());
        vh::ev(ok ? "longest_messages" : "overlong_refused");
        if (ok) { Lib d; if (!advance(R, d, !wini, k, r)) return; Bytes back; e = d.read(o, at, true, back, intact); if (e || back != big) vh::viol("limit-read", "%s message %d of 65535 bytes refused: %x", sg.c_str(), k, e); }
        else {
            Lib d; if (!advance(R, d, !wini, k, r)) return; Bytes x = r.bytes(65536 + r.below(20000)), back; memcpy(&x[0], &R.wire[k][0], std::min(R.wire[k].size(), x.size()));
            if (r.chance(3, 4)) { // a correctly built message just over the limit, every field of it in order
                Party ai, ar; model_setup(ai, R.s, true); model_setup(ar, R.s, false); ai.start(); ar.start(); Bytes j;
                for (int q = 0; q < k; ++q) { Party &w = q % 2 ? ar : ai, &f = q % 2 ? ai : ar; if (f.read(w.write(R.payload[q]), j)) vh::die("model"); }
                x = (k % 2 ? ar : ai).write(r.bytes(65536 - ov + r.below(std::max<size_t>(ov, 1)))); if (x.size() <= 65535) vh::die("overlong"); vh::ev("overlong_genuine");
            }
            e = d.read(x, 70000, true, back, intact); if (!e) vh::viol("overlong-read", "%s message %d of %zu bytes accepted", sg.c_str(), k, x.size()); failed(d, "read"); vh::ev("overlong_refused"); }
        vh::eval();
    }
    // handshake hash into any length
    if (k == nm - 1) { Lib l; if (!advance(R, l, r.chance(1, 2), nm, r)) return; Party &m = mi; for (int q = 0; q < 4; ++q) { size_t n = r.below(140); vh::Guard g(n); int e = noise_handshakestate_get_handshake_hash(l.hs, g.p, n); Bytes w = m.sym.hh; w.resize(n, 0); if (e || !g.intact() || memcmp(g.p, w.data(), n)) vh::viol("hash-length", "handshake hash into %zu bytes gave %x or wrong bytes", n, e); vh::ev("hash_lengths"); } }
    vh::sig(sg + vh::fmt(" %d %zu", k, need)); if (i % 400 == 0) vh::sample(vh::fmt("%s message %d need %zu", sg.c_str(), k, need));
}
int main(int argc, char **argv) { return vh::run(argc, argv, one, 60); }
