// C30: the echo client, server and key generator, run as processes over the loopback network against an
// executable model of the Noise specification that plays the other end, honest or hostile.
#include "vh.hpp"
#include "model.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace vh; using namespace model;

static std::string bin, dir; static uint64_t uniq; static std::set<Bytes> ephemerals;
static std::string P(const std::string &n) { return dir + "/" + n; }
static std::string slurp(const std::string &n) { std::string o; if (FILE *f = fopen(P(n).c_str(), "rb")) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) o.append(b, k); fclose(f); } return o; }
static void spit(const std::string &n, const std::string &b) { FILE *f = fopen(P(n).c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) die("scratch file"); }
static std::string S(const Bytes &b) { return std::string(b.begin(), b.end()); }
static std::string b64(const Bytes &b) {
    static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for (size_t i = 0; i < b.size(); i += 3) {
        uint32_t g = b[i] << 16; int n = 1; if (i + 1 < b.size()) { g |= b[i + 1] << 8; ++n; } if (i + 2 < b.size()) { g |= b[i + 2]; ++n; }
        for (int k = 0; k < 4; ++k) o += k <= n ? t[g >> (18 - 6 * k) & 63] : '=';
    }
    return o;
}
// Known findings of the examples; the sessions stay clear of them and known_case() shows each by itself.
static std::string lined(Rng &r, const std::string &s) { return s + (r.chance(1, 2) ? "\n" : ""); }
static std::string spaced(Rng &r, const std::string &s) {      // base64 text as people keep it
    ev("keys_with_white_space"); std::string o; size_t w = 1 + r.below(40);
    for (size_t i = 0; i < s.size(); ++i) { if (i % w == 0 && (i || r.chance(1, 3))) o += r.chance(1, 2) ? "\n" : r.chance(1, 2) ? " " : r.chance(1, 2) ? "\r\n" : "\t"; o += s[i]; }
    return o + "\n";
}
// ---- processes
struct Proc { pid_t pid = -1; std::string err, out; };
static Proc spawn(const std::string &prog, const std::vector<std::string> &args, const std::string &in, const std::string &tag, long room = -1) {
    Proc p; p.out = tag + ".out"; p.err = tag + ".err"; spit(tag + ".in", in); fflush(0);
    p.pid = fork(); if (p.pid < 0) die("fork");
    if (!p.pid) {
        setsid(); if (chdir(dir.c_str())) _exit(120);
        int i = open((tag + ".in").c_str(), O_RDONLY), o = open(p.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), e = open(p.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        if (i < 0 || o < 0 || e < 0) _exit(120);
        dup2(i, 0); dup2(o, 1); dup2(e, 2); for (int f = 3; f < 200; ++f) close(f);
        if (room >= 0) { struct rlimit l = {(rlim_t)room, (rlim_t)room}; setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, SIG_IGN); } // a full disk
        signal(SIGPIPE, SIG_DFL); signal(SIGPROF, SIG_DFL);
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0", 1); setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=99", 1);
        std::vector<char *> av; av.push_back((char *)prog.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(0);
        alarm(200); execv((bin + "/" + prog).c_str(), av.data()); _exit(121);
    }
    return p;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int wait_for(Proc &p, double secs, const char *what) {      // exit status, or -1 when it did not end
    double end = now() + secs; int st;
    for (;;) {
        pid_t w = waitpid(p.pid, &st, WNOHANG);
        if (w == p.pid) { int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); p.pid = -1; if (rc == 120 || rc == 121) die("cannot run %s", what); return rc; }
        if (now() > end) { kill(-p.pid, SIGKILL); waitpid(p.pid, &st, 0); p.pid = -1; return -1; }
        usleep(2000);
    }
}
static void sane(const std::string &err, const char *what) {
    size_t q = err.find("ERROR: AddressSanitizer: "), u = err.find("runtime error:");
    if (q != std::string::npos) viol(std::string("crash-") + what + "-" + err.substr(q + 25, err.find(' ', q + 25) - q - 25), "%s: %s", what, err.substr(q, 1500).c_str());
    else if (u != std::string::npos) viol(std::string("crash-") + what + "-undefined", "%s: %s", what, err.substr(u > 100 ? u - 100 : 0, 800).c_str());
}
// ---- sockets
static const double LIMIT = 60;
struct Sock {
    int fd = -1; bool slow = false; Rng *r = 0; bool timed_out = false; double limit = LIMIT;
    ~Sock() { if (fd >= 0) close(fd); }
    Sock() {} Sock(const Sock &) = delete;
    bool send(const Bytes &b) {
        size_t o = 0; while (o < b.size()) {
            size_t k = b.size() - o; if (slow && k > 1 && r->chance(4, 5)) { k = 1 + r->below(std::min<size_t>(k, r->chance(1, 3) ? 3 : 3000)); if (r->chance(1, 8)) usleep(r->below(1500)); }
            ssize_t n = ::send(fd, b.data() + o, k, MSG_NOSIGNAL); if (n < 0) { if (errno == EINTR) continue; return false; } o += n;
        }
        return true;
    }
    // n bytes; fewer when the other end has closed
    Bytes recv(size_t n) {
        Bytes b; double end = now() + limit;
        while (b.size() < n) {
            struct pollfd p = {fd, POLLIN, 0}; int k = poll(&p, 1, 500);
            if (k <= 0) { if (now() > end) { timed_out = true; return b; } continue; }
            uint8_t t[65536]; ssize_t g = ::recv(fd, t, std::min(n - b.size(), sizeof t), 0);
            if (g < 0 && errno == EINTR) continue;
            if (g <= 0) return b;
            b.insert(b.end(), t, t + g);
        }
        return b;
    }
    bool frame(Bytes &b) { Bytes h = recv(2); b.clear(); if (h.size() < 2) return false; size_t n = h[0] << 8 | h[1]; b = recv(n); return b.size() == n; }
};
static Bytes framed(const Bytes &m) { Bytes b = {(uint8_t)(m.size() >> 8), (uint8_t)m.size()}; b.insert(b.end(), m.begin(), m.end()); return b; }
static Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// ---- the echo protocol (cacophony's), from its definition
static const char *PATS[] = {"NN", "KN", "NK", "KK", "NX", "KX", "XN", "IN", "XK", "IK", "XX", "IX"};
static Proto echo_proto(Rng &r, bool client = false) {
    Proto p; std::string n = PATS[r.below(12)]; bool hfs = r.chance(1, 3); p.psk = r.chance(1, 3); p.c = r.chance(1, 2) ? oracle::ChaChaPoly : oracle::AESGCM; p.h = (Hash)r.below(4);
    p.dh = r.chance(1, 2) ? D25519 : D448; if (n == "NN" && r.chance(1, 2)) p.dh = DNewHope;
    if (hfs) { n += "hfs"; p.hybrid = r.chance(1, 3) && !(client && p.dh == DNewHope) ? DNewHope : r.chance(1, 2) ? D25519 : D448; }
    for (auto &q : patterns()) if (n == q.name) p.pat = &q;
    return p;
}
static Bytes echo_id(const Proto &p) {
    int k = 0; std::string n = p.pat->name; bool hfs = n.size() > 2; while (n.substr(0, 2) != PATS[k]) ++k;
    static const int hid[] = {2, 3, 0, 1};   // BLAKE2s, BLAKE2b, SHA256, SHA512
    return Bytes{(uint8_t)p.psk, (uint8_t)(k | (hfs ? 0x80 : 0)), (uint8_t)(p.c == oracle::AESGCM), (uint8_t)((p.dh == D25519 ? 0 : p.dh == D448 ? 1 : 2) | (p.hybrid == DNone ? 0 : p.hybrid == D25519 ? 0x10 : p.hybrid == D448 ? 0x20 : 0x30)), (uint8_t)hid[p.h]};
}
struct Keys { Bytes c25, c448, s25, s448, psk; const Bytes &c(DhAlg d) const { return d == D448 ? c448 : c25; } const Bytes &s(DhAlg d) const { return d == D448 ? s448 : s25; } };
static Bytes pub(DhAlg d, const Bytes &k) { return oracle::dh_public(d == D448 ? oracle::X448 : oracle::X25519, k); }
static Keys make_keys(Rng &r) {
    Keys k; k.c25 = r.bytes(32); k.s25 = r.bytes(32); k.c448 = r.bytes(56); k.s448 = r.bytes(56); k.psk = r.bytes(32);
    spit("server_key_25519", S(k.s25)); spit("server_key_448", S(k.s448)); spit("client_key_25519", S(k.c25)); spit("client_key_448", S(k.c448));
    spit("client_key_25519.pub", lined(r, b64(pub(D25519, k.c25)))); spit("client_key_448.pub", lined(r, b64(pub(D448, k.c448))));
    spit("server_key_25519.pub", lined(r, b64(pub(D25519, k.s25)))); spit("server_key_448.pub", lined(r, b64(pub(D448, k.s448))));
    spit("psk", lined(r, b64(k.psk))); return k;
}
static void ready(Party &m, const Proto &p, bool ini, const Keys &k, Rng &r) {
    m.setup(p, ini); m.prologue = echo_id(p); m.psk = k.psk;
    if (p.owns_static(ini)) m.s = make_key(p.dh, ini ? k.c(p.dh) : k.s(p.dh), true, Bytes());
    if (p.knows_remote_static_first(ini)) m.rs = pub(p.dh, ini ? k.s(p.dh) : k.c(p.dh));
    m.e_priv = r.bytes(privlen(p.dh, ini)); if (p.hybrid != DNone) m.f_priv = r.bytes(privlen(p.hybrid, ini));
    m.start();
}
static void fresh(const Proto &p, const Bytes &e, bool fixed, const char *who) {   // ephemerals of the program under test
    if (p.dh == DNewHope || e.empty()) return;
    if (!ephemerals.insert(e).second && !fixed) viol("ephemeral-repeated", "%s used an ephemeral key twice", who); else ev("ephemerals");
}
// ---- the server
static int next_port() { static int n; return 10000 + (int)((getpid() * 131u + n++ * 7u) % 20000); }
struct Server { Proc p; int port = 0; bool fixed = false; };
static bool dial(int port, Sock &s) {
    s.fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s.fd, (struct sockaddr *)&a, sizeof a) == 0) return true;
    close(s.fd); s.fd = -1; return false;
}
static bool start_server(Server &s, Rng &r) {
    for (int t = 0; t < 40; ++t) {
        s.port = next_port(); { Sock probe; if (dial(s.port, probe)) continue; }
        std::vector<std::string> a; s.fixed = r.chance(1, 4); if (s.fixed) a.push_back(r.chance(1, 2) ? "-f" : "--fixed-ephemeral"); if (r.chance(1, 4)) a.push_back(r.chance(1, 2) ? "-v" : "--verbose");
        if (r.chance(1, 2)) a.push_back("--key-dir=" + dir);
        a.push_back(std::to_string(s.port)); s.p = spawn("echo-server", a, "", "server");
        double end = now() + 30; int st;
        while (now() < end) {
            if (waitpid(s.p.pid, &st, WNOHANG) == s.p.pid) { s.p.pid = -1; break; }
            Sock q; if (dial(s.port, q)) { usleep(1000); if (waitpid(s.p.pid, &st, WNOHANG) == s.p.pid) { s.p.pid = -1; break; } if (slurp("server.err").find("bind:") == std::string::npos) return true; break; }
            usleep(3000);
        }
        std::string e = slurp("server.err");
        if (s.p.pid > 0) { kill(-s.p.pid, SIGKILL); waitpid(s.p.pid, &st, 0); s.p.pid = -1; }
        if (e.find("bind:") != std::string::npos) continue;
        sane(e, "echo-server"); viol("server-start", "echo-server did not start with good keys: %s", e.substr(0, 300).c_str()); return false;
    }
    die("no port"); return false;
}
static void closed(Sock &c, const char *what, const std::string &d) {      // the server must end the session and send nothing more
    Bytes b = c.recv(70000);
    if (c.timed_out) viol(std::string("not-closed:") + what, "%s: the server does not end a session after %s", d.c_str(), what);
    else if (!b.empty()) viol(std::string("answered:") + what, "%s: the server sent %zu bytes after %s", d.c_str(), b.size(), what);
    else ev(std::string("refused_") + what);
}
struct Trans { Bytes ks, kr; uint64_t ns = 0, nr = 0; Cipher c; };
static bool handshake(Sock &c, Party &m, Rng &r, const Server &s, const std::string &d, Trans &t, bool expect) {
    Bytes first = m.prologue;
    while (!m.done()) {
        if (m.my_turn()) {
            Bytes w = framed(m.write(r.chance(1, 3) ? r.bytes(r.below(r.chance(1, 8) ? 60000 : 200)) : Bytes())); if (!first.empty()) { w = cat(first, w); first.clear(); }
            c.send(w);
        } else {
            if (!first.empty()) { c.send(first); first.clear(); }
            Bytes b, pl; if (!c.frame(b)) { if (expect) viol("server-handshake", "%s: the server %s in the handshake (message %zu): %s", d.c_str(), c.timed_out ? "hangs" : "ends the session", m.idx, slurp("server.err").substr(0, 200).c_str()); return false; }
            bool f = m.re.empty(); int e = m.read(b, pl);
            if (e) { if (expect) viol("server-handshake", "%s: message %zu of the server is not the one the specification defines (%x)", d.c_str(), m.idx, e); return false; }
            if (!pl.empty()) viol("server-payload", "%s: unexpected payload of %zu bytes", d.c_str(), pl.size());
            if (f) fresh(m.p, m.re, s.fixed, "echo-server"); ev("server_messages_checked");
        }
    }
    m.sym.split(t.ks, t.kr); t.c = m.p.c; return true;
}
static Bytes seal(Trans &t, const Bytes &pt) { return oracle::aead(t.c, t.ks, t.ns++, Bytes(), pt); }
static bool echo_some(Sock &c, Trans &t, Rng &r, int n, const std::string &d) {
    while (n > 0) {
        int burst = r.chance(1, 3) ? 1 + r.below(5) : 1; std::vector<Bytes> pts; Bytes wire;
        for (int k = 0; k < burst; ++k) {
            size_t l = r.below(burst > 1 ? 3000 : 400); if (r.chance(1, 6)) l = r.below(2); if (burst == 1 && r.chance(1, 8)) l = r.chance(1, 2) ? 65519 : r.below(65520);
            pts.push_back(r.bytes(l)); wire = cat(wire, framed(seal(t, pts.back())));
        }
        c.send(wire);
        for (auto &pt : pts) {
            Bytes b, o; if (!c.frame(b)) { viol("no-echo", "%s: no echo of %zu bytes", d.c_str(), pt.size()); return false; }
            if (!oracle::aead_open(t.c, t.kr, t.nr++, Bytes(), b, o) || o != pt) { viol("wrong-echo", "%s: %zu bytes came back as %zu others", d.c_str(), pt.size(), b.size()); return false; }
            ev("echoes");
        }
        n -= burst;
    }
    return true;
}
static void session(Server &s, const Keys &k, Rng &r) {
    Proto p = echo_proto(r); Sock c; c.r = &r; c.slow = r.chance(1, 3);
    if (!dial(s.port, c)) { viol("not-accepted", "the server does not accept a connection"); return; }
    int kind = r.below(10); std::string d = p.name(); describe(fmt("server session %d %s", kind, d.c_str())); sig(fmt("server %d %s", kind, d.c_str())); eval(); sample(fmt("server %d %s", kind, d.c_str()));
    Party m; Trans t;
    if (kind <= 3) {       // an honest client; anonymous patterns may use any key of its own
        Keys mine = k; if (p.owns_static(true) && !p.pat->is_pre && r.chance(1, 2)) { mine.c25 = r.bytes(32); mine.c448 = r.bytes(56); }
        ready(m, p, true, mine, r); if (!handshake(c, m, r, s, d, t, true)) return;
        if (!echo_some(c, t, r, r.below(8), d)) return;
        shutdown(c.fd, SHUT_WR); closed(c, "end", d); ev("sessions_completed");
    } else if (kind == 4) {   // damaged transport message
        ready(m, p, true, k, r); if (!handshake(c, m, r, s, d, t, true)) return;
        Bytes last; if (r.chance(1, 2)) { Bytes pt = r.bytes(20), b, o; last = seal(t, pt); c.send(framed(last)); if (!c.frame(b) || !oracle::aead_open(t.c, t.kr, t.nr++, Bytes(), b, o) || o != pt) { viol("wrong-echo", "%s", d.c_str()); return; } }
        Bytes x = seal(t, r.bytes(r.below(300)));
        switch (r.below(6)) {
            case 0: x[r.below(x.size())] ^= 1 << r.below(8); break;
            case 1: x.resize(r.below(x.size())); break;
            case 2: if (last.size()) x = last; else x[0] ^= 1; break;
            case 3: x = seal(t, r.bytes(30)); break;               // a message ahead of its turn
            case 4: x.push_back(0); break;
            default: x = r.bytes(r.below(2000));
        }
        c.send(framed(x)); closed(c, "damaged", d);
    } else if (kind == 5) {   // an identifier that names nothing
        Bytes id = echo_id(p);
        switch (r.below(7)) {
            case 0: id[0] = 2 + r.below(254); break; case 1: id[1] = (id[1] & 0x80) | (12 + r.below(116)); break; case 2: id[2] = 2 + r.below(254); break;
            case 3: id[3] = (id[3] & 0xf0) | (3 + r.below(13)); break; case 4: id[3] = (id[3] & 0x0f) | (4 + r.below(12)) << 4; break; case 5: id[4] = 4 + r.below(252); break;
            default: id[1] ^= 0x80;                                  // hybrid pattern without hybrid algorithm, or the reverse
        }
        c.send(cat(id, r.chance(1, 2) ? framed(r.bytes(r.below(300))) : Bytes())); closed(c, "identifier", d + " " + hex(id));
    } else if (kind <= 7) {   // a first message that is damaged, or from a client with other keys
        Keys mine = k; Party srv; ready(srv, p, false, k, r);       // what the server makes of it
        bool other = r.chance(1, 2); if (other) { if (p.psk && r.chance(1, 2)) mine.psk = r.bytes(32); else if (r.chance(1, 2)) { mine.c25 = r.bytes(32); mine.c448 = r.bytes(56); } else { mine.s25 = r.bytes(32); mine.s448 = r.bytes(56); } }
        ready(m, p, true, mine, r); Bytes w = m.write(Bytes());
        if (!other) switch (r.below(5)) { case 0: w[r.below(w.size())] ^= 1 << r.below(8); break; case 1: w.resize(r.below(w.size())); break; case 2: w.push_back(7); break; case 3: w = r.bytes(r.below(4000)); break; default: std::fill(w.begin(), w.begin() + publen(p.dh, true), 0); }
        Bytes pl; int v = w.empty() ? 1 : srv.read(w, pl);
        c.send(cat(m.prologue, framed(w)));
        if (v) { closed(c, "first-message", d); return; }
        Bytes b; if (!c.frame(b)) { viol("server-handshake", "%s: the server ends the session on a first message that is fine (%s)", d.c_str(), slurp("server.err").substr(0, 200).c_str()); return; }
        ev("first_messages_accepted");
        c.send(framed(r.bytes(16 + r.below(400)))); closed(c, "second-message", d);
    } else if (kind == 8) {   // damaged last handshake message (or none), lengths and ends of file anywhere
        ready(m, p, true, k, r); Bytes w = m.prologue;
        if (r.chance(1, 3)) w.resize(r.below(w.size())); else { w = cat(w, framed(m.write(Bytes()))); if (r.chance(1, 2) || m.my_turn()) w.resize(5 + r.below(w.size() - 5)); else w = cat(m.prologue, r.chance(1, 2) ? Bytes{0, 0} : Bytes{0xff, 0xff, 1, 2, 3}); }
        c.send(w); shutdown(c.fd, SHUT_WR);
        Bytes all = c.recv(70000); if (c.timed_out) viol("not-closed:eof", "%s: the server keeps a session whose client has gone", d.c_str()); else ev("refused_eof");
        if (!all.empty()) viol("answered:eof", "%s: the server sent %zu bytes on an incomplete message", d.c_str(), all.size());
    } else {                  // connected and silent, or left in the middle, before others are served
        { Sock q; q.r = &r; if (dial(s.port, q)) { ev("idle_connections"); if (r.chance(1, 2)) q.send(echo_id(p)); if (r.chance(1, 2)) usleep(r.below(5000)); } }
        ready(m, p, true, k, r); if (!handshake(c, m, r, s, d, t, true)) return; echo_some(c, t, r, 1 + r.below(3), d);
    }
}
static void server_case(Rng &r) {
    Keys k = make_keys(r); Server s; if (!start_server(s, r)) return;
    int n = 6 + r.below(10);
    for (int i = 0; i < n; ++i) session(s, k, r);
    int st; if (waitpid(s.p.pid, &st, WNOHANG) == s.p.pid) { s.p.pid = -1; viol("server-ended", "the server ended by itself (status %x): %s", st, slurp("server.err").substr(0, 400).c_str()); }
    if (s.p.pid > 0) { kill(-s.p.pid, SIGKILL); waitpid(s.p.pid, &st, 0); }
    sane(slurp("server.err"), "echo-server"); ev("servers");
}
// ---- the client
struct Listener { int fd = -1, port = 0; ~Listener() { if (fd >= 0) close(fd); } Listener() {
    fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
    if (bind(fd, (struct sockaddr *)&a, sizeof a) || listen(fd, 4) || getsockname(fd, (struct sockaddr *)&a, &l)) die("listen"); port = ntohs(a.sin_port); } };
static bool accept_from(Listener &l, Proc &p, Sock &s, int &rc) {   // false when the program ended without a connection
    double end = now() + LIMIT; int st;
    for (;;) {
        struct pollfd f = {l.fd, POLLIN, 0}; if (poll(&f, 1, 5) > 0) { s.fd = accept(l.fd, 0, 0); if (s.fd >= 0) return true; }
        if (waitpid(p.pid, &st, WNOHANG) == p.pid) { p.pid = -1; rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); if (rc == 120 || rc == 121) die("cannot run echo-client"); return false; }
        if (now() > end) { rc = -1; return false; }
    }
}
static std::string lines(Rng &r, bool longer) {
    std::string s; int n = r.below(7);
    for (int i = 0; i < n; ++i) { size_t l = r.below(80); if (longer && r.chance(1, 4)) l = r.chance(1, 3) ? 4070 + r.below(30) : r.below(12000); else if (r.chance(1, 6)) l = r.below(2500); while (l--) s += (char)(r.chance(1, 30) ? 0x80 + r.below(128) : 32 + r.below(95)); s += '\n'; }
    if (s.size() && r.chance(1, 3)) s.pop_back();
    return s;
}
static std::vector<std::string> client_args(const Proto &p, Rng &r, bool pad, bool fixed, int port) {
    std::vector<std::string> a; std::string dh = p.dh == D448 ? "448" : "25519"; bool all = r.chance(1, 3);
    if (p.owns_static(true) || all) { if (r.chance(1, 2)) { a.push_back("-c"); a.push_back("client_key_" + dh); } else a.push_back("--client-private-key=client_key_" + dh); }
    if (p.pat->rs_pre || all) { if (r.chance(1, 2)) { a.push_back("-s"); a.push_back("server_key_" + dh + ".pub"); } else a.push_back("--server-public-key=server_key_" + dh + ".pub"); }
    if (p.psk || all) { if (r.chance(1, 2)) { a.push_back("-p"); a.push_back("psk"); } else a.push_back("--psk=psk"); }
    if (pad) a.push_back(r.chance(1, 2) ? "-g" : "--padding"); if (fixed) a.push_back("-f");
    a.push_back(p.name()); a.push_back("127.0.0.1"); a.push_back(std::to_string(port)); return a;
}
static void client_case(Rng &r) {
    Keys k = make_keys(r), mine = k; Proto p = echo_proto(r, true); Listener l; bool pad = r.chance(1, 2), fixed = r.chance(1, 5);
    int bad = r.chance(1, 2) ? 0 : 1 + r.below(8); // 1 handshake damaged 2 other server key/psk 3 ends early 4 echo damaged 5 replay of the echo 6 frame too long 7 echo of other keys 8 end instead of an echo
    std::string in = lines(r, !pad), d = p.name(); if (bad >= 4 && in.empty()) in = "x\n"; if (pad && in.size() && in.back() != '\n') in += '\n';
    if (bad == 2) { mine.s25 = r.bytes(32); mine.s448 = r.bytes(56); if (p.psk) mine.psk = r.bytes(32); }
    describe(fmt("client %s bad=%d pad=%d lines=%zu", d.c_str(), bad, pad, in.size())); sample(fmt("client %s bad=%d pad=%d", d.c_str(), bad, pad)); sig(fmt("client %s %d %d %zu", d.c_str(), bad, pad, in.size())); eval();
    Proc cl = spawn("echo-client", client_args(p, r, pad, fixed, l.port), in, "client"); Sock c; c.r = &r; c.slow = r.chance(1, 3); int rc = -2;
    bool done = false, ended = false, hs = false; std::string got, shown; Bytes id = echo_id(p);
    do {
        if (!accept_from(l, cl, c, rc)) { ended = true; viol("client-no-connect", "%s: echo-client did not connect (%d): %s", d.c_str(), rc, slurp("client.err").substr(0, 300).c_str()); break; }
        if (bad == 3 && r.chance(1, 3)) break;
        Bytes b = c.recv(5); if (b != id) { viol("client-id", "%s: the client sent the identifier %s, not %s", d.c_str(), hex(b).c_str(), hex(id).c_str()); break; }
        Party m; ready(m, p, false, mine, r); bool stop = false;
        while (!m.done() && !stop) {
            if (m.my_turn()) {
                if (bad == 3 && r.chance(1, 2)) { stop = true; break; }
                Bytes w = m.write(r.chance(1, 3) ? r.bytes(r.below(64)) : Bytes());
                if (bad == 1) { switch (r.below(4)) { case 0: w[r.below(w.size())] ^= 1 << r.below(8); break; case 1: w.resize(r.below(w.size())); break; case 2: w.push_back(1); break; default: w = r.bytes(w.size()); } }
                c.send(framed(w)); if (bad == 1) { stop = true; c.recv(1); break; }
            } else {
                Bytes w, pl; if (!c.frame(w)) { stop = true; if (!bad || bad >= 4) viol("client-handshake", "%s: the client %s in the handshake: %s", d.c_str(), c.timed_out ? "hangs" : "ends", slurp("client.err").substr(0, 300).c_str()); break; }
                bool f = m.re.empty(); int e = m.read(w, pl);
                if (e) { stop = true; if (bad != 2) viol("client-handshake", "%s: message %zu of the client is not the one the specification defines (%x)", d.c_str(), m.idx, e); break; }
                if (f) { fresh(p, m.re, fixed, "echo-client"); } ev("client_messages_checked");
            }
        }
        if (stop) break;
        if (bad == 2 && !p.psk && !p.pat->rs_pre) {} else if (bad == 2) { Bytes w; if (c.frame(w)) viol("client-wrong-server", "%s: the client goes on with a server that lacks the key", d.c_str()); break; }
        hs = true; Trans t; m.sym.split(t.kr, t.ks); t.c = p.c; std::vector<Bytes> pads; size_t uni = 0; Bytes prev; int count = 0, at = 1 + r.below(2);
        for (;;) {
            Bytes w, pt; Bytes h = c.recv(2); if (h.empty()) { done = true; break; }
            size_t n = h.size() == 2 ? h[0] << 8 | h[1] : 0; w = c.recv(n);
            if (h.size() < 2 || w.size() < n || !oracle::aead_open(t.c, t.kr, t.nr++, Bytes(), w, pt)) { viol("client-message", "%s: line %d is not a valid message", d.c_str(), count); break; }
            ++count; std::string line = S(pt);
            if (pad) {
                if (!uni) uni = pt.size(); if (pt.size() != uni) viol("pad-uniform", "%s: padded messages of %zu and %zu bytes", d.c_str(), uni, pt.size());
                size_t q = in.find('\n', got.size()), want = (q == std::string::npos ? in.size() : q + 1) - got.size(); if (want > pt.size()) { viol("client-line", "%s: short message", d.c_str()); break; }
                Bytes tail(pt.begin() + want, pt.end()); line = line.substr(0, want);
                if (tail.size() >= 32) { std::set<uint8_t> v(tail.begin(), tail.end()); if (v.size() < 16) viol("pad-plain", "%s: the padding is not random", d.c_str()); for (auto &o : pads) if (std::equal(tail.end() - 16, tail.end(), o.end() - 16)) viol("pad-repeated", "%s: the same padding twice", d.c_str()); pads.push_back(tail); ev("padded_messages"); }
            }
            got += line; ev("lines_received");
            if (bad >= 3 && count >= at) {
                Bytes x = seal(t, pt); bool fin = false;
                switch (bad) {
                    case 4: if (r.chance(1, 2)) x[r.below(x.size())] ^= 1 << r.below(8); else x.resize(r.below(x.size())); c.send(framed(x)); fin = true; break;
                    case 5: if (prev.size()) { c.send(framed(prev)); fin = true; } break;
                    case 6: c.send(Bytes{0xff, 0xff, 0, 1, 2}); shutdown(c.fd, SHUT_WR); fin = true; break;
                    case 7: t.ks[3] ^= 4; --t.ns; c.send(framed(seal(t, pt))); fin = true; break;
                    case 3: case 8: shutdown(c.fd, SHUT_RDWR); fin = true; break;
                }
                if (fin) { stop = true; c.recv(100000); break; }
                c.send(framed(x)); prev = x;
            } else { prev = seal(t, pt); c.send(framed(prev)); }
            shown += "Received: " + line; ev("lines_echoed");
        }
        if (!stop && done && got != in) viol("client-lines", "%s: the client sent %zu of %zu bytes, or others", d.c_str(), got.size(), in.size());
        if (stop) done = false;
    } while (0);
    if (c.fd >= 0) { close(c.fd); c.fd = -1; }
    if (cl.pid > 0) rc = wait_for(cl, LIMIT, "echo-client"); (void)ended;
    std::string out = slurp("client.out"), err = slurp("client.err"); sane(err, "echo-client");
    std::string hello = p.name() + " handshake complete."; size_t nl = out.find('\n'); std::string first = nl == std::string::npos ? out : out.substr(0, nl + 1), rest = out.substr(first.size());
    if (rc != (done ? 0 : 1)) viol(fmt("client-status-%d", bad), "%s bad=%d: exit status %d: %s", d.c_str(), bad, rc, err.substr(0, 300).c_str());
    if (hs ? first.compare(0, hello.size(), hello) : !out.empty()) viol("client-claims", "%s bad=%d: the client says %s", d.c_str(), bad, out.substr(0, 100).c_str());
    if (rest != shown) viol("client-shows", "%s bad=%d pad=%d: shown %zu bytes for %zu: %s", d.c_str(), bad, pad, rest.size(), shown.size(), rest.substr(0, 200).c_str());
    ev(done ? "client_sessions" : "client_sessions_refused"); ev(fmt("client_bad_%d", bad));
}
// ---- key generator, wrong usage, and all three together
static void keygen(const std::string &type, const std::string &name, Rng &r) {
    Proc p = spawn("echo-keygen", {type, name, name + ".pub"}, "", "keygen"); int rc = wait_for(p, LIMIT, "echo-keygen"); sane(slurp("keygen.err"), "echo-keygen"); eval();
    std::string k = slurp(name); DhAlg d = type == "448" ? D448 : D25519; Bytes kb(k.begin(), k.end());
    if (rc) { viol("keygen-status", "echo-keygen %s: %d %s", type.c_str(), rc, slurp("keygen.err").c_str()); return; }
    if (kb.size() != privlen(d, true)) { viol("keygen-length", "echo-keygen %s wrote %zu bytes", type.c_str(), kb.size()); return; }
    std::string pb = slurp(name + ".pub"); while (pb.size() && (pb.back() == '\n' || pb.back() == '\r')) pb.pop_back();
    if (pb != b64(pub(d, kb))) viol("keygen-public", "echo-keygen %s: the public key %s does not belong to the private key", type.c_str(), pb.c_str());
    if (!ephemerals.insert(kb).second) viol("keygen-repeated", "the same key twice"); ev("keys_generated");
}
static void refused(const std::string &prog, const std::vector<std::string> &a, const std::string &what) {
    Proc p = spawn(prog, a, "hello\n", "refuse"); int rc = wait_for(p, LIMIT, prog.c_str()); std::string e = slurp("refuse.err"); sane(e, prog.c_str()); eval(); sig(prog + what);
    if (rc != 1) viol("accepted:" + what, "%s with %s: exit status %d", prog.c_str(), what.c_str(), rc);
    else if (e.empty()) viol("silent:" + what, "%s with %s gives no message", prog.c_str(), what.c_str());
    if (slurp("refuse.out").find("Received") != std::string::npos) viol("shows:" + what, "%s shows data", prog.c_str());
    ev("usage_refused");
}
static void misuse_case(Rng &r) {
    Keys k = make_keys(r); Proto p = echo_proto(r); Listener l; std::string port = std::to_string(l.port), dh = p.dh == D448 ? "448" : "25519"; size_t len = p.dh == D448 ? 56 : 32; describe("misuse " + p.name());
    std::string n = p.name();
    refused("echo-client", {}, "no-arguments"); refused("echo-client", {n, "127.0.0.1"}, "no-port"); refused("echo-client", {n, "127.0.0.1", r.chance(1, 2) ? "0" : r.chance(1, 2) ? "65536" : "-7"}, "bad-port");
    static const char *un[] = {"Noise_N_25519_ChaChaPoly_BLAKE2s", "Noise_K_25519_AESGCM_SHA256", "Noise_X_448_ChaChaPoly_BLAKE2s", "Noise_XXfallback_25519_ChaChaPoly_BLAKE2s", "Noise_IKnoidh_25519_ChaChaPoly_BLAKE2s", "Noise_ZZ_25519_ChaChaPoly_BLAKE2s", "Noise", "", "Noise_NN_25519_ChaChaPoly_SHA3", "Noise_NN_25519_ChaChaPoly_BLAKE2s_"};
    refused("echo-client", {un[r.below(10)], "127.0.0.1", port}, "unsupported-protocol"); refused("echo-client", {"-q", n, "127.0.0.1", port}, "bad-option");
    refused("echo-server", {r.chance(1, 2) ? "0" : "70000"}, "bad-port"); refused("echo-server", {"-k", dir + "/nowhere", "7001"}, "no-key-dir"); refused("echo-server", {}, "no-arguments");
    // keys that are missing or damaged; a listener that nobody should complete a handshake with
    Proto q = p; if (q.dh == DNewHope) q.dh = D25519; const char *ini[] = {"KN", "XX", "IK", "KK", "IN", "XN"}, *rsp[] = {"NK", "IK", "XK", "KK"}; q.hybrid = DNone; q.psk = false;
    std::string ni = ini[r.below(6)], nr = rsp[r.below(4)]; for (auto &z : patterns()) if (ni == z.name) q.pat = &z; std::string N1 = q.name(); for (auto &z : patterns()) if (nr == z.name) q.pat = &z; std::string N2 = q.name(); dh = q.dh == D448 ? "448" : "25519"; len = q.dh == D448 ? 56 : 32;
    std::string C = "client_key_" + dh, V = "server_key_" + dh + ".pub";
    refused("echo-client", {"-s", V, N1, "127.0.0.1", port}, "no-client-key"); refused("echo-client", {"-c", C, N2, "127.0.0.1", port}, "no-server-key");
    refused("echo-client", {"-c", "nowhere", "-s", V, N1, "127.0.0.1", port}, "client-key-missing"); refused("echo-client", {"-s", "nowhere", "-c", C, N2, "127.0.0.1", port}, "server-key-missing");
    spit("odd", S(r.bytes(r.chance(1, 2) ? len + 1 + r.below(40) : r.below(len)))); refused("echo-client", {"-c", "odd", "-s", V, N1, "127.0.0.1", port}, "client-key-length");
    std::string t = b64(r.bytes(r.chance(1, 2) ? len + 1 + r.below(40) : r.below(len))); spit("odd.pub", lined(r, t)); refused("echo-client", {"-c", C, "-s", "odd.pub", N2, "127.0.0.1", port}, "server-key-length");
    t = b64(r.bytes(len)); t[r.below(len)] = "!-_.,:\x80\x01"[r.below(8)]; spit("odd.pub", t); refused("echo-client", {"-c", C, "-s", "odd.pub", N2, "127.0.0.1", port}, "server-key-text");
    q.psk = true; refused("echo-client", {"-c", C, "-s", "odd.pub", q.name(), "127.0.0.1", port}, "psk-or-key");
    spit("psk", lined(r, b64(r.bytes(r.chance(1, 2) ? 31 : 33 + r.below(3))))); refused("echo-client", {"-c", C, "-s", V, "-p", "psk", q.name(), "127.0.0.1", port}, "psk-length"); refused("echo-server", {"-k", dir, std::to_string(next_port())}, "server-psk-length");
    spit("psk", b64(k.psk)); { std::string f[] = {"server_key_25519", "server_key_448"}; std::string g = f[r.below(2)], o = slurp(g); spit(g, r.chance(1, 2) ? o + "x" : o.substr(1)); refused("echo-server", {"-k", dir, std::to_string(next_port())}, "server-own-key"); spit(g, o); }
    { std::string f[] = {"client_key_25519.pub", "client_key_448.pub"}; std::string g = f[r.below(2)], o = slurp(g); if (r.chance(1, 2)) unlink(P(g).c_str()); else spit(g, "?" + o); refused("echo-server", {"-k", dir, std::to_string(next_port())}, "server-client-key"); }
    close(l.fd); l.fd = -1; Proto nn; nn.pat = pattern_by_id(NOISE_PATTERN_NN); refused("echo-client", {nn.name(), "127.0.0.1", port}, "no-server");
    keygen(r.chance(1, 2) ? "25519" : "448", "gen", r); unlink(P("gen").c_str());
    refused("echo-keygen", {"25519", "gen"}, "no-public-file"); refused("echo-keygen", {"25520", "gen", "gen.pub"}, "bad-type"); refused("echo-keygen", {"448", "nowhere/gen", "gen2.pub"}, "private-file"); refused("echo-keygen", {"448", "gen3", "nowhere/gen.pub"}, "public-file");
    struct stat st; if (!stat(P("gen3").c_str(), &st)) viol("keygen-left", "a private key is left after failing to write the public key");
}
static void together_case(Rng &r) {
    make_keys(r); keygen("25519", "client_key_25519", r); keygen("448", "client_key_448", r); keygen("25519", "server_key_25519", r); keygen("448", "server_key_448", r);
    Server s; if (!start_server(s, r)) return; int n = 2 + r.below(3);
    struct One { Proc p; Proto pr; std::string in; }; std::vector<One> v;
    for (int round = 0; round < 3; ++round) {
        v.clear();
        for (int i = 0; i < n; ++i) { One o; o.pr = echo_proto(r, true); bool pad = r.chance(1, 2); o.in = lines(r, false); if (pad && o.in.size() && o.in.back() != '\n') o.in += '\n'; describe("together " + o.pr.name()); sig("together " + o.pr.name()); eval(); o.p = spawn("echo-client", client_args(o.pr, r, pad, false, s.port), o.in, "c" + std::to_string(i)); v.push_back(o); }
        for (auto &o : v) {
            int rc = wait_for(o.p, 120, "echo-client"); std::string out = slurp(o.p.out), err = slurp(o.p.err), want; sane(err, "echo-client"); size_t q = 0;
            while (q < o.in.size()) { size_t e = o.in.find('\n', q); e = e == std::string::npos ? o.in.size() : e + 1; want += "Received: " + o.in.substr(q, e - q); q = e; }
            size_t nl = out.find('\n'); std::string rest = nl == std::string::npos ? "" : out.substr(nl + 1);
            if (rc || rest != want) viol("together", "%s: client ends with %d and shows %zu bytes for %zu: %s", o.pr.name().c_str(), rc, rest.size(), want.size(), err.substr(0, 300).c_str()); else ev("together");
        }
    }
    int st; if (waitpid(s.p.pid, &st, WNOHANG) == s.p.pid) { s.p.pid = -1; viol("server-ended", "the server ended by itself: %s", slurp("server.err").substr(0, 400).c_str()); }
    if (s.p.pid > 0) { kill(-s.p.pid, SIGKILL); waitpid(s.p.pid, &st, 0); }
    sane(slurp("server.err"), "echo-server");
}
static void known_case(Rng &r) {
    Keys k = make_keys(r); Server s; describe("known findings"); sig("known findings"); eval();
    { std::string t = r.chance(1, 2) ? "25519" : "448"; size_t full = t == "448" ? 76 : 44; Proc q = spawn("echo-keygen", {t, "gen4", "gen4.pub"}, "", "keygen", r.below(full)); int rc = wait_for(q, LIMIT, "echo-keygen"); eval();
      if (rc == 0) viol("keygen-disk-full", "echo-keygen %s exits with %d although the keys could not be written (%zu and %zu bytes)", t.c_str(), rc, slurp("gen4").size(), slurp("gen4.pub").size()); else if (rc != 1) viol("keygen-disk-status", "echo-keygen %s ends with %d on a full disk", t.c_str(), rc); }
    if (!start_server(s, r)) return;
    auto talk = [&](const Proto &p, const std::string &in, bool pad, const char *key, const char *what) {
        Proc c = spawn("echo-client", client_args(p, r, pad, false, s.port), in, "known"); int rc = wait_for(c, LIMIT, "echo-client"); std::string out = slurp("known.out"), want, err = slurp("known.err"); sane(err, "echo-client"); eval();
        size_t nl = out.find('\n'); std::string rest = nl == std::string::npos ? "" : out.substr(nl + 1);
        if (rc || rest != "Received: " + in) viol(key, "%s %s: status %d, shown %s: %s", p.name().c_str(), what, rc, hex(Bytes(rest.begin(), rest.end()), 60).c_str(), err.substr(0, 200).c_str()); ev("known_probes");
    };
    Proto p; p.pat = pattern_by_id(NOISE_PATTERN_NN); talk(p, "hello\n", false, "client-plain", "a plain session");
    talk(p, "hello\n", true, "client-padded", "a padded session"); talk(p, "hello", true, "client-padding-shown", "with padding and a line without a newline");
    p.pat = pattern_by_id(NOISE_PATTERN_NN_HFS); p.dh = p.hybrid = DNewHope; talk(p, "hello\n", false, "client-newhope-hybrid", "with the NewHope hybrid");
    p = Proto(); p.pat = pattern_by_id(NOISE_PATTERN_NK); spit("server_key_25519.pub", spaced(r, " " + b64(pub(D25519, k.s25)))); talk(p, "hello\n", false, "key-white-space", "with white space in a public key file");
    p.pat = pattern_by_id(NOISE_PATTERN_NN); bool stalled = false;
    for (int t = 0; t < 4 && !stalled; ++t) {                    // one client stays, one leaves, one comes
        Sock a, b, c; a.r = b.r = c.r = &r; Party ma, mb, mc; Trans ta, tb, tc;
        if (!dial(s.port, a)) break;
        ready(ma, p, true, k, r); if (!handshake(a, ma, r, s, "staying", ta, true)) break;
        if (!dial(s.port, b)) break;
        ready(mb, p, true, k, r); if (!handshake(b, mb, r, s, "leaving", tb, true)) break;
        shutdown(b.fd, SHUT_WR); closed(b, "end", "leaving"); usleep(300000);
        if (!dial(s.port, c)) break;
        ready(mc, p, true, k, r); c.limit = 4; stalled = !handshake(c, mc, r, s, "coming", tc, false) && c.timed_out; eval();
        if (stalled) viol("server-stalls", "the server accepts nobody after a client has left while another one stays");
        else echo_some(c, tc, r, 1, "coming");
    }
    ev("known_probes"); int st;
    if (s.p.pid > 0) { kill(-s.p.pid, SIGKILL); waitpid(s.p.pid, &st, 0); }
    sane(slurp("server.err"), "echo-server");
}
static void one(uint64_t i, Rng &r) {
    if (dir.empty()) { bin = opt("--bin"); dir = opt("--dir") + fmt("/%d", (int)getpid()); if (mkdir(dir.c_str(), 0700)) die("scratch directory"); }
    ephemerals.clear();
    if (i % 32 == 7) { known_case(r); return; }
    switch (i % 8) { case 0: case 2: case 4: server_case(r); break; case 6: together_case(r); break; case 7: misuse_case(r); break; default: for (int k = 0; k < 6; ++k) client_case(r); }
}
int main(int argc, char **argv) { return vh::run(argc, argv, one, 120); }
