// C24: the noise-keytool command, run as a process in a scratch directory; what
// it writes is read back, and what it prints is worked out, without its code.
#include "keyfile.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>

static std::string tool, dir;
static std::set<Bytes> seen;                 // secret keys, public keys and salts of this process
static std::string S(const Bytes &b) { return std::string(b.begin(), b.end()); }
static Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
static std::string P(const std::string &n) { return dir + "/" + n; }
static bool exists(const std::string &n) { struct stat st; return !lstat(P(n).c_str(), &st); }
static Bytes slurp(const std::string &n) { Bytes o; if (FILE *f = fopen(P(n).c_str(), "rb")) { uint8_t b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) o.insert(o.end(), b, b + k); fclose(f); } return o; }
static void spit(const std::string &n, const Bytes &b) { FILE *f = fopen(P(n).c_str(), "wb"); if (!f) die("scratch file"); if (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) die("scratch write"); fclose(f); }

struct Out { int rc; std::string out, err; };
static std::string screen;                    // what appeared on the terminal
// tty: the command runs on a terminal of its own and the lines of `in` answer its prompts
static Out exec_tool(const std::vector<std::string> &args, const std::string &in, long room = -1, bool tty = false) {
    spit("stdin", B(in)); fflush(0);
    std::string d = "noise-keytool"; for (auto &a : args) d += " '" + a.substr(0, 60) + "'";
    describe(d);
    int pty = -1; std::string slave;
    if (tty) { pty = posix_openpt(O_RDWR | O_NOCTTY); char *n; if (pty < 0 || grantpt(pty) || unlockpt(pty) || !(n = ptsname(pty))) die("no terminal"); slave = n; screen.clear(); }
    pid_t p = fork(); if (p < 0) die("fork");
    if (!p) {
        setsid(); if (chdir(dir.c_str())) _exit(120);
        int i = open(tty ? slave.c_str() : "stdin", tty ? O_RDWR : O_RDONLY); if (tty && i >= 0) { ioctl(i, TIOCSCTTY, 0); close(pty); }
        int o = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open("stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (i < 0 || o < 0 || e < 0) _exit(120);
        dup2(i, 0); dup2(o, 1); dup2(e, 2);
        if (room >= 0) { struct rlimit l = {(rlim_t)room, (rlim_t)room}; setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, SIG_IGN); }   // a full disk
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0", 1); setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=99", 1);
        std::vector<char *> av; av.push_back((char *)"noise-keytool"); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(0);
        alarm(120); execv(tool.c_str(), av.data()); _exit(121);
    }
    if (tty) {
        size_t sent = 0; std::string tail; bool hung = false;
        for (;;) {
            struct pollfd f = {pty, POLLIN, 0}; int n = poll(&f, 1, 10000); char b[512]; ssize_t k = 0;
            if (n > 0) { k = read(pty, b, sizeof b); if (k <= 0 && errno != EINTR) break; if (k > 0) { screen.append(b, k); tail.append(b, k); } }
            if (n == 0 && hung) { siginfo_t si; si.si_pid = 0; if (!waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid) break; }
            hung = n == 0;
            size_t c = tail.find("assphrase: ");
            if (c != std::string::npos || n == 0) { tail = c == std::string::npos ? "" : tail.substr(c + 11); size_t e = in.find('\n', sent); if (e != std::string::npos) { std::string l = in.substr(sent, e + 1 - sent); sent = e + 1; if (write(pty, l.data(), l.size()) != (ssize_t)l.size()) die("terminal"); if (c != std::string::npos) ev("terminal_prompts"); } }
        }
        close(pty);
    }
    int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) die("waitpid");
    Out r; r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.out = S(slurp("stdout")); r.err = S(slurp("stderr")); eval();
    if (r.rc == 120 || r.rc == 121) die("cannot run the tool");
    if (r.rc != 0 && r.rc != 1) {
        std::string key = "crash"; size_t q = r.err.find("ERROR: AddressSanitizer: "); if (q != std::string::npos) { key += "-" + r.err.substr(q + 25, r.err.find(' ', q + 25) - q - 25); }
        viol(key, "%s ended with %d: %s", d.c_str(), r.rc, r.err.substr(0, 1500).c_str());
    }
    ev("runs"); ev(r.rc ? "runs_failed" : "runs_ok");
    return r;
}
static std::string text(Rng &r, bool) {           // UTF-8
    std::string s; int n = r.chance(1, 10) ? 0 : r.chance(1, 12) ? 100 + r.below(900) : 1 + r.below(24);
    while (n--) switch (r.below(8)) {
        case 0: s += "\xc3\xa9"; break; case 1: s += "\xe2\x82\xac"; break; case 2: s += "\xf0\x9f\x94\x91"; break;
        case 3: s += "@ .=:,%-"[r.below(8)]; break;
        default: s += (char)(r.chance(1, 2) ? 'a' + r.below(26) : 'A' + r.below(26));
    }
    return s;
}
static std::string fp(const Bytes &pub, bool full) {
    Bytes h = oracle::hash(oracle::SHA256, pub); std::string s; for (size_t i = 0; i < (full ? 32u : 16u); ++i) s += fmt(i ? ":%02x" : "%02x", h[i]); return s;
}
static Bytes derive(const std::string &alg, const Bytes &k) {
    if (alg == "25519" && k.size() == 32) return oracle::dh_public(oracle::X25519, k);
    if (alg == "448" && k.size() == 56) return oracle::dh_public(oracle::X448, k);
    if (alg == "Ed25519" && k.size() == 32) return oracle::ed_public(k);
    return Bytes();
}
static std::string cs(const pb::Val &v) { std::string s = S(v.b); return s.c_str(); }
static std::string head(const Obj &o, int base) { std::string s; static const char *n[] = {"Id", "Name", "Role"}; for (int i = 0; i < 3; ++i) if (o.v[base + i].has) s += std::string(n[i]) + ": " + cs(o.v[base + i]) + "\n"; return s; }
static std::string metas(const Obj &o) { std::string s; for (auto &m : o.v[4].ms) s += "Meta: " + (m->v[0].has ? cs(m->v[0]) : std::string("Unknown")) + "=" + cs(m->v[1]) + "\n"; return s; }
static std::string show_cert(const Obj &c, bool full) {
    std::string s = fmt("Version: %lu\n", (unsigned long)c.v[0].n);
    if (c.v[1].m) {
        const Obj &u = *c.v[1].m; s += head(u, 0);
        for (auto &k : u.v[3].ms) s += "Public-Key-" + (k->v[0].has ? cs(k->v[0]) : std::string("Unknown")) + ": " + (k->v[1].b.size() ? fp(k->v[1].b, full) : std::string("Not-Specified")) + "\n";
        s += metas(u);
    }
    return s;
}
static std::string show_key(const Obj &p, bool full) {
    std::string s = head(p, 0);
    for (auto &k : p.v[3].ms) {
        std::string a = k->v[0].has ? cs(k->v[0]) : std::string("Unknown"), t = "Not-Specified";
        if (k->v[1].b.size()) { Bytes pub = derive(a, k->v[1].b); t = pub.size() ? fp(pub, full) : "Unknown"; }
        s += "Public-Key-" + a + ": " + t + "\n";
    }
    return s + metas(p);
}
// What showing FILE adds to the output; false when it has to be refused. unj: not judged.
static bool show_file(const Bytes &f, const std::string &pass, bool full, std::string &out, bool &unj) {
    unj = false; size_t q = 0;
    if (f.empty()) return false;
    if (f[0] == 0x50) {
        Bytes plain; int w = judge(f, B(pass), plain); if (w == -2) { unj = true; return false; } if (w) return false;
        pb::Dec d{plain}; Obj p(&Noise_PrivateKey_d); if (!d.msg(q, plain.size(), p)) return false; out = show_key(p, full);
        for (auto &k : p.v[3].ms) { bool z = true; for (auto x : k->v[1].b) if (x) z = false; if (z && k->v[1].b.size()) unj = true; if (cs(k->v[0]) == "NewHope") unj = true; }
        return true;
    }
    pb::Dec d{f};
    if (f[0] == 0x42) { Obj c(&Noise_CertificateChain_d); bool ok = d.msg(q, f.size(), c); unj = d.unjudged; if (!ok) return false; int i = 0; for (auto &m : c.v[0].ms) { if (i++) out += "--------\n"; out += show_cert(*m, full); } return true; }
    Obj c(&Noise_Certificate_d); bool ok = d.msg(q, f.size(), c); unj = d.unjudged; if (!ok) return false; out = show_cert(c, full); return true;
}
static void show_case(const std::vector<std::string> &files, const std::string &pass, bool viastdin, Rng &r, const char *what) {
    std::vector<std::string> a; a.push_back("show"); bool full = false; std::string in;
    for (int k = r.below(3); k > 0; --k) { full = r.chance(1, 2); a.push_back(full ? (r.chance(1, 2) ? "-F" : "--full-fingerprint") : (r.chance(1, 2) ? "-f" : "--basic-fingerprint")); }
    if (viastdin) { for (size_t i = 0; i < files.size(); ++i) in += pass + "\n"; }
    else switch (r.below(4)) { case 0: a.push_back("-p" + pass); if (pass.empty()) a.push_back(""); break; case 1: a.push_back("-p"); a.push_back(pass); break; case 2: a.push_back("--passphrase=" + pass); break; default: a.push_back("--passphrase"); a.push_back(pass); }
    std::string want; bool ok = true, unj = false;
    for (auto &f : files) {
        std::string t; bool u = false, have = exists(f); struct stat st; if (have && !stat(P(f).c_str(), &st) && S_ISDIR(st.st_mode)) have = false;
        bool good = have && show_file(slurp(f), pass, full, t, u);
        if (u) unj = true;
        if (good) { if (files.size() > 1) want += "--------\n" + f + ":\n"; want += t; } else ok = false;
        a.push_back(f);
    }
    bool tty = viastdin && r.chance(1, 2);
    Out o = exec_tool(a, in, -1, tty);
    if (tty && pass.size() >= 4 && screen.find(pass) != std::string::npos) viol("passphrase-echoed", "the passphrase typed at the prompt appears on the terminal");
    if (tty) ev("terminal_sessions");
    sig(std::string("show") + hex(oracle::hash(oracle::SHA256, B(want))) + what + (ok ? "" : "!"));
    if (unj) { ev("not_judged"); return; }
    if (o.rc != (ok ? 0 : 1)) viol(fmt("show-%s-exit", what), "show of %s: exit status %d, expected %d; stderr: %s", what, o.rc, ok ? 0 : 1, o.err.substr(0, 300).c_str());
    else if (o.out != want) viol(fmt("show-%s", what), "show of %s printed:\n%s\nexpected:\n%s", what, o.out.substr(0, 1200).c_str(), want.substr(0, 1200).c_str());
    if (!ok && o.err.empty()) viol("silent-failure", "show of %s failed without a word", what);
    ev(std::string("shown_") + what, files.size()); if (!ok) ev("show_refused");
}
static POb mkkey(Rng &r, bool priv) {
    POb k(new Obj(priv ? &Noise_PrivateKeyInfo_d : &Noise_PublicKeyInfo_d)); static const char *al[] = {"25519", "448", "Ed25519", "ed25519", "X25519", "", "448 "}; int a = r.chance(3, 4) ? r.below(3) : r.below(7);
    if (!r.chance(1, 10)) { k->v[0].has = true; k->v[0].b = r.chance(1, 10) ? B(text(r, false)) : B(al[a]); }
    if (!r.chance(1, 8)) { k->v[1].has = true; k->v[1].b = r.bytes(r.chance(1, 8) ? r.below(70) : a == 1 ? 56 : 32); }
    return k;
}
static void person(Rng &r, Obj &o, bool priv) {
    for (int i = 0; i < 3; ++i) if (r.chance(2, 3)) { o.v[i].has = true; o.v[i].b = B(text(r, false)); if (r.chance(1, 30)) o.v[i].b.push_back(0), o.v[i].b.push_back('x'); }
    for (int n = r.below(5); n > 0; --n) o.v[3].ms.push_back(mkkey(r, priv));
    for (int n = r.below(4); n > 0; --n) { POb m(new Obj(&Noise_MetaInfo_d)); for (int i = 0; i < 2; ++i) if (!r.chance(1, 6)) { m->v[i].has = true; m->v[i].b = B(text(r, false)); } o.v[4].ms.push_back(m); }
}
static POb mkcert(Rng &r) {
    POb c(new Obj(&Noise_Certificate_d)); c->v[0].n = r.chance(1, 4) ? (uint32_t)r.next() : r.chance(1, 10) ? 0 : 1;
    if (!r.chance(1, 8)) { c->v[1].m.reset(new Obj(&Noise_SubjectInfo_d)); person(r, *c->v[1].m, false); }
    for (int n = r.below(3); n > 0; --n) { POb s(new Obj(&Noise_Signature_d)); for (int i : {0, 1, 3, 5}) if (r.chance(1, 2)) { s->v[i].has = true; s->v[i].b = i == 5 ? r.bytes(64) : B(text(r, false)); } if (r.chance(1, 2)) s->v[2].m = mkkey(r, false); c->v[2].ms.push_back(s); }
    return c;
}
static Bytes encode(const Obj &o) { Bytes b; bool bad = false; pb::enc(b, o, bad); return b; }
static std::string mkpass(Rng &r) { std::string s; int n = r.chance(1, 12) ? 0 : r.chance(1, 6) ? 60 + r.below(140) : 1 + r.below(24); while (n--) s += (char)(r.chance(1, 10) ? 0x80 + r.below(0x80) : 0x21 + r.below(0x5e)); return s; }
static Bytes mkfile(Rng &r, const std::string &pass, std::string &kind) {
    Bytes f; int k = r.below(3);
    if (k == 0) { kind = "certificate"; f = encode(*mkcert(r)); }
    else if (k == 1) { kind = "chain"; Obj c(&Noise_CertificateChain_d); for (int n = 1 + r.below(4); n > 0; --n) c.v[0].ms.push_back(mkcert(r)); f = encode(c); }
    else { kind = "private-key"; Obj p(&Noise_PrivateKey_d); person(r, p, true); int c = r.below(2), h = r.below(4); f = seal(c, h, B(pass), r.bytes(r.range(1, 32)), r.range(1, 60), encode(p), std::string(CN[c]) + "_" + HN[h] + "_PBKDF2"); }
    return f;
}
static void damage_file(Rng &r, Bytes &f) {
    if (f.empty()) return;
    switch (r.below(4)) { case 0: f.resize(r.below(f.size())); break; case 1: f[r.below(f.size())] ^= 1 << r.below(8); break; case 2: f.push_back((uint8_t)r.next()); break; default: f.insert(f.begin() + r.below(f.size()), (uint8_t)r.next()); }
}
static void handmade(Rng &r) {
    std::string pass = mkpass(r), kind, what; int n = r.chance(1, 2) ? 1 : 2 + r.below(3); std::vector<std::string> files; bool mixed = n > 1; bool keys = false;
    for (int i = 0; i < n; ++i) {
        std::string nm = fmt("f%d", i); std::string pw = pass; int odd = r.below(12); bool wrong = odd == 0;
        if (wrong) pw = pass.empty() ? "x" : r.chance(1, 2) ? pass + "x" : pass.substr(0, pass.size() - 1);
        Bytes f = mkfile(r, pw, kind); if (f.size() > 60000) f.resize(60000);
        if (kind == "private-key") keys = true;
        if (odd == 1) { kind = "missing"; unlink(P(nm).c_str()); rmdir(P(nm).c_str()); }
        else if (odd == 2) { kind = "empty"; spit(nm, Bytes()); }
        else if (odd == 3) { kind = "damaged"; damage_file(r, f); spit(nm, f); }
        else if (odd == 4) { kind = "noise"; spit(nm, r.bytes(1 + r.below(300))); }
        else if (odd == 5 && n > 1) { kind = "directory"; nm = "adir"; }
        else { if (wrong && kind == "private-key") kind = "wrong-passphrase"; spit(nm, f); }
        what = kind; files.push_back(nm);
    }
    // a prompt is only answered reliably when exactly one file asks for the passphrase
    bool viastdin = n == 1 && keys && r.chance(1, 3);
    show_case(files, pass, viastdin, r, mixed ? "several" : what.c_str());
}
static void generate(Rng &r, bool faulty) {
    std::vector<std::string> a; a.push_back("generate"); std::string who[3], pass = mkpass(r), in; bool given[3]; static const char *so[] = {"-i", "-n", "-r"}, *lo[] = {"--id", "--name", "--role"};
    std::vector<std::vector<std::string>> opts;
    auto addopt = [&](const char *s, const char *l, const std::string &v) {
        switch (r.below(4)) { case 0: opts.push_back({s, v}); break; case 1: if (v.size()) { opts.push_back({s + v}); break; } opts.push_back({s, v}); break; case 2: opts.push_back({std::string(l) + "=" + v}); break; default: opts.push_back({l, v}); } };
    int fault = faulty ? 1 + r.below(7) : 0; bool badtext = false;
    for (int i = 0; i < 3; ++i) if ((given[i] = r.chance(2, 3))) { who[i] = text(r, true); }
    if (fault == 1) { int i = r.below(3); given[i] = true; who[i] = text(r, true) + "\xff\xc3"; badtext = true; }
    for (int i = 0; i < 3; ++i) if (given[i]) addopt(so[i], lo[i], who[i]);
    std::vector<std::string> algs; static const char *AL[] = {"25519", "448", "Ed25519", "all"}; auto want = [&](const std::string &s) { if (std::find(algs.begin(), algs.end(), s) == algs.end()) algs.push_back(s); };
    std::string list; std::vector<std::string> alist;
    if (r.chance(2, 3)) {
        for (int n = 1 + r.below(4); n > 0; --n) { std::string x = AL[r.chance(1, 5) ? 3 : r.below(3)]; alist.push_back(x); }
        if (fault == 2) { static const char *bad[] = {"25518", "ALL", "ed25519", "2551", "255199", "Ed2551", "448x", "ChaChaPoly", "SHA256", "Noise", "al", "alll", " 448"}; alist.insert(alist.begin() + r.below(alist.size() + 1), bad[r.below(13)]); }
        for (size_t i = 0; i < alist.size(); ++i) list += (i ? "," : "") + alist[i];
        addopt("-a", "--algorithms", list);
        for (auto &x : alist) if (x == "all") { want("25519"); want("448"); want("Ed25519"); } else want(x);
    } else { want("25519"); want("448"); want("Ed25519"); if (fault == 2) fault = 3; }
    bool prompt = r.chance(1, 3) || fault == 4; bool mismatch = fault == 4;
    std::string other = pass + "y";   // near misses, not just any other passphrase
    if (pass.size()) switch (r.below(5)) { case 0: break; case 1: other = pass.substr(0, pass.size() - 1); break; case 2: other = pass.substr(0, r.below(pass.size())); break; case 3: other[r.below(pass.size())] ^= 1 << r.below(4); other.pop_back(); break; default: other = pass.substr(1); }
    if (other == pass || other.find('\n') != std::string::npos || other.find('\0') != std::string::npos) other = pass + "y";
    if (prompt) in = pass + "\n" + (mismatch ? other : pass) + "\n"; else addopt("-p", "--passphrase", pass);
    for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[r.below(i)]);
    std::string cf = "cert", kf = "key"; bool extra = false, missing = false;
    if (fault == 3) { if (r.chance(1, 2)) extra = true; else missing = true; }
    if (fault == 5) cf = r.chance(1, 2) ? "no/such/dir" : "adir";
    if (fault == 6) kf = r.chance(1, 2) ? "no/such/dir" : "adir";
    if (fault == 7) opts.push_back({r.chance(1, 2) ? "-x" : "--unknown-option"});
    std::vector<std::string> pos{cf}; if (!missing) pos.push_back(kf); if (extra) pos.push_back("third");
    bool after = r.chance(1, 4); if (after) for (auto &p : pos) a.push_back(p);
    for (auto &o : opts) for (auto &x : o) a.push_back(x);
    if (!after) for (auto &p : pos) a.push_back(p);
    bool old = r.chance(1, 3); for (auto n : {"cert", "key"}) { unlink(P(n).c_str()); if (old) spit(n, B("previous contents of the file")); }
    bool tty = prompt && r.chance(1, 2);
    Out o = exec_tool(a, in, -1, tty); Bytes cert = slurp("cert"), key = slurp("key");
    sig(fmt("generate%d %s %d%d%d %d%d", fault, list.c_str(), given[0], given[1], given[2], prompt, old)); sample("noise-keytool generate -a " + list);
    (void)badtext;
    if (tty && pass.size() >= 4 && screen.find(pass) != std::string::npos) viol("passphrase-echoed", "the passphrase typed at the prompt appears on the terminal");
    if (tty) ev("terminal_sessions");
    if (fault) {
        static const char *fn[] = {"", "text", "algorithm", "operands", "mismatch", "cert-file", "key-file", "option"};
        if (o.rc != 1) viol(fmt("generate-bad-%s", fn[fault]), "a generate command with a wrong %s exits with %d", fn[fault], o.rc);
        if (o.err.empty() && o.out.empty()) viol("silent-failure", "generate failed without a word (%s)", fn[fault]);
        if (fault != 6) {   // nothing may be left that looks like a finished private key
            if (exists("key") && (!old || S(key) != "previous contents of the file")) { Bytes pl; if (fault != 5) viol(fmt("generate-bad-%s-wrote", fn[fault]), "a failed generate wrote the private key file"); }
            if (fault != 5 && exists("cert") && (!old || S(cert) != "previous contents of the file")) viol(fmt("generate-bad-%s-wrote", fn[fault]), "a failed generate wrote the certificate file");
        }
        ev(fmt("generate_refused_%s", fn[fault])); return;
    }
    if (o.rc) { viol("generate-failed", "generate failed (%d): %s", o.rc, o.err.substr(0, 400).c_str()); return; }
    // the certificate
    pb::Dec dc{cert}; Obj c(&Noise_Certificate_d); size_t q = 0;
    if (!dc.msg(q, cert.size(), c) || encode(c) != cert) { viol("cert-format", "the certificate file is not a certificate in canonical form: %s", hex(cert, 200).c_str()); return; }
    if (c.v[0].n != 1 || !c.v[1].m || c.v[2].ms.size()) { viol("cert-content", "version %llu, subject %d, %zu signatures", (unsigned long long)c.v[0].n, !!c.v[1].m, c.v[2].ms.size()); return; }
    const Obj &u = *c.v[1].m;
    Bytes plain; int w = judge(key, B(pass), plain); if (w == -2) { ev("not_judged"); return; }
    if (w) { viol("key-file", "the private key file does not open with the passphrase (%d): %s", w, hex(key, 120).c_str()); return; }
    pb::Dec dk{plain}; Obj p(&Noise_PrivateKey_d); q = 0; if (!dk.msg(q, plain.size(), p) || encode(p) != plain) { viol("key-format", "the private key is not in canonical form"); return; }
    for (int i = 0; i < 3; ++i) for (const Obj *x : {&u, (const Obj *)&p}) if (x->v[i].has != given[i] || S(x->v[i].b) != who[i]) viol(fmt("field-%d", i), "%s says '%s' in the %s, asked for '%s'", so[i], S(x->v[i].b).c_str(), x == &u ? "certificate" : "private key", who[i].c_str());
    if (u.v[4].ms.size() || p.v[4].ms.size()) viol("meta", "there is meta data that was not asked for");
    std::string gc, gk, wl; for (auto &k : u.v[3].ms) gc += S(k->v[0].b) + " "; for (auto &k : p.v[3].ms) gk += S(k->v[0].b) + " "; for (auto &x : algs) wl += x + " ";
    if (gc != wl || gk != wl) { viol("algorithms", "-a '%s': the certificate has keys for '%s', the private key for '%s', expected '%s'", list.c_str(), gc.c_str(), gk.c_str(), wl.c_str()); return; }
    Bytes all = key; all.insert(all.end(), cert.begin(), cert.end()); all.insert(all.end(), o.out.begin(), o.out.end()); all.insert(all.end(), o.err.begin(), o.err.end());
    for (size_t i = 0; i < algs.size(); ++i) {
        const Bytes &sk = p.v[3].ms[i]->v[1].b, &pk = u.v[3].ms[i]->v[1].b; Bytes d = derive(algs[i], sk);
        if (d.empty() || d != pk) viol("keys-differ", "%s: the certificate's public key %s does not belong to the private key", algs[i].c_str(), hex(pk).c_str());
        if (!seen.insert(sk).second || !seen.insert(pk).second) viol("repeated-key", "%s: the same key was generated twice", algs[i].c_str());
        if (leaks(all.data(), all.size(), sk)) viol("key-exposed", "%s: the private key is readable in what the command wrote", algs[i].c_str());
        ev("keys_checked");
    }
    { pb::Dec de{key}; Obj e(&Noise_EncryptedPrivateKey_d); q = 0; de.msg(q, key.size(), e); if (e.v[SALT].b.size() < 16 || !seen.insert(e.v[SALT].b).second) viol("salt", "the salt is short or was used before"); if (e.v[ITER].n < 10000) viol("iterations", "%llu PBKDF2 iterations", (unsigned long long)e.v[ITER].n); }
    if (pass.size() >= 8 && memmem(all.data(), all.size(), pass.data(), pass.size())) viol("passphrase-exposed", "the passphrase is readable in what the command wrote");
    ev("generated");
    if (r.chance(1, 4)) {   // the same again on a full disk
        size_t room = r.chance(1, 3) ? std::max(cert.size(), key.size()) - 1 : r.below(std::max(cert.size(), key.size())); bool again = r.chance(1, 2); if (again) { unlink(P("cert").c_str()); unlink(P("key").c_str()); }
        Out f = exec_tool(a, in, room); if (f.rc != 1) viol("generate-disk-full", "generate exits with %d although only %zu bytes of each file could be written (%zu and %zu needed)", f.rc, room, cert.size(), key.size());
        ev("generate_refused_disk-full"); spit("cert", cert); spit("key", key);
    }
    std::string wp = pass.empty() || r.chance(1, 2) ? pass + "z" : pass.substr(0, pass.size() - 1);
    int how = r.below(4);
    if (how == 0) show_case({"cert"}, pass, false, r, "own-certificate");
    else if (how == 1) show_case({"key"}, pass, r.chance(1, 2), r, "own-key");
    else if (how == 2) show_case({"key", "cert"}, pass, false, r, "own-both");
    else show_case({"key"}, wp, r.chance(1, 2), r, "own-wrong-passphrase");
}
static void usage(Rng &r) {
    struct U { std::vector<std::string> a; int rc; std::vector<const char *> words; };
    static const std::vector<U> us = {
        {{}, 1, {"Usage:", "generate", "show", "sign", "help"}}, {{"help"}, 1, {"Usage:", "generate"}}, {{"frobnicate"}, 1, {"Usage:", "generate"}}, {{""}, 1, {"Usage:"}}, {{"Generate"}, 1, {"Usage:"}},
        {{"help", "generate"}, 0, {"--id", "--name", "--role", "--algorithms", "--passphrase"}}, {{"help", "show"}, 0, {"--passphrase", "--basic-fingerprint", "--full-fingerprint"}}, {{"help", "sign"}, 0, {"--signing-key", "--algorithm", "--valid-months", "--nonce-size", "--passphrase"}},
        {{"help", "nothing"}, 1, {"Usage:"}}, {{"generate"}, 1, {"Usage:", "--algorithms"}}, {{"generate", "-i"}, 1, {"Usage:"}}, {{"show"}, 1, {"Usage:", "--full-fingerprint"}}, {{"show", "-p", "x"}, 1, {"Usage:"}}, {{"show", "-z", "cert"}, 1, {"Usage:"}},
        {{"sign"}, 1, {"Usage:", "--signing-key"}}, {{"sign", "cert", "out"}, 1, {"Usage:"}}, {{"sign", "-k", "key", "-n", "17", "cert", "out"}, 1, {"Usage:"}}, {{"sign", "-k", "key", "cert"}, 1, {"Usage:"}}};
    for (auto &u : us) {
        if (r.chance(1, 2)) continue;
        unlink(P("out").c_str()); Out o = exec_tool(u.a, ""); std::string line; for (auto &x : u.a) line += " " + x; sig("usage" + line);
        if (o.rc != u.rc) viol("usage-exit", "noise-keytool%s exits with %d, expected %d", line.c_str(), o.rc, u.rc);
        for (auto w : u.words) if (o.out.find(w) == std::string::npos && o.err.find(w) == std::string::npos) viol("usage-text", "noise-keytool%s does not mention %s", line.c_str(), w);
        if (exists("out")) viol("usage-wrote", "noise-keytool%s wrote a file", line.c_str());
        ev("usage");
    }
}
static void sign(Rng &r) {
    Obj c(&Noise_Certificate_d); c.v[0].n = 1; c.v[1].m.reset(new Obj(&Noise_SubjectInfo_d)); c.v[1].m->v[0].has = true; c.v[1].m->v[0].b = B("someone"); c.v[1].m->v[3].ms.push_back(mkkey(r, false)); spit("in", encode(c));
    Obj p(&Noise_PrivateKey_d); p.v[0].has = true; p.v[0].b = B("signer"); POb k(new Obj(&Noise_PrivateKeyInfo_d)); k->v[0].has = k->v[1].has = true; k->v[0].b = B("Ed25519"); k->v[1].b = r.bytes(32); p.v[3].ms.push_back(k);
    Bytes sk = k->v[1].b; spit("skey", seal(0, 1, B("pw"), r.bytes(16), 50, encode(p), "ChaChaPoly_BLAKE2b_PBKDF2")); unlink(P("out").c_str());
    std::vector<std::string> a{"sign", "-k", "skey", "-p", "pw"}; if (r.chance(1, 2)) { a.push_back("-n"); a.push_back("32"); } a.push_back("in"); a.push_back("out");
    Out o = exec_tool(a, ""); sig("sign"); ev("signings");
    if (o.rc == 0) {
        if (!exists("out")) { viol("sign-unimplemented", "noise-keytool sign exits with 0 and writes no certificate"); return; }
        Bytes out = slurp("out"); pb::Dec d{out}; Obj s(&Noise_Certificate_d); size_t q = 0;
        if (!d.msg(q, out.size(), s) || !s.v[2].ms.size() || !s.v[2].ms[0]->v[2].m || s.v[2].ms[0]->v[2].m->v[1].b != oracle::ed_public(sk) || s.v[2].ms[0]->v[5].b.size() != 64) viol("sign-content", "the signed certificate has no signature by the key");
    } else viol("sign-failed", "signing with a good key fails: %s", o.err.substr(0, 300).c_str());
}
int main(int argc, char **argv) {
    describe_all();
    return run(argc, argv, [&](uint64_t i, Rng &r) {
        tool = opt("--tool"); if (dir.empty()) { static char t[300]; snprintf(t, sizeof t, "%s/XXXXXX", opt("--dir").c_str()); if (!mkdtemp(t)) die("mkdtemp"); dir = t; if (mkdir(P("adir").c_str(), 0700)) die("mkdir"); atexit([] { for (auto n : {"stdin", "stdout", "stderr", "cert", "key", "f0", "f1", "f2", "f3", "in", "skey", "out", "third"}) unlink(P(n).c_str()); rmdir(P("adir").c_str()); rmdir(dir.c_str()); }); }
        switch (i % 6) { case 0: case 1: generate(r, false); break; case 2: generate(r, true); break; case 5: if (i % 18 == 5) usage(r); else if (i % 18 == 11) sign(r); else handmade(r); break; default: for (int k = 0; k < 3; ++k) handmade(r); }
    }, 600);
}
