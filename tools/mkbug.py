#!/usr/bin/env python3
"""mkbug.py DEFS.py [ID...]: writes seeded/<id>/ for bugs whose patch applies, builds, passes the tests and whose
demo tells the trees apart. Works on a copy of /repo bind-mounted over /repo in a private namespace."""
import json, os, subprocess, sys, shutil, tempfile, difflib, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/sh
# Run with cwd /repo after the build: exit 0 if the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
b=_build/%(backend)s/src
gcc -g -w -DHAVE_PTHREAD=1 -Iinclude -Isrc %(cflags)s "$d/demo.c" -o "$t/demo" %(ldflags)s $b/keys/libnoisekeys.a $b/protobufs/libnoiseprotobufs.a $b/protocol/libnoiseprotocol.a %(libs)s -lpthread -lm || exit 99
cd "$t" && timeout 120 ./demo
"""
LIBS = {"ref": "", "sodium": "-lsodium", "openssl": "-lcrypto"}


def sh(cmd, repo, **kw):
    return subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && cd /repo && %s" % (repo, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in defs:
        if want and b["id"] not in want:
            continue
        work = tempfile.mkdtemp(prefix="mkbug-")
        repo = work + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        out = os.path.join(VERIF, "seeded", b["id"])
        try:
            sd = work + "/seed"
            os.makedirs(sd)
            if "demo_sh" in b:
                open(sd + "/demo.sh", "w").write(b["demo_sh"])
            else:
                be = b.get("backend", "ref")
                open(sd + "/demo.sh", "w").write(DEMO_SH % dict(backend=be, cflags=b.get("cflags", ""), ldflags=b.get("ldflags", ""), libs=LIBS[be]))
            if "demo" in b:
                open(sd + "/demo.c", "w").write(b["demo"])
            for n, t in b.get("files", {}).items():
                open(sd + "/" + n, "w").write(t)
            os.chmod(sd + "/demo.sh", 0o755)
            p = sh("bash /opt/vp/build.sh >/dev/null 2>&1; sh %s/demo.sh" % sd, repo)
            if p.returncode:
                print(b["id"], "DEMO FAILS ON CLEAN TREE", p.returncode, p.stdout.decode(errors="replace")[-1500:]); continue
            ok = True
            for f, old, new in b["edits"]:
                path = os.path.join(repo, f)
                s = open(path).read()
                if s.count(old) != 1:
                    print(b["id"], "edit matches %d times in %s" % (s.count(old), f)); ok = False; break
                open(path, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE).stdout
            p = sh("bash /opt/vp/test.sh %s/o.json" % work, repo)
            try:
                o = json.load(open(work + "/o.json"))
            except Exception:
                o = {"passed": [], "failed": ["?"]}
            n = len(o["passed"]) if not isinstance(o["passed"], int) else o["passed"]
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
            missing = stable - set(o["passed"]) if isinstance(o["passed"], list) else None
            if missing or not n:
                print(b["id"], "TESTS CATCH IT: %d missing, e.g. %s" % (len(missing), sorted(missing)[:3]), p.stdout.decode()[-300:]); continue
            p = sh("sh %s/demo.sh" % sd, repo)
            if p.returncode == 0 or p.returncode == 99:
                print(b["id"], "DEMO DOES NOT FAIL", p.returncode, p.stdout.decode()[-1500:]); continue
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(sd, out)
            open(out + "/patch.diff", "wb").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(b["id"], "kept (%d tests pass; demo: %s)" % (n, p.stdout.decode(errors="replace").strip()[-200:]))
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
