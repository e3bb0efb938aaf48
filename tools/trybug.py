#!/usr/bin/env python3
"""trybug.py ID [CHECK...]: runs checks (default: the bug's property) against a copy of /repo with the bug; prints the verdicts."""
import json, os, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bug = sys.argv[1]
d = os.path.join(VERIF, "seeded", bug)
checks = sys.argv[2:] or [json.load(open(d + "/meta.json"))["property"]]
work = tempfile.mkdtemp(prefix="trybug-")
try:
    subprocess.run(["cp", "-a", "/repo", work + "/repo"], check=True)
    subprocess.run(["git", "-C", work + "/repo", "apply", d + "/patch.diff"], check=True)
    subprocess.run(["cp", "-a", VERIF, work + "/verif"], check=True)
    for c in checks:
        env = dict(os.environ, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
        p = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 check.py %s" % (work, work, c)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        o = p.stdout.decode(errors="replace")
        lines = [l for l in o.split("\n") if l.strip() and not l.startswith("VIOLATION")]
        print("%-24s %s rc=%d %s | %s" % (bug, c, p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION property=%s" % c in o else "quiet" if p.returncode == 0 else "NO ANSWER", (lines[0] if lines else "")[:230]))
        sys.stdout.flush()
finally:
    shutil.rmtree(work, ignore_errors=True)
