#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)writes seeded/<ID>/ from tools/seeds.py against /repo's HEAD and confirms each one in /repo's working
tree (demo passes before, fails after; with -t the stable tests pass after; with -c the property's check), always undoing the change."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import seeds
R = "/repo"
SH = '''#!/bin/bash
cd /repo && JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main(ids, test, chk):
    assert not run(["git", "status", "--porcelain", "-uno"], cwd=R).stdout
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in seeds.S:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(H, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        msg = [s["id"]]
        r = run(["bash", d + "/demo.sh"])
        msg.append(f"clean={r.returncode}")
        if r.returncode:
            msg.append(r.stderr[-400:])
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                n = 1
                if isinstance(old, tuple):
                    old, n = old
                parts = t.split(old)
                assert len(parts) > n, (s["id"], old)
                if n == 1 and len(parts) != 2:
                    msg.append(f"[{len(parts)-1} occurrences, 1st used]")
                open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
            open(d + "/patch.diff", "w").write(run(["git", "diff"], cwd=R).stdout)
            r = run(["bash", d + "/demo.sh"])
            msg.append(f"patched={r.returncode} {(r.stderr.strip().splitlines() or [''])[-1][:100]}")
            if test:
                run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"])
                o = json.load(open("/tmp/seedtest.json"))
                ok = set(o.get("passed", []))
                msg.append("tests=ok" if stable <= ok else f"tests=BROKEN {sorted(stable-ok)[:4]}")
            if chk:
                r = run(["python3-vt", "check.py", s["property"]], cwd=H)
                msg.append(f"check={r.returncode}" + (" CAUGHT" if f"VIOLATION property={s['property']} " in r.stdout else " MISSED"))
        finally:
            run(["git", "checkout", "--", "."], cwd=R)
        print("  ".join(msg), flush=True)


a = sys.argv[1:]
main([x for x in a if x[0] != "-"], "-t" in a, "-c" in a)
