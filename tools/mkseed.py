#!/usr/bin/env python3
"""Author's tool: writes and confirms planted bugs (not used by any check).

usage: mkseed.py SPEC.py [--keep]   SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], kind, main)]
kind: "handles-utils" | "common-helpers" | "cli-opt" | any folder name under tools/demo_kinds.
"""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
KINDS = os.path.join(ROOT, "tools", "demo_kinds")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    r = sh("git -C /repo status --porcelain")
    assert r.stdout == "", r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        clean()
        d = os.path.join(ROOT, "seeded", s["id"])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            patch = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            base = "".join(sh(f"git -C /repo show 5ac6a6d:{f}").stdout for f, _, _ in s["edits"])
            for l in patch.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    assert l[1:] in base, (s["id"], "not an original line", l)
            kd = os.path.join(KINDS, s["kind"])
            for fn in os.listdir(kd):
                shutil.copy(os.path.join(kd, fn), os.path.join(d, fn))
            t = open(os.path.join(d, "demo.sh")).read().replace("@ID@", s["id"])
            open(os.path.join(d, "demo.sh"), "w").write(t)
            open(os.path.join(d, "main.rs"), "w").write(s["main"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = sh("bash /opt/vp/build.sh")
            ok = b.returncode == 0
            tests = "-"
            if ok:
                sh("bash /opt/vp/test.sh /tmp/seedwork/out.json")
                got = json.load(open("/tmp/seedwork/out.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(got.get("passed", got.get("pass", [])))
                missing = [x for x in base if x not in passed]
                tests = "pass" if not missing else f"FAIL {missing[:3]}"
            demo = sh(f"bash {d}/demo.sh", cwd=REPO)
            check = sh(f"bash run.sh {s['property']} quick", cwd=ROOT)
            viol = [l for l in check.stdout.splitlines() if l.startswith("VIOLATION")]
            msg = [l for l in check.stdout.splitlines() if not l.startswith(("KNOWN", s["property"]))][:1]
        finally:
            sh("git -C /repo checkout -- .")
        demo0 = sh(f"bash {d}/demo.sh", cwd=REPO)
        good = ok and tests == "pass" and demo.returncode in (1, 101) and demo0.returncode == 0
        print(f"{s['id']}: build={'ok' if ok else 'FAIL ' + b.stderr[-1500:]} tests={tests} demo-bug={demo.returncode} demo-clean={demo0.returncode} "
              f"check-exit={check.returncode} {'CAUGHT' if viol else 'missed'} {'VALID' if good else 'INVALID'}  {msg}", flush=True)
        if demo0.returncode != 0 or demo.returncode not in (0, 1):
            print((demo0 if demo0.returncode else demo).stderr[-2500:], (demo0 if demo0.returncode else demo).stdout[-500:])
        if check.returncode not in (0, 1):
            print(check.stdout[-500:], check.stderr[-2500:])
    clean()


main()
