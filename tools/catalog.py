#!/usr/bin/env python3
"""Single source of truth for the property list and the check manifest.

Running it rewrites /verif/properties.jsonl and /verif/MANIFEST.json.
A property is claimed (gets a check) when its `bin` is set, otherwise it is
listed under not_applicable with `na` as the reason.
"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, bin=None, na=None,
         technique=None, note=None, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    assert len(title) <= 80, (id, title, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  anchors=anchors, bin=bin, na=na, technique=technique, note=note))


exec(open(os.path.join(ROOT, "tools", "catalog_data.py")).read())

SHIM_NOTE = (" Trusts the offline FRAME stand-in under /verif/shim (storage, codec, dispatch, events, "
             "balances); its signatures are idealised (unforgeable, exact).")


def main():
    ids = set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert p["id"] not in ids
            ids.add(p["id"])
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": p["anchors"]}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["bin"]:
            shim = p["bin"] not in DIRECT_BINS
            checks.append({
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": (p["note"] or "") + (SHIM_NOTE if shim else ""),
            })
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": HOOKS,
        "checks": checks,
        "not_applicable": na,
        "notes": NOTES,
    }
    if man["hooks"] is None:
        del man["hooks"]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    with open(os.path.join(ROOT, "tools", "bins.tsv"), "w") as f:
        for p in P:
            if p["bin"]:
                f.write(f"{p['id']}\t{p['bin']}\n")


main()
