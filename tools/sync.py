#!/usr/bin/env python3
"""Copies the sources of the crates under test from /repo's working tree into wrap/<crate>/.

A file is rewritten only when its content differs, so cargo rebuilds exactly what changed,
whatever the time stamps of the copies are. Files that vanished from /repo vanish here too.
With arguments: only these crates."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# crate directory under wrap/ -> (directory in the repository, items to take)
CRATES = {}
with open(os.path.join(ROOT, "tools", "crates.tsv"), encoding="utf-8") as f:
    for line in f:
        line = line.rstrip("\n")
        if line and not line.startswith("#"):
            name, src, items = line.split("\t")
            CRATES[name] = (src, items.split(","))


def put(src, dst):
    with open(src, "rb") as f:
        data = f.read()
    if os.path.exists(dst):
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)


def sync(name):
    src, items = CRATES[name]
    base = os.path.join(ROOT, "wrap", name)
    want = set()
    for item in items:
        s = os.path.join(REPO, src, item)
        if os.path.isdir(s):
            for d, dirs, files in os.walk(s):
                dirs[:] = [x for x in dirs if x != "target"]
                for fn in files:
                    rel = os.path.relpath(os.path.join(d, fn), os.path.join(REPO, src))
                    want.add(rel)
        elif os.path.exists(s):
            want.add(item)
    for rel in sorted(want):
        put(os.path.join(REPO, src, rel), os.path.join(base, rel))
    keep = {"Cargo.toml"}
    for d, dirs, files in os.walk(base):
        for fn in files:
            rel = os.path.relpath(os.path.join(d, fn), base)
            if rel not in want and rel not in keep:
                os.unlink(os.path.join(d, fn))


for n in sys.argv[1:] or CRATES:
    sync(n)
if len(sys.argv) == 1:
    import runtime_items
    runtime_items.main()
