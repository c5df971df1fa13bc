#!/usr/bin/env python3
"""Copies the engine and the metrics crate of /repo to BUILD/conc-src, with
`core` replaced by one whose atomics are under the scheduler's control, and
writes the checker's Cargo.toml."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(sys.argv[1], "conc-src")
REPO = "/repo"
shutil.rmtree(OUT, ignore_errors=True)
os.makedirs(OUT)


def crate(src, dst):
    s, d = os.path.join(REPO, src), os.path.join(OUT, dst)
    shutil.copytree(os.path.join(s, "src"), os.path.join(d, "src"))
    toml = open(os.path.join(s, "Cargo.toml")).read()
    toml = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", toml)
    toml = re.sub(r"\n\[dependencies\]\n", f'\n[dependencies]\nmccore = {{ path = "{HERE}/mccore" }}\n', toml)
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    for f in os.listdir(s):
        if f.endswith(".md"):
            shutil.copy(os.path.join(s, f), d)
    for root, _, files in os.walk(os.path.join(d, "src")):
        for f in files:
            p = os.path.join(root, f)
            if not p.endswith(".rs"):
                continue
            t = open(p).read()
            # Paths that don't go through the crate's `core`.
            t = re.sub(r"(?<![\w:])(::)?std::(sync::atomic|hint)\b", r"core::\2", t)
            t = re.sub(r"(?<![\w:])::core::(sync|hint)\b", r"core::\1", t)
            open(p, "w").write(t)
    lib = os.path.join(d, "src", "lib.rs")
    t = open(lib).read()
    # After the inner attributes and comments at the top.
    lines = t.split("\n")
    i = last = depth = 0
    for i, l in enumerate(lines):
        x = l.strip()
        if depth > 0 or x.startswith("#![") or x.startswith("//!"):
            depth += l.count("[") - l.count("]") if not x.startswith("//") else 0
            last = i + 1
        elif x and not x.startswith("//"):
            break
    lines.insert(last, "extern crate mccore as core;")
    open(lib, "w").write("\n".join(lines))


crate("engine", "engine")
crate("lib/metrics", "lib/metrics")
open(os.path.join(OUT, "Cargo.toml"), "w").write(open(os.path.join(HERE, "Cargo.toml.in")).read().replace("@HERE@", HERE))
lock = os.path.join(HERE, "Cargo.lock")
if os.path.exists(lock):
    shutil.copy(lock, OUT)
