#!/usr/bin/env python3
"""Build the framework."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for n in ("vx", "rac"):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "build", n))
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(V, n), env=e)
    if r.returncode:
        sys.exit(r.returncode)
# the expansion of the derive macro: the names it refers to are missing, so this fails after printing
e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "build", "expand"), RUSTC_BOOTSTRAP="1")
subprocess.run(["cargo", "rustc", "--offline", "--lib", "-q", "--", "-Zunpretty=expanded"], cwd=os.path.join(V, "expand"), env=e,
               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
