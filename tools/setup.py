#!/usr/bin/env python3
"""Builds every harness once (the checks rebuild from /repo's working tree themselves)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
reg = json.load(open(os.path.join(ROOT, "harness", "registry.json")))
crates = {}
for pid, r in reg.items():
    if "driver" not in r:
        crates.setdefault(r["crate"], []).append(r["bin"])
for crate, bins in crates.items():
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    if subprocess.run(cmd, cwd=os.path.join(ROOT, "harness", crate), env=check.base_env()).returncode:
        sys.exit("setup: building %s failed" % crate)
for pid, r in reg.items():
    if subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid, "--build-only"]).returncode:
        sys.exit("setup: building the harness of %s failed" % pid)
