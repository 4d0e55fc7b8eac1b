#!/usr/bin/env python3
"""plant.py ID [--make FILE OLD NEW]   validate seeded bug ID against /repo (applies it, reverts it), then run its check.
The replaced text is read from files old/new given as arguments."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]
def tests():
    sh("bash /opt/vp/test.sh /tmp/plant_o.json"); a = json.load(open("/opt/vp/BASELINE.json")); b = json.load(open("/tmp/plant_o.json")); return set(a["stable"]) - set(b["passed"])
def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R); return r.returncode, (r.stdout + r.stderr)[-600:]
def main(i, fast=False):
    d = V + "/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --short").stdout.strip(), "dirty repo"
    try:
        r = sh("git -C /repo apply " + d + "/patch.diff")
        if r.returncode: print(i, "DOES NOT APPLY", r.stderr); return
        ok, o = build()
        if not ok: print(i, "BUILD FAILS", o); return
        print(i, prop, "tests lost:", tests() or "none"); print("   demo with patch:", demo(d))
        r = sh("python3 %s/check.py %s --tier quick" % (V, prop)); print("   check:", r.returncode, "\n      ".join((r.stdout + r.stderr).strip().split("\n")[-3:])[:900])
    finally:
        clean()
    build(); print("   demo without:", demo(d)[0])
for i in sys.argv[1:]: main(i)
