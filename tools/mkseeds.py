#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted changes listed here (patches are made in a scratch worktree of /repo)."""
import os, sys, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); KIT = V + "/tools/seedkit"; W = "/tmp/mkseeds_wt"
S = {}
def seed(id, prop, edits, demo, run, needs, breaks): S[id] = (prop, edits, demo, run, needs, breaks)
MAIN = '#include "kit.h"\nint main(int argc, char **argv) { start(&argc, &argv);\n%s\nreturn done(); }\n'
exec(open(V + "/tools/seeds.py").read())
def main():
    want = sys.argv[1:] or list(S)
    subprocess.run(["git","-C","/repo","worktree","prune"]); shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git","clone","-q","--no-hardlinks","/repo",W], check=True)
    for id in want:
        prop, edits, demo, run, needs, breaks = S[id]
        for f, old, new, *nth in edits:
            p = W + "/src/" + f; s = open(p).read(); n = s.count(old); k = nth[0] if nth else None
            if n == 0 or (n > 1 and k is None): sys.exit("%s: %s: text occurs %d times: %s" % (id, f, n, old))
            if k is None: s = s.replace(old, new)
            else:
                i = -1
                for _ in range(k): i = s.index(old, i+1)
                s = s[:i] + new + s[i+len(old):]
            open(p,"w").write(s)
        d = V + "/seeded/" + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff","w").write(subprocess.run(["git","-C",W,"diff"], capture_output=True, text=True, check=True).stdout)
        subprocess.run(["git","-C",W,"checkout","-q","--","."], check=True)
        shutil.copy(KIT + "/kit.h", d); shutil.copy(KIT + "/lib.sh", d)
        open(d + "/demo.cpp","w").write(demo)
        open(d + "/demo.sh","w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + run.strip() + "\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json","w"), indent=1)
    shutil.rmtree(W, ignore_errors=True)
main()
