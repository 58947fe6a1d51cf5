#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: rebuilds from /repo's working tree, explores, replays a part on the real MPI,
writes evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, subprocess, sys, time, tempfile, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/tools")
import build as B
EV = os.environ.get("VP_EVIDENCE", HERE + "/evidence")

def native(prop, tier, work, budget):
    """conformance of the virtual MPI: replay cases on the real MPI, compare the calls of every rank"""
    r = dict(cases=0, same=0, different=0, failed=0, mpi_calls=0, notes=[])
    conf = work + "/conform.txt"
    want = {"quick": 160, "thorough": 1500}[tier]
    p = subprocess.run([B.BUILD + "/explore", "--prop", prop, "--tier", tier, "--libdir", B.BUILD, "--conform", conf, "--want", str(want)],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    if p.returncode or not os.path.exists(conf): r["notes"].append("no cases for replay"); return r
    sizes = {}
    for l in open(conf): j = int(l.split(" ", 1)[0]); sizes[j] = sizes.get(j, 0) + 1
    r["cases"] = sum(sizes.values())
    end = time.time() + budget
    for np in sorted(sizes):
        left = end - time.time()
        if left < 3: r["notes"].append("replay on %d processes skipped: time" % np); continue
        tmp = tempfile.mkdtemp(prefix="v", dir="/tmp")
        env = dict(HOME=tmp, TMPDIR=tmp, LC_ALL="C", PATH="/usr/local/bin:/usr/bin:/bin", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
                   OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl_vader_backing_directory=tmp, OMPI_MCA_pml="ob1",
                   OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
                   OMPI_MCA_mpi_yield_when_idle="1")
        cmd = ["mpirun", "-np", str(np), B.BUILD + "/native", B.BUILD, conf]
        text = ""
        try:
            q = subprocess.Popen(cmd, env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
            try: text, _ = q.communicate(timeout=min(left, 60 if tier == "quick" else 600))
            except subprocess.TimeoutExpired:
                os.killpg(q.pid, signal.SIGKILL); text, _ = q.communicate(); r["notes"].append("replay on %d processes timed out" % np)
        except OSError as e: r["notes"].append(str(e))
        finally: shutil.rmtree(tmp, ignore_errors=True)
        s = [l.split() for l in text.split("\n") if l.startswith(("SAME ", "DONE "))]
        if s: r["same"] += int(s[-1][1]); r["different"] += int(s[-1][2]); r["mpi_calls"] += int(s[-1][3])
        for l in text.split("\n"):
            if l.startswith("FAIL "): r["failed"] += 1; r["notes"].append(l[:300])
            elif l.startswith("DIFF "): r["notes"].append(l[:300])
        if not s: r["notes"].append("no report from mpirun -np %d: %s" % (np, text[-200:].replace("\n", " ")))
    r["notes"] = r["notes"][:8]
    return r

def findings(prop):
    """known findings of this property: (id, substring of the case text, substring of the message)"""
    out = []
    for l in open(HERE + "/known_findings.txt"):
        if l.startswith("known: property=%s " % prop):
            out.append(json.loads(l.split(" ", 2)[2]))
    return out

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try: B.build(native=True)
    except B.BuildError as e:
        print("build failed:\n" + str(e)[-3000:]); return 2
    limit = float(os.environ.get("VP_LIMIT", {"quick": 560, "thorough": 7200}[tier]))
    work = tempfile.mkdtemp(prefix="vp", dir="/tmp"); rep = EV + "/replays"; os.makedirs(rep, exist_ok=True)
    try:
        out = work + "/out.json"
        cmd = [B.BUILD + "/explore", "--prop", prop, "--tier", tier, "--libdir", B.BUILD, "--replaydir", rep, "--out", out, "--limit", str(limit), "--jobs", str(os.cpu_count() or 8)]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("explorer failed (%d): %s" % (p.returncode, (p.stderr or "")[-2000:])); return 2
        d = json.load(open(out))
        try: nat = native(prop, tier, work, 90 if tier == "quick" else 1200)
        except Exception as e: nat = dict(cases=0, same=0, different=0, failed=0, mpi_calls=0, notes=[repr(e)])
        samples = []
        q = subprocess.run([B.BUILD + "/explore", "--prop", prop, "--tier", tier, "--libdir", B.BUILD, "--sample", "6"], stdout=subprocess.PIPE, text=True)
        for l in q.stdout.split("\n"):
            if l.strip(): samples.append(l[:700])
    finally: shutil.rmtree(work, ignore_errors=True)
    known = findings(prop); new = []; seen = {}
    for v in d["violations"]:
        k = next((f for f in known if f["case"] in v["case"] and f["message"] in v["message"]), None)
        if k: seen[k["what"]] = 1
        else: new.append(v)
    for w in seen: print("KNOWN-FINDING: property=%s %s" % (prop, w))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
      coverage=dict(states=d["states"], transitions=d["transitions"], traces_validated_against_impl=nat["same"], samples=samples,
        exhaustive=bool(d["complete"]), bounds=d["bounds"], programs=d["cases"], programs_in_bounds=d["items"], executions=d["executions"], choice_points=d["choice_points"], longest_choice_sequence=d["max_choices"],
        explorations_cut_by_cap_or_time=d["capped"], allocation_failures_injected=d["faults"], refusals_observed=d["refused"],
        native_replay=nat, crashes_not_reproduced=d["unreproduced"],
        explanation="Every execution runs the real library code (ASan build of /repo's working tree) under a virtual MPI whose choices are enumerated; a transition is one MPI call of one rank, a state is the tuple of the ranks' MPI histories. traces_validated_against_impl counts programs replayed on the real MPI whose per-rank MPI call sequence (call, peer, size, tag, payload) equalled that of the virtual run and whose value assertions held."),
      assumptions=["MPI behaves as MPI-3.1 prescribes for the calls used (standard-mode sends may buffer or synchronise, pending receives complete in any order, collectives may or may not synchronise)",
        "bounds as given in coverage.bounds; gcc -O1 with AddressSanitizer on x86-64"],
      wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(EV + "/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d programs, %d executions, %d transitions, %d states, complete=%s, replayed on MPI %d of %d, %.0f s" % (prop, tier, d["cases"], d["executions"], d["transitions"], d["states"], d["complete"], nat["same"], nat["cases"], time.time() - t0))
    for v in new[:6]:
        print("  [%s] %s\n    %s" % (v["class"], v["message"][:600].strip(), v["case"][:900]))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, new[0]["replay"])); return 1
    return 0
if __name__ == "__main__":
    sys.exit(main())
