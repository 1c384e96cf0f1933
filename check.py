#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- decides one property of /repo's current tree by symbolic execution of its LLVM IR.

Exit 0: every harness of the property was explored completely and no assertion can fail within the bounds.
Exit 1: VIOLATION line; the counterexample was replayed against the natively compiled code.
Exit 2: no verdict (build failure, bound or time exceeded, counterexample that does not replay, vacuous harness)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")
FILES = {1: "codec.rs", 2: "encode.rs", 3: "ids.rs", 4: "evloop.rs", 5: "refm.rs", 6: "session.rs", 7: "sched.rs"}


def where(msg):
    m = re.search(r"(\d{5,6})", msg)
    if not m:
        return msg
    n = int(m.group(1))
    return "%s:%d" % (FILES.get(n // 10000, "?"), n % 10000)


def known():
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(re.findall(r"(\w+)=(\S+)", l.split("--")[0]))
                d["what"] = l.split("--", 1)[1].strip() if "--" in l else ""
                r.append(d)
    return r


def symir(exe, ll, h, limit, tmp, jobs, samples):
    out = os.path.join(tmp, h + ".json")
    t = time.time()
    cmd = [exe, ll, h, "--out", out, "--jobs", str(jobs), "--time", str(limit), "--samples", str(samples)]
    if "fmt" not in h:
        cmd.append("--nofmt")
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=limit + 240)
    except subprocess.TimeoutExpired:
        return h, None, "no answer in time", time.time() - t
    if r.returncode != 0:
        return h, None, "engine error %d: %s" % (r.returncode, r.stderr[-1500:]), time.time() - t
    return h, json.load(open(out)), None, time.time() - t


def replay(exe, path, limit):
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit)
        return r.returncode, r.stdout.splitlines()
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "timeout", (o.decode(errors="replace") if isinstance(o, bytes) else o).splitlines()


def line(h, inputs):
    return " ".join([h] + ["%d:%d" % (w, v) for w, v in inputs])


def demangle(names):
    try:
        r = subprocess.run(["c++filt", "--format=rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        o = r.stdout.splitlines()
        if r.returncode == 0 and len(o) == len(names):
            return o
    except Exception:
        pass
    return names


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    hs = P["quick"].split() + (P["thorough"].split() if tier == "thorough" else [])
    limit = 420 if tier == "quick" else 3000
    ncpu = os.cpu_count() or 4
    try:
        exe, ll, nat = build.all()
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    t_build = time.time() - t0
    tmp = os.path.join(build.B, "run-" + pid)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    vdir = os.path.join(VERIF, "evidence", "replay", pid)
    shutil.rmtree(vdir, ignore_errors=True)

    par = min(len(hs), 3)
    res = {}
    with cf.ThreadPoolExecutor(par) as ex:
        for h, parts, err, secs in ex.map(lambda h: symir(exe, ll, h, limit, tmp, max(2, ncpu), 8), hs):
            res[h] = (parts, err, secs)
    t_sym = time.time() - t0 - t_build

    errors, viols, per, samples, funcs, left_out = [], [], [], [], {}, []
    tot = dict(paths=0, infeasible=0, steps=0, forks=0, checks=0, symbolic_checks=0, queries=0, solved=0, cache_hits=0,
               model_hits=0, sat=0, unsat=0, unknown=0, solver_time=0.0, branches=0)
    for h in hs:
        parts, err, secs = res[h]
        if err:
            errors.append("%s: %s" % (h, err))
            continue
        if any(v["kind"] == "unavailable" for p in parts for v in p["violations"]):
            # needs a part of the hook that does not compile with this tree
            left_out.append(h)
            for p in parts:
                p["violations"] = [v for v in p["violations"] if v["kind"] != "unavailable"]
                viols += [(h, v) for v in p["violations"]]
            continue
        S = lambda k: sum(p[k] for p in parts)
        why = {}
        for p in parts:
            for a, b in p["why"]:
                why[a] = why.get(a, 0) + b
        complete = all(p["complete"] for p in parts)
        covers = sorted({c[0] for p in parts for c in p["covers"]})
        for p in parts:
            for v in p["violations"]:
                viols.append((h, v))
            for s in p["samples"]:
                samples.append((h, s))
            for n, c, b, nb in p["functions"]:
                o = funcs.get(n)
                funcs[n] = (c + (o[0] if o else 0), max(b, o[1] if o else 0), nb)
        nviol = sum(len(p["violations"]) for p in parts)
        if nviol == 0:
            if not complete:
                errors.append("%s: incomplete: %s" % (h, why))
            elif S("done") == 0 or not covers:
                errors.append("%s: vacuous: no path reached its end" % h)
        per.append(dict(harness=h, complete=complete, paths=S("done"), infeasible=S("infeasible"), instructions=S("steps"),
                        assertions=S("checks"), symbolic_assertions=S("symbolic_checks"), queries=S("queries"),
                        solved_by_z3=S("solved"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"),
                        solver_seconds=round(S("solver_time"), 2), seconds=round(secs, 2), cover_points=len(covers)))
        for k, k2 in (("paths", "done"), ("solver_time", "solver_time")):
            tot[k] += S(k2)
        for k in ("infeasible", "steps", "forks", "checks", "symbolic_checks", "queries", "solved", "cache_hits", "model_hits",
                  "sat", "unsat", "unknown", "branches"):
            tot[k] += S(k)

    if left_out:
        print("left out, as they need parts of the hook that do not fit this tree: %s" % " ".join(left_out))
        if not per:
            errors.append("no harness is left")

    # translation check: completed paths, run natively on their model, must end well with the same observations
    validated, written = 0, []
    if samples:
        path = os.path.join(tmp, "samples.txt")
        with open(path, "w") as f:
            for h, s in samples:
                f.write(line(h, s["inputs"]) + "\n")
        rc, out = replay(nat, path, 300)
        for i, (h, s) in enumerate(samples):
            exp = "ok" + "".join(" %d" % x for x in s["obs"])
            got = out[i] if i < len(out) else "no output (%s)" % rc
            if got == exp:
                validated += 1
                if len(written) < 6 or i % max(1, len(samples) // 6) == 0:
                    written.append(dict(case=line(h, s["inputs"])[:600], native=got[:300]))
            elif got.startswith(("check", "panic")) or (i == len(out) and rc == "timeout"):
                # the real code fails on this input: a violation whatever the engine said
                viols.append((h, dict(kind="native", msg=got, inputs=s["inputs"], stack=[])))
            else:
                errors.append("%s: native run differs: expected %r, got %r on %s" % (h, exp, got, line(h, s["inputs"])[:400]))
                break

    # violations: replayed against the real code before they are reported
    kf = known()
    confirmed, seen = [], set()
    for h, v in viols:
        key = (h, v["kind"], v["msg"])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(vdir, exist_ok=True)
        path = os.path.join(vdir, "%d.txt" % len(seen))
        with open(path, "w") as f:
            f.write(line(h, v["inputs"]) + "\n")
        if len(seen) > 12:
            break
        rc, out = replay(nat, path, 20)
        got = out[0] if out else ("timeout" if rc == "timeout" else "died (%s)" % rc)
        if got.startswith(("check", "panic", "timeout", "died")):
            g = where(got) if got.startswith("check") else got
            k = [x for x in kf if x.get("property") == pid and x.get("harness") == h and x.get("at", "") in (where(v["msg"]), "")
                 and v["kind"] == x.get("kind", "check")]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
                continue
            confirmed.append(path)
            with open(path + ".about", "w") as f:
                f.write("property %s, harness %s\nsolver: %s %s (%s)\nnative: %s\nstack:\n  %s\nreplay: %s %s\n" % (
                    pid, h, v["kind"], v["msg"], where(v["msg"]), got, "\n  ".join(demangle(v["stack"]) or [""]), nat, path))
            print("%s: %s %s -> native: %s" % (h, v["kind"], where(v["msg"]), g))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            errors.append("%s: counterexample for %s %s does not replay natively (%s): %s" % (h, v["kind"], where(v["msg"]), got, path))

    fn = [n for n in funcs if "3ruq" in n]
    names = demangle(fn)
    flist = sorted(["%s: %d calls, %d of %d blocks" % (d, funcs[n][0], funcs[n][1], funcs[n][2]) for n, d in zip(fn, names)
                    if "harness" not in d.split("ruq")[0]])
    cov = dict(states=tot["paths"] + tot["infeasible"], transitions=tot["steps"], traces_validated_against_impl=validated,
               samples=written or [dict(case="none")],
               exhaustive=not errors and not confirmed,
               explanation="states: symbolic paths explored to their end; transitions: LLVM instructions executed symbolically",
               bounds=P["bounds"], symbolic_paths=tot["paths"], assertions_decided=tot["checks"],
               assertions_over_symbolic_values=tot["symbolic_checks"], branch_decisions=tot["branches"],
               solver=dict(queries=tot["queries"], answered_by_z3=tot["solved"], answered_from_cache=tot["cache_hits"],
                           answered_by_known_model=tot["model_hits"], sat=tot["sat"], unsat=tot["unsat"],
                           unknown=tot["unknown"], seconds=round(tot["solver_time"], 2)),
               harnesses=per, harnesses_left_out=left_out, functions_encoded=flist, functions_encoded_count=len(flist),
               library_functions_encoded=len(funcs) - len(fn), errors=errors)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["LLVM IR at opt-level 1 with overflow checks and debug assertions stands for the shipped build",
                           "tokio's net and time are replaced by a deterministic stand-in (shim-tokio); channels, select!, codec and "
                           "buffers are the real ones", "bounds as stated; nothing is claimed outside them"],
              wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for e in errors:
        print("ERROR: %s" % e)
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%d to z3, %.1f s), %d replayed; build %.0f s, total %.0f s"
          % (pid, tier, len(per), tot["paths"], tot["checks"], tot["queries"], tot["solved"], tot["solver_time"], validated,
             t_build, time.time() - t0))
    if confirmed:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
