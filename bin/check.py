#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property by symbolic execution of the real code."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import props

V = build.VERIF


def replay_file(path, vals):
    with open(path, "w") as f:
        for k, v in vals:
            f.write(f"{k} {v}\n")


def native(runner, entry, args, vals, timeout=20):
    """run the harness natively on concrete values; -> dict"""
    d = tempfile.mkdtemp(prefix="vx-")
    try:
        rf = os.path.join(d, "replay")
        replay_file(rf, vals)
        w = os.path.join(d, "w")
        os.mkdir(w)
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "LD_LIBRARY_PATH", "HOME")}
        e["RUST_BACKTRACE"] = "0"
        try:
            p = subprocess.run([runner, entry, ",".join(map(str, args)), rf], cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, start_new_session=True)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace"), "hang"
        r = dict(rc=rc, fails=[], panic=None, okpanic=None, logs=[], covers=[], assume=False, done=False, exitok=False, out=out)
        for l in out.splitlines():
            if l.startswith("CHECK-FAIL "):
                r["fails"].append(l[11:])
            elif l.startswith("PANIC "):
                r["panic"] = l[6:]
            elif l.startswith("OKPANIC "):
                r["okpanic"] = l[8:]
            elif l.startswith("LOG "):
                r["logs"].append(l[4:])
            elif l.startswith("COVER "):
                r["covers"].append(l[6:])
            elif l == "ASSUME-FAIL":
                r["assume"] = True
            elif l == "EXITOK":
                r["exitok"] = True
            elif l == "DONE":
                r["done"] = True
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduces(r, msg):
    """does the native run show the violation the solver found? -> text or None"""
    if r["assume"]:
        return None
    if msg.startswith("deadlock"):
        return "hang" if r["rc"] == "hang" else None
    if msg.startswith("exit with status") and not r["done"] and not r["exitok"] and str(r["rc"]) == msg.split()[-1]:
        return msg
    if r["panic"]:
        return "panic at " + r["panic"]
    if r["rc"] == "hang":
        return "hang"
    if isinstance(r["rc"], int) and r["rc"] != 0 and not r["exitok"]:
        return f"abnormal end, status {r['rc']}"
    if msg in r["fails"]:
        return msg
    return r["fails"][0] if r["fails"] and not msg.startswith("panic") else None


def parse_num(s):
    try:
        return float(s)
    except ValueError:
        return None


def logs_agree(pe, r):
    """predicted observations of a path against the native run"""
    want, got = [], []
    for t, v in pe["logs"]:
        want.append((t, v))
    for l in r["logs"]:
        t, v = l.rsplit(" ", 1)
        got.append((t, v))
    if len(want) != len(got):
        return f"{len(want)} observations predicted, {len(got)} made"
    for (t, v), (t2, v2) in zip(want, got):
        if t != t2:
            return f"observation {t} predicted, {t2} made"
        if v == v2 or v == "?":
            continue
        if v.startswith("x") or v2.startswith("x"):
            return f"{t}: {v} predicted, {v2} made"
        a, b = parse_num(v), parse_num(v2)
        if a is None or b is None or not abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b))):
            return f"{t}: {v} predicted, {v2} made"
    return None


def run_job(job, bc, runner, tier, seed, deadline):
    out = tempfile.mktemp(prefix="symx-", suffix=".json")
    t = min(job.time, max(5.0, deadline - time.time()))
    cmd = [build.SYMX, "--bc", bc, "--entry", job.entry, "--args", ",".join(map(str, job.args)), "--mode", job.mode, "--workers", str(job.workers), "--time", f"{t:.0f}", "--out", out, "--samples", str(job.samples), "--seed", str(seed), "--query-ms", str(job.query_ms), "--max-insns", str(job.max_insns)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 30)
    except subprocess.TimeoutExpired:
        # stuck in a single query before the work was shared out: nothing is known
        p = None
    if p is None:
        j = dict(parts=[dict(crashed=True)], z3="")
    elif not os.path.exists(out):
        raise build.BuildError(f"symx failed on {job.entry} {job.args}: {p.stdout[-2000:]}")
    else:
        try:
            j = json.load(open(out))
        finally:
            os.unlink(out)
    a = dict(paths=0, left=0, forks=0, insns=0, checks_proved=0, checks_conc=0, inconclusive=0, decide_dom=0, queries=0, sat=0, unsat=0, unknown=0, solver_us=0)
    m = {k: {} for k in ("kinds", "violation_counts", "bad_counts", "covers", "check_ids")}
    ls = {k: [] for k in ("violations", "bad", "samples")}
    sets = {k: set() for k in ("functions", "models", "asm", "vars", "notes")}
    crashed = 0
    for part in j["parts"]:
        if part.get("crashed"):
            crashed += 1
            continue
        for k in a:
            a[k] += part.get(k, 0)
        for k in m:
            for x, n in part.get(k, {}).items():
                m[k][x] = m[k].get(x, 0) + n
        for k in ls:
            ls[k] += part.get(k, [])
        for k in sets:
            sets[k] |= set(part.get(k, []))
    a.update(m)
    a.update(ls)
    a.update({k: sorted(v) for k, v in sets.items()})
    a["crashed"] = crashed
    a["z3"] = j["z3"]
    a["wall"] = time.time() - t0
    return a


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", type=int, help="only this job")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[o.id]
    jobs = list(P.quick) if o.tier == "quick" else list(P.thorough or P.quick)
    if o.job is not None:
        jobs = [jobs[o.job]]
    deadline = t0 + (600 if o.tier == "quick" else 6 * 3600)
    entries = sorted({j.entry for j in jobs})
    try:
        if not os.path.exists(os.path.join(build.B, "deps_all.bc")):
            build.setup()
        bc, runner, tb = build.build(P.feature, entries)
    except build.BuildError as e:
        print("cannot build:", e)
        sys.exit(2)
    kf = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == o.id]
    tot = {}
    functions, models, asm, assumptions = set(), set(), set(), []
    samples, validated, mismatches, incomplete, jobrep = [], 0, [], [], []
    violations, unconfirmed, known = [], [], []
    ex = ThreadPoolExecutor(8)
    for jn, job in enumerate(jobs):
        if violations and (job.skip_if_violated or time.time() > t0 + 60):
            continue
        if time.time() > deadline + 60:
            incomplete.append(f"{job.entry}({','.join(map(str, job.args))}): not started")
            continue
        try:
            r = run_job(job, bc, runner, o.tier, seed, deadline)
        except build.BuildError as e:
            print("no verdict:", e)
            sys.exit(2)
        functions |= set(r["functions"])
        models |= set(r["models"])
        asm |= set(r["asm"])
        for k, v in r.items():
            if isinstance(v, int):
                tot[k] = tot.get(k, 0) + v
        name = f"{job.entry}({','.join(map(str, job.args))})"
        jr = dict(job=name, bounds=job.bounds, mode=job.mode, paths=r["paths"], queries=r["queries"], checks=r["check_ids"], covers=r["covers"], wall_s=round(r["wall"], 2), solver_s=round(r["solver_us"] / 1e6, 2), z3=r["z3"])
        # violations
        seen = {}
        for v in r["violations"]:
            if v["kind"] == "panic":
                msg = v["msg"]
            else:
                msg = v["msg"]
            if len(seen.setdefault(msg, [])) < 6:
                seen[msg].append(v)
        for msg, vs in seen.items():
            hit = None
            for v in vs:
                n = native(runner, job.entry, job.args, v["vals"], timeout=job.native_timeout)
                txt = reproduces(n, msg)
                if txt:
                    hit = (v, txt)
                    break
            if hit is None:
                unconfirmed.append(f"{name}: {msg} with {dict(vs[0]['vals'])}")
                continue
            v, txt = hit
            k = next((k for k in kf if k["entry"] == job.entry and k["args"] == list(job.args) and k["check"] in (msg, txt)), None)
            if k:
                known.append((k, txt))
                continue
            rp = os.path.join(V, "evidence", f"{o.id}-{len(violations)}.replay")
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                f.write(f"# {name}: {txt}\n# replay: {runner} {job.entry} {','.join(map(str, job.args))} THISFILE\n")
                for a, b in v["vals"]:
                    f.write(f"{a} {b}\n")
            violations.append((rp, name, txt, v["vals"]))
        # paths the executor could not finish: run their inputs natively
        bads = r["bad"][:8]
        for b, n in zip(bads, ex.map(lambda b: native(runner, job.entry, job.args, b["vals"], timeout=job.native_timeout), bads)):
            incomplete.append(f"{name}: {b['msg']} @ {(b['trace'] or [''])[0]}")
            if not n["assume"] and not n["okpanic"] and (n["panic"] or n["fails"] or n["rc"] == "hang" or (n["rc"] != 0 and not n["exitok"])):
                txt = n["panic"] and "panic at " + n["panic"] or (n["fails"] and n["fails"][0]) or f"abnormal end {n['rc']}"
                rp = os.path.join(V, "evidence", f"{o.id}-{len(violations)}.replay")
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                replay_file(rp, b["vals"])
                violations.append((rp, name, txt, b["vals"]))
        if r["left"] or r["crashed"]:
            incomplete.append(f"{name}: {r['left']} paths not explored within {job.time:.0f} s, {r['crashed']} workers lost")
        for n in r["notes"]:
            incomplete.append(f"{name}: {n}")
        # validate the encoding: completed paths against the real build
        ss = r["samples"][: job.samples]
        for s, n in zip(ss, ex.map(lambda b: native(runner, job.entry, job.args, b["vals"], timeout=job.native_timeout), ss)):
            why = None
            if n["assume"]:
                why = "assumption fails natively"
            elif s["kind"] == "panic":
                why = None if (n["panic"] or n["okpanic"]) else "panic predicted, none seen"
            elif s["kind"] == "exit":
                why = None if n["exitok"] and str(n["rc"]) == s["msg"] else "exit predicted, none seen"
            elif s["kind"] == "return" and not n["done"]:
                why = f"normal return predicted, got {n['rc']} {n['panic'] or ''}"
            elif n["fails"]:
                why = f"check {n['fails'][0]} fails natively"
            else:
                why = logs_agree(s, n)
            if why:
                mismatches.append(f"{name} {dict(s['vals'])}: {why}")
            else:
                validated += 1
        if ss:
            samples.append(dict(job=name, inputs=dict(ss[0]["vals"]), observed=ss[0]["logs"][:20], end=ss[0]["kind"]))
        miss = [c for c in job.covers if not r["covers"].get(c)]
        jr["incomplete"] = bool(r["left"] or r["bad_counts"] or r["inconclusive"] or r["crashed"])
        jr["not_reached"] = miss
        jobrep.append(jr)
        if o.v:
            print(json.dumps({k: v for k, v in jr.items()}), flush=True)
            if r["bad_counts"]:
                print("   bad", r["bad_counts"])
            print("   viol", r["violation_counts"], "kinds", r["kinds"], flush=True)
    nchecks = tot.get("checks_proved", 0) + tot.get("checks_conc", 0)
    ev = dict(
        property=o.id,
        tier=o.tier,
        seed=seed,
        level=P.level,
        coverage=dict(
            states=tot.get("paths", 0),
            transitions=tot.get("forks", 0),
            traces_validated_against_impl=validated,
            samples=samples or [dict(note="no completed path")],
            obligations=nchecks,
            discharged_by_solver=tot.get("checks_proved", 0),
            discharged_by_simplification=tot.get("checks_conc", 0),
            queries=tot.get("queries", 0),
            queries_sat=tot.get("sat", 0),
            queries_unsat=tot.get("unsat", 0),
            queries_unknown=tot.get("unknown", 0),
            branches_decided_on_byte_domains=tot.get("decide_dom", 0),
            solver_s=round(tot.get("solver_us", 0) / 1e6, 3),
            instructions=tot.get("insns", 0),
            jobs=jobrep,
            exhaustive_within_bounds=not incomplete,
            incomplete=incomplete[:40],
            validation_mismatches=mismatches[:20],
            unconfirmed=unconfirmed[:20],
            functions_encoded=sorted(f for f in functions if "cres" in f)[:400],
            functions_encoded_total=len(functions),
            environment_models=sorted(models),
            inline_asm=sorted(asm),
            build_s=round(tb, 1),
            outside_the_claim=P.outside,
        ),
        assumptions=P.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", o.id + ".json"), "w"), indent=1)
    print(f"{o.id} {o.tier}: {tot.get('paths',0)} paths, {nchecks} checks ({tot.get('checks_proved',0)} by the solver), {tot.get('queries',0)} queries in {tot.get('solver_us',0)/1e6:.1f} s, {validated} paths validated natively, {time.time()-t0:.1f} s")
    for x in incomplete[:10]:
        print("incomplete:", x)
    for x in mismatches[:5]:
        print("encoding mismatch:", x)
    for x in unconfirmed[:5]:
        print("not reproduced natively:", x)
    done = set()
    for k, txt in known:
        if k["id"] not in done:
            done.add(k["id"])
            print(f"KNOWN-FINDING: property={o.id} {k['what']}")
    for rp, name, txt, vals in violations:
        print(f"VIOLATION property={o.id} replay={rp}")
        print(f"  {name}: {txt}; inputs {dict(vals)}")
    if violations:
        sys.exit(1)
    if mismatches or unconfirmed:
        print("the encoding disagrees with the real build: no verdict")
        sys.exit(2)
    if nchecks == 0:
        print("no assertion was reached: no verdict")
        sys.exit(2)
    missed = [f"{j['job']}: {j['not_reached']}" for j in jobrep if j["not_reached"]]
    if missed:
        print("cover points not reached:", missed)
        # unexpected unless paths were given up
        if not any(j["incomplete"] for j in jobrep if j["not_reached"]):
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
