"""Runs one check: pinned cases, known findings, then generated cases in parallel shards.

  runner.py CXX [--replay FILE] [--shards N] [--examples N]

Environment: VERIF_SEED (int), VERIF_TIER (quick / thorough), VERIF_REPO (default /repo).
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself broke.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHRINK_S = 40


def setup():
    sys.path.insert(0, REPO)
    sys.path.insert(0, LIB)
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    sys.path.append(HYP)
    import jax

    if os.environ.get("VERIF_TIER", "quick") == "quick":
        jax.config.update("jax_disable_most_optimizations", True)
    import horqrux

    where = os.path.realpath(horqrux.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"horqrux is imported from {where}, not from {REPO}")


def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def load_json(path, default):
    if not os.path.exists(path):
        return default
    with open(path) as f:
        return json.load(f)


def known_findings(pid):
    kf = load_json(os.path.join(ROOT, "known_findings.json"), {"findings": [], "fixed": []})
    return [f for f in kf["findings"] if f["property"] == pid]


def guarded(mod, case):
    """mod.run(case); an exception raised inside the library on a valid case is a violation."""
    import build
    from build import Violation

    build.begin(case)
    try:
        return mod.run(case)
    except Violation:
        raise
    except Exception as e:
        inside = os.path.realpath(REPO) + os.sep
        tb, hit = e.__traceback__, False
        while tb is not None:
            hit = hit or os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(inside)
            tb = tb.tb_next
        if not hit:
            raise
        msg = f"raised on valid input: {type(e).__name__}: {str(e)[:300]}"
    raise Violation(msg)


# other spellings of the parameter names of generated cases
SPELL = {"a": "circuit", "b": "0.5", "a1": "", "theta": "\u03b8", "b_0": "b 0", "p0": "None", "p1": "\u03c0/2", "p2": "p1"}


def respelled(x):
    if isinstance(x, dict):
        return {SPELL.get(k, k): respelled(v) for k, v in x.items()}
    if isinstance(x, list):
        return [respelled(v) for v in x]
    return SPELL.get(x, x) if isinstance(x, str) else x


def spelled(mod, tier):
    from hypothesis import strategies as st

    cases = mod.strategy(tier)
    if not getattr(mod, "RESPELL", False):
        return cases
    return st.tuples(cases, st.sampled_from([False] * 5 + [True])).map(lambda t: respelled(t[0]) if t[1] else t[0])


# ------------------------------------------------------------------ worker


def worker(pid, shard, shards, seed, tier, total, out):
    setup()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_S
    from build import Violation

    mod = importlib.import_module(pid.lower())
    t0 = time.time()
    cap = 240 if tier == "quick" else 3000
    res = {
        "evaluations": 0,
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "skipped": 0,
        "known": {},
        "pinned": 0,
        "fail": None,
    }
    seen = set()
    best = {"case": None, "msg": None, "size": None, "first": None}
    recent = []

    def note(case, msg):
        s = len(json.dumps(case))
        if best["first"] is None:
            best["first"] = {"case": case, "msg": msg, "at_evaluation": res["evaluations"]}
        if best["size"] is None or s <= best["size"]:
            best.update(case=case, msg=msg, size=s)

    def one(case, pinned=False):
        if best["case"] is None:
            res["evaluations"] += 1
            k = key(case)
            if k not in seen and mod.nontrivial(case):
                seen.add(k)
            for lab in mod.labels(case):
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if len(res["samples"]) < 2 and mod.nontrivial(case) and not pinned:
                res["samples"].append(case)
            recent.append(case)
            del recent[:-20]
        try:
            r = guarded(mod, case)
        except Violation as e:
            note(case, str(e))
            raise
        if isinstance(r, str):  # outcome matches a listed known finding
            res["known"][r] = res["known"].get(r, 0) + 1

    if shard == 0:
        for case in load_json(os.path.join(ROOT, "pinned", f"{pid}.json"), []):
            res["pinned"] += 1
            try:
                one(case, True)
            except Violation:
                break

    if best["case"] is None:
        n = max(1, (total + shards - 1 - shard) // shards)

        @hypothesis.seed(seed * 1009 + shard)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            print_blob=False,
        )
        @given(spelled(mod, tier))
        def prop(case):
            if time.time() - t0 > cap and best["case"] is None:
                res["skipped"] += 1
                return
            one(case)

        try:
            prop()
        except Violation:
            pass
        except BaseException:
            # a history-dependent failure does not reproduce when Hypothesis replays it:
            # the violation that was observed is reported all the same
            if best["case"] is None:
                raise
    if best["case"] is not None:
        # does the minimal case fail on its own?
        again = None
        try:
            guarded(mod, best["case"])
            again = "passes when run again in the same process: depends on the history"
        except Violation as e:
            again = None
            best["msg"] = str(e)
        res["fail"] = {
            "case": best["case"],
            "message": best["msg"],
            "first": best["first"],
            "note": again,
            "recent": recent if again else [],
        }
    res["nontrivial"] = sorted(seen)
    res["wall"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------ main


def env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tempfile.gettempdir(), "hyp-unused"),
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
        "--xla_cpu_use_fusion_emitters=false --xla_cpu_parallel_codegen_split_count=1",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    return e


def replay_dir():
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def write_replay(pid, fail, seed, tier, shard):
    path = os.path.join(replay_dir(), f"{pid}-{key(fail['case'])}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, "shard": shard, **fail}, f, indent=1)
    return path


def do_replay(pid, path):
    setup()
    from build import Violation

    mod = importlib.import_module(pid.lower())
    data = load_json(path, None)
    cases = data["recent"] + [data["case"]] if data.get("recent") else [data["case"]]
    for i, case in enumerate(cases):
        try:
            guarded(mod, case)
        except Violation as e:
            print(f"case {i}: {e}")
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    print("replay passes")
    return 0


def known_main(pid):
    """Sub-process: run the pinned inputs of the known findings."""
    setup()
    from build import Violation

    mod = importlib.import_module(pid.lower())
    for f in known_findings(pid):
        try:
            r = guarded(mod, f["case"])
        except Violation as e:
            print(f"VIOLATING {f['id']}: {e}")
            return 1
        if r == f["id"]:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        else:
            print(f"note: known finding {f['id']} of {pid} no longer reproduces")
    return 0


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == "--worker":
        pid, shard, shards, seed, tier, total, out = argv[1:]
        worker(pid, int(shard), int(shards), int(seed), tier, int(total), out)
        return 0
    if argv and argv[0] == "--known":
        return known_main(argv[1])
    pid = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    if "--replay" in opts:
        return do_replay(pid, opts["--replay"])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    setup()
    mod = importlib.import_module(pid.lower())
    shards = int(opts.get("--shards", min(8, os.cpu_count() or 8)))
    total = int(opts.get("--examples", mod.EXAMPLES[tier]))
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    procs = []
    e = env()
    e["VERIF_TIER"] = tier
    try:
        me = [sys.executable, "-B", os.path.abspath(__file__)]
        for s in range(shards):
            out = os.path.join(work, f"{s}.json")
            log = open(os.path.join(work, f"{s}.log"), "w")
            procs.append(
                (
                    subprocess.Popen(
                        me + ["--worker", pid, str(s), str(shards), str(seed), tier, str(total), out],
                        stdout=log,
                        stderr=subprocess.STDOUT,
                        env=e,
                        cwd=work,
                    ),
                    out,
                    log.name,
                )
            )
        kp = None
        if known_findings(pid):
            kp = subprocess.run(me + ["--known", pid], capture_output=True, text=True, env=e, cwd=work)
        results, broken = [], []
        for s, (p, out, log) in enumerate(procs):
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                broken.append((s, rc, open(log).read()[-3000:]))
            else:
                results.append((s, load_json(out, None)))
        if kp is not None:
            for line in kp.stdout.splitlines():
                if line.startswith(("KNOWN-FINDING", "note:", "VIOLATING")):
                    print(line)
            if kp.returncode not in (0, 1):
                broken.append(("known", kp.returncode, kp.stderr[-3000:]))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)

    fails = [(s, r["fail"]) for s, r in results if r["fail"]]
    if kp is not None and kp.returncode == 1 and not fails:
        bad = [ln for ln in kp.stdout.splitlines() if ln.startswith("VIOLATING")]
        fid = bad[0].split()[1].rstrip(":") if bad else None
        for f in known_findings(pid):
            if f["id"] == fid:
                fails.append((-1, {"case": f["case"], "message": bad[0], "note": None, "recent": [], "first": None}))
    distinct = set()
    labels, known, samples = {}, {}, []
    ev = skipped = pinned = 0
    for s, r in results:
        ev += r["evaluations"]
        skipped += r["skipped"]
        pinned += r["pinned"]
        distinct |= set(r["nontrivial"])
        samples += r["samples"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:6],
            "classes": dict(sorted(labels.items())),
            "pinned_cases": pinned,
            "shards": shards,
            "skipped_after_time_cap": skipped,
            "outcomes_matching_a_known_finding": known,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{pid} tier={tier} seed={seed}: {ev} cases, {len(distinct)} distinct non-trivial, "
        f"{skipped} skipped, {time.time() - t0:.1f} s"
    )
    if fails:
        fails.sort(key=lambda x: len(json.dumps(x[1]["case"])))
        s, f = fails[0]
        path = write_replay(pid, f, seed, tier, s)
        print(f"shard {s}: {f['message']}")
        if f.get("note"):
            print(f"note: {f['note']}")
        print(f"minimal case: {json.dumps(f['case'])[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if broken:
        for s, rc, log in broken:
            print(f"shard {s} ended with {rc}:\n{log}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
