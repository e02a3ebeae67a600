"""Runner: `python -m dst.run --property C01 [--tier quick|thorough] | --replay FILE`."""

import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("HVD_REPO", "/repo")
PYTHON = os.environ.get("HVD_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
SHRINK_S = 40.0
UNDECIDED = 1 / 500  # fraction of runs in which the harness may fail before the check as a whole is inconclusive


def child_env(hashseed, scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "PYTHON"))}
    env.update(
        HOME=os.environ.get("HOME", "/root"),
        PYTHONPATH=f"{REPO}:{VERIF}",
        PYTHONPYCACHEPREFIX=str(Path(scratch).parent / "pyc"),
        PYTHONHASHSEED=str(hashseed),
        MPLBACKEND="Agg",
        MPLCONFIGDIR=str(scratch),
        JAX_PLATFORMS="cpu",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
        HVD_REPO=REPO,
        TMPDIR=str(scratch),
    )
    return env


# ------------------------------------------------------------------------------------------------------
# worker
# ------------------------------------------------------------------------------------------------------
def _load(prop):
    module = importlib.import_module(f"dst.props.{prop.lower()}")
    module.setup()
    return module


def guarded(module, seed=0, choices=None):
    """run one simulation -> (sim, violation, skipped, error); what escapes from the code under test is a
    violation, what escapes from the harness is raised"""
    from .core import HangError, Sim, Skip, Violation

    limit = getattr(module, "HANG_S", 60)

    def on_alarm(*_):
        raise HangError()

    sim = Sim(seed, choices)
    violation, skipped, error = None, False, None
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        module.run(sim)
    except Violation as v:
        violation = v
    except Skip:
        skipped = True
    except HangError:
        violation = Violation("hang", f"no result within {limit} s")
    except BaseException as e:  # noqa: BLE001
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if f.filename.startswith(os.path.join(REPO, ""))]
        if not inside or isinstance(e, KeyboardInterrupt) and not hasattr(e, "injected"):
            raise
        violation = Violation(f"unexpected-{type(e).__name__}-in-{inside[-1].name}", str(e)[:300])
        error = traceback.format_exc()
    finally:
        signal.alarm(0)
    if violation is not None:
        sim.log("VIOLATION", violation.kind)
    return sim, violation, skipped, error


def worker(args):
    module = _load(args.property)
    out = dict(
        runs=0, skipped=0, events=0, sim_time=0.0, faults=Counter(), probes=Counter(), keys=[], violations=[],
        nondeterministic=0, rechecked=0, samples=[], harness_error=None, stopped_early=False,
        undecided=[],
    )
    keys = set()
    kinds = set()
    t_end = time.monotonic() + args.deadline
    try:
        for i in range(args.start, args.runs, args.stride):
            if time.monotonic() > t_end:
                out["stopped_early"] = True
                break
            seed = (args.seed * 1_000_003 + i) * 101 + sum(map(ord, args.property))
            try:
                sim, violation, skipped, error = guarded(module, seed)
            except BaseException:  # noqa: BLE001  the harness failed: nothing is decided about this run
                out["undecided"].append(f"seed {seed}\n{traceback.format_exc()}")
                if len(out["undecided"]) > 20:
                    break
                continue
            out["runs"] += 1
            out["skipped"] += skipped
            out["events"] += sim.n_events
            out["sim_time"] += sim.clock
            out["faults"].update(sim.faults)
            out["probes"].update(sim.probes)
            if not skipped:
                keys.add(sim.state_key)
            if len(out["samples"]) < 2 and not skipped and (sim.faults or i // args.stride > 4):
                out["samples"].append(dict(seed=seed, faults=dict(sim.faults), case=sim.sample, trace=sim.events[:12]))
            if violation is None and out["runs"] % 40 == 7:  # determinism self-check
                again, v2, _, _ = guarded(module, seed)
                out["rechecked"] += 1
                if v2 is not None or again.digest != sim.digest:
                    out["nondeterministic"] += 1
            if violation is not None and violation.kind not in kinds:
                kinds.add(violation.kind)
                out["violations"].append(report(module, args, seed, sim, violation, error))
                if len(kinds) >= 3:
                    break
            elif violation is not None:
                out.setdefault("more", 0)
                out["more"] += 1
                if out["more"] > 20:
                    break
    except BaseException:  # noqa: BLE001
        out["harness_error"] = traceback.format_exc()
    out["keys"] = sorted(keys)
    Path(args.out).write_text(json.dumps(out, default=str))


def report(module, args, seed, sim, violation, error):
    from .core import shrink

    choices = list(sim.choices)
    kind = violation.kind
    last = {}

    def execute(c):
        s, v, _, e = guarded(module, seed, c)
        if v is not None and v.kind == kind:
            last.update(sim=s, v=v, e=e)
        return None if v is None else v.kind

    reproduced = kind == "hang" or execute(choices) == kind
    best, tried = choices, 0
    if reproduced and kind != "hang":
        best, tried = shrink(execute, choices, kind, SHRINK_S, time.monotonic)
        execute(best)
    s, v = last.get("sim", sim), last.get("v", violation)
    return dict(
        property=args.property, kind=kind, message=v.message, seed=seed, hashseed=args.hashseed,
        reproduced=reproduced, choices=best, original_choices=len(choices), shrink_runs=tried,
        faults=dict(s.faults), trace=s.events[-120:], error=last.get("e") or error,
        labels=[f"{a}={b}" for a, b in zip(s.labels, s.choices)][:200],
    )


def replay(path):
    data = json.loads(Path(path).read_text())
    with tempfile.TemporaryDirectory(prefix="dst-") as scratch:
        (Path(scratch) / "cwd").mkdir()
        code = (
            "import sys,json;from dst import run;"
            "sys.exit(run.replay_here(json.load(open(sys.argv[1]))))"
        )
        r = subprocess.run(
            [PYTHON, "-c", code, str(Path(path).resolve())],
            env=child_env(data["hashseed"], Path(scratch) / "cwd"), cwd=scratch,
        )
    if r.returncode == 1:
        print(f"VIOLATION property={data['property']} replay={path}")
    return r.returncode


def replay_here(data):
    module = _load(data["property"])
    sim, violation, skipped, error = guarded(module, data["seed"], data["choices"])
    for line in sim.events[-120:]:
        print("   ", line)
    if error:
        print(error)
    if violation is not None and violation.kind == data["kind"]:
        print("reproduced:", violation.kind, "--", violation.message)
        return 1
    print("not reproduced:", None if violation is None else violation.kind)
    return 0


# ------------------------------------------------------------------------------------------------------
# parent
# ------------------------------------------------------------------------------------------------------
def known_findings(prop):
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [f for f in json.loads(path.read_text())["findings"] if f["property"] == prop]


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument("--property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--runs", type=int)
    p.add_argument("--deadline", type=float)
    p.add_argument("--replay")
    p.add_argument("--worker", action="store_true")
    p.add_argument("--start", type=int)
    p.add_argument("--stride", type=int)
    p.add_argument("--hashseed", type=int, default=0)
    p.add_argument("--out")
    p.add_argument("--no-evidence", action="store_true")
    args = p.parse_args(argv)
    if args.replay:
        return replay(args.replay)
    if args.worker:
        worker(args)
        return 0

    t0 = time.monotonic()
    meta = json.loads((VERIF / "dst" / "checks.json").read_text())[args.property]
    runs = args.runs or meta["runs"][args.tier]
    deadline = args.deadline or {"quick": 240.0, "thorough": 780.0}[args.tier]
    results, procs = [], []
    with tempfile.TemporaryDirectory(prefix="dst-") as scratch:
        for w in range(WORKERS):
            out = Path(scratch) / f"out{w}.json"
            cwd = Path(scratch) / f"cwd{w}"
            cwd.mkdir()
            cmd = [
                PYTHON, "-m", "dst.run", "--worker", "--property", args.property, "--seed", str(args.seed),
                "--runs", str(runs), "--start", str(w), "--stride", str(WORKERS), "--out", str(out),
                "--deadline", str(deadline), "--hashseed", str(w), "--tier", args.tier,
            ]
            log = open(Path(scratch) / f"log{w}", "wb")
            procs.append((subprocess.Popen(cmd, env=child_env(w, cwd), cwd=cwd, stdout=log, stderr=log), out, log, w))
        hard = time.monotonic() + deadline + 3 * SHRINK_S + 120
        for proc, out, log, w in procs:
            try:
                proc.wait(timeout=max(1.0, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
            log.close()
            if out.exists():
                results.append(json.loads(out.read_text()))
            else:
                tail = (Path(scratch) / f"log{w}").read_bytes()[-3000:].decode(errors="replace")
                results.append(dict(harness_error=f"worker {w} ended without a result (rc {proc.returncode})\n{tail}"))
    return conclude(args, meta, results, runs, time.monotonic() - t0)


def conclude(args, meta, results, runs, wall):
    prop = args.property
    errors = [r["harness_error"] for r in results if r.get("harness_error")]
    good = [r for r in results if "runs" in r]
    faults, probes, keys = Counter(), Counter(), set()
    for r in good:
        faults.update(r["faults"])
        probes.update(r["probes"])
        keys.update(r["keys"])
    total = sum(r["runs"] for r in good)
    undecided = [u for r in good for u in r["undecided"]]
    skipped = sum(r["skipped"] for r in good)
    violations, kinds = [], set()
    for r in good:
        for v in r["violations"]:
            if v["kind"] not in kinds:
                kinds.add(v["kind"])
                violations.append(v)
    findings = known_findings(prop)
    fresh = []
    for v in violations:
        if not any(v["kind"] == f["kind"] for f in findings):
            fresh.append(v)
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    folder = VERIF / "replays"
    paths = []
    for n, v in enumerate(fresh):
        folder.mkdir(exist_ok=True)
        path = folder / f"{prop}-{args.tier}-{args.seed}-{n}.json"
        path.write_text(json.dumps(v, indent=1))
        paths.append(path)
        print(f"  {v['kind']}: {v['message']}")
        print(f"  seed {v['seed']}, {v['original_choices']} choices minimised to {len(v['choices'])}, faults {v['faults']}")
        for line in v["trace"][-12:]:
            print("   ", line)
        print(f"VIOLATION property={prop} replay={path.relative_to(VERIF)}")
    if not args.no_evidence:
        evidence = dict(
            property=prop, tier=args.tier, seed=args.seed, level="exploration", wall_s=round(wall, 2),
            violations=len(fresh),
            coverage=dict(
                evaluations=total, distinct_nontrivial=len(keys),
                rule=meta["rule"],
                samples=[s for r in good for s in r["samples"]][:4],
                skipped=skipped, undecided=len(undecided),
                runs_per_hour=int(3600 * total / max(wall, 1e-9)),
                seeds_per_hour=int(3600 * total / max(wall, 1e-9)),
                simulated_seconds=round(sum(r["sim_time"] for r in good), 3),
                simulated_events=sum(r["events"] for r in good),
                faults_injected=dict(sorted(faults.items())),
                probes=dict(sorted(probes.items())),
                determinism_rechecked=sum(r["rechecked"] for r in good),
                determinism_mismatches=sum(r["nondeterministic"] for r in good),
                real_components=meta["real"], stubbed_components=meta["stub"],
                requested_runs=runs, stopped_early=any(r["stopped_early"] for r in good),
            ),
            assumptions=meta.get("assumptions", []),
        )
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    if fresh:
        return 1
    if errors or len(undecided) > UNDECIDED * total:
        print("\n".join(errors + undecided[:5]), file=sys.stderr)
        return 2
    if undecided:
        print(f"warning: the harness failed in {len(undecided)} runs\n{undecided[0]}", file=sys.stderr)
    nondet = sum(r["nondeterministic"] for r in good)
    if nondet:
        print(f"warning: {nondet} re-executed runs were not repeatable", file=sys.stderr)
    if total - skipped < 0.2 * runs:
        print(f"only {total - skipped} of {runs} runs completed", file=sys.stderr)
        return 2
    print(f"{prop}: held on {total - skipped} runs ({len(keys)} distinct), faults {dict(faults)}, {wall:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
