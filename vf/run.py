"""python3-vt -m vf.run <property> [--tier quick|thorough] [--replay FILE] [--only SUBCHECK] [--examples N]

Exit 0: the property held on everything explored. Exit 1 (and a VIOLATION line): it is broken. Exit 2: the
check itself could not run.
"""
import argparse
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True

from . import core  # noqa: E402

CAPS = {"quick": 150.0, "thorough": 1500.0}  # wall seconds per task, far above the normal cost
ROUNDS = 2  # every quick run is made with that many seeds, derived from the one given
KNOWN_FILE = os.path.join(core.VERIF, "known_findings.json")


def load_module(prop):
    matches = glob.glob(os.path.join(core.VERIF, "vf", "checks", prop.lower() + "_*.py"))
    if len(matches) != 1:
        raise SystemExit("no single check module for %s" % prop)
    name = os.path.splitext(os.path.basename(matches[0]))[0]
    return importlib.import_module("vf.checks." + name)


def known_findings(prop):
    try:
        with open(KNOWN_FILE) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def make_is_known(prop):
    """A failure is known only if it is the listed input of the listed sub-check."""
    table = {}
    for k in known_findings(prop):
        for case in k["cases"]:
            table[(k["sub_check"], core.canonical(case))] = k["what"]

    def is_known(s, case, message):
        return table.get((s.name, core.canonical(case)))

    return is_known


def write_replay(prop, name, case, message, before=()):
    d = os.path.join(core.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(core.canonical([name, case]).encode("utf-8", "surrogatepass"), digest_size=6).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", name), h))

    def write(earlier):
        data = {"property": prop, "sub_check": name, "case": case, "message": message}
        if earlier:
            data["before"] = earlier
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
            f.write("\n")

    write([])
    if before and not reproduces(prop, path):
        shrink_history(before, lambda earlier: write(earlier) or reproduces(prop, path))
    return os.path.relpath(path, core.VERIF)


def reproduces(prop, path):
    """Does replaying it in a process of its own fail again?"""
    try:
        r = subprocess.run([sys.executable, "-m", "vf.run", prop, "--replay", path], cwd=core.VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def shrink_history(before, fails, runs=40, seconds=60):
    """The fewest cases found which have to be decided first for the failure to show."""
    start = time.monotonic()
    earlier = [json.loads(t) for t in before]
    if not fails(earlier):
        fails([])  # not to be reproduced: the case alone is what is left
        return
    n = 2
    while earlier and runs and time.monotonic() - start < seconds:
        size = max(1, len(earlier) // n)
        for i in range(0, len(earlier), size):
            runs -= 1
            fewer = earlier[:i] + earlier[i + size:]
            if fails(fewer):
                earlier = fewer
                n = max(2, n - 1)
                break
            if not runs or time.monotonic() - start > seconds:
                break
        else:
            if size == 1:
                break
            n = min(len(earlier), n * 2)
    fails(earlier)


def task_main(prop, s, examples, seed, cap, out):
    code = 0
    try:
        core.limit_resources()
        scratch = os.path.join(os.path.dirname(out), "cwd-" + os.path.basename(out))
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        r = core.run_sub(s, examples, seed, cap, is_known=make_is_known(prop))
        data = r.as_json()
    except BaseException as e:  # noqa
        data = core.Result().as_json()
        data["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    with open(out, "w") as f:
        json.dump(data, f)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def run_tasks(prop, tasks, tier, verbose):
    """Each task in a process of its own, at most as many at once as there are cores."""
    cap = CAPS[tier]
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    results = []
    running = {}
    queue = list(enumerate(tasks))
    workers = max(1, min(8, os.cpu_count() or 1))
    stop = False
    try:
        while queue or running:
            while queue and len(running) < workers and not stop:
                i, (s, examples, seed) = queue.pop(0)
                out = os.path.join(tmp, "%d.json" % i)
                pid = os.fork()
                if pid == 0:
                    task_main(prop, s, examples, seed, cap, out)
                running[pid] = (s, out, time.monotonic(), seed)
            if stop:
                queue = []
            time.sleep(0.02)
            for pid in list(running):
                s, out, t0, seed = running[pid]
                done, status = os.waitpid(pid, os.WNOHANG)
                if not done and time.monotonic() - t0 > cap + 240:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    done, status = pid, 9
                if not done:
                    continue
                del running[pid]
                try:
                    with open(out) as f:
                        data = json.load(f)
                except (OSError, ValueError):
                    data = core.Result().as_json()
                    data["error"] = "the worker process ended with status %r" % status
                data["name"] = s.name
                data["wall"] = time.monotonic() - t0
                if verbose:
                    print("  %-28s seed %-6d %6d cases %6d distinct non-trivial %6.1f s%s" % (
                        s.name, seed, data["evaluations"], len(data["distinct"]), data["wall"],
                        " (capped)" if data["capped"] else ""))
                results.append(data)
                if data["failure"]:
                    stop = True  # report this one; let the running ones finish
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    s = [x for x in core.SUBS[prop] if x.name == data["sub_check"]]
    if not s:
        print("no sub-check %r" % data["sub_check"])
        return 2
    for earlier in data.get("before", ()):
        core.run_case(s[0].fn, core.canonical(earlier), core.repeated(core.canonical(earlier)))
    nontrivial, exc = core.run_case(s[0].fn, core.canonical(data["case"]))
    if exc is not None:
        print("case: %s" % core.canonical(data["case"])[:2000])
        print("fails: %s" % core.describe(exc))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("property=%s: the case of %s passes" % (prop, path))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    try:
        core.no_bytecode_import()
        load_module(prop)
    except Exception:
        traceback.print_exc()
        return 2
    if a.replay:
        return replay(prop, a.replay)
    subs = [s for s in core.SUBS[prop] if not a.only or s.name == a.only]

    # 1. known findings: shown while they still fail, silent once they do not
    known_lines = []
    for k in known_findings(prop):
        for s in core.SUBS[prop]:
            if s.name == k["sub_check"]:
                if any(core.run_case(s.fn, core.canonical(case))[1] is not None for case in k["cases"]):
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # 2. committed regression cases, replayed before generating
    failures = []
    regress = 0
    is_known = make_is_known(prop)
    if not a.only:
        for path in sorted(glob.glob(os.path.join(core.VERIF, "regress", prop + "*.json"))):
            with open(path) as f:
                cases = json.load(f)
            for c in cases:
                for s in core.SUBS[prop]:
                    if s.name == c["sub_check"]:
                        regress += 1
                        _, exc = core.run_case(s.fn, core.canonical(c["case"]))
                        if exc is not None and not is_known(s, c["case"], ""):
                            failures.append([s.name, c["case"], core.describe(exc), []])
    # 3. generated cases
    errors = []
    results = []
    if not failures:
        tasks = []
        for s in subs:
            total = a.examples or (ROUNDS * s.quick if a.tier == "quick" else s.thorough)
            shards = ROUNDS * s.weight if a.tier == "quick" else 4
            for k in range(shards):
                tasks.append((s, max(1, total // shards), (seed * 1000003 + k * 7919 + hash_name(s.name)) % (1 << 31)))
        results = run_tasks(prop, tasks, a.tier, a.v)
    for r in results:
        if r["failure"]:
            failures.append(r["failure"] + [r.get("before", [])])
        elif r["error"]:
            errors.append((r["name"], r["error"]))
    evaluations = regress + sum(r["evaluations"] for r in results)
    distinct = set()
    per = {}
    for r in results:
        distinct |= {r["name"] + h for h in r["distinct"]}
        p = per.setdefault(r["name"], {"evaluations": 0, "distinct_nontrivial": set()})
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] |= set(r["distinct"])
    samples = []
    for r in results:
        samples += r["samples"][:2 if len(results) > 6 else 3]
    seen_known = set(known_lines)
    for r in results:
        for w in r["known"]:
            seen_known.add("KNOWN-FINDING: property=%s %s" % (prop, w))
    violations = []
    for i, (name, case, message, before) in enumerate(failures):
        violations.append({"sub_check": name, "message": message, "replay": write_replay(prop, name, case, message, before if i < 2 else ())})
    evidence = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": core.RULES.get(prop, ""),
            "samples": samples[:24],
            "regression_cases": regress,
            "per_sub_check": {
                n: {"evaluations": p["evaluations"], "distinct_nontrivial": len(p["distinct_nontrivial"])}
                for n, p in per.items()
            },
            "stopped_at_time_cap": sorted({r["name"] for r in results if r["capped"]}),
        },
        "assumptions": [
            "the oracle in vf/oracle and the check modules; floating point tolerances stated there",
            "Python %s, numpy and scipy of the python3-vt environment" % sys.version.split()[0],
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
        "known_findings": sorted(seen_known),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for line in sorted(seen_known):
        print(line)
    for name, text in errors:
        print("ERROR in sub-check %s:\n%s" % (name, text))
    for v in violations:
        print("%s: %s" % (v["sub_check"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s" % (
        prop, a.tier, seed, evaluations, len(distinct), time.monotonic() - t0,
        "violated" if violations else "error" if errors else "held"))
    if violations:
        return 1
    return 2 if errors else 0


def hash_name(s):
    return int(hashlib.blake2b(s.encode(), digest_size=4).hexdigest(), 16)


if __name__ == "__main__":
    sys.exit(main())
