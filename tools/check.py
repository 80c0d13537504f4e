#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the property's harness from /repo's current source, lets the symbolic
executor explore every path of each stage, replays what it finds natively and
writes the evidence file.

Exit 0: held within the bounds. Exit 1: a VIOLATION line was printed. Exit 2:
the check could not give an answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

V = "/verif"
BUILD = V + "/build"
TARGET = BUILD + "/target/x86_64-unknown-linux-gnu/release"
sys.path.insert(0, V + "/tools")
from props import PROPS

T0 = time.time()
# a check must answer within 900 s; stages that are not required stop earlier
HARD = {"quick": 820, "thorough": 10 ** 6}


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Trouble(Exception):
    pass


def sh(cmd, limit, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, **kw)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors="replace")[-6000:])
        raise Trouble("failed: " + " ".join(cmd))
    return p.stdout.decode(errors="replace")


def build(prop):
    b = PROPS[prop]["bin"]
    sh(["cargo", "build", "--release", "--offline", "-q"], 600, cwd=V + "/engine",
       env=dict(os.environ, CARGO_TARGET_DIR=BUILD + "/engine"))
    log("engine built")
    sh([V + "/tools/build.sh", b], 800)
    log("harness built from /repo")
    os.makedirs(BUILD + "/ir", exist_ok=True)
    ll = "%s/ir/%s.ll" % (BUILD, b)
    sh([V + "/tools/ir.sh", b, ll] + sorted(set(s["entry"] for s in PROPS[prop]["stages"])), 600)
    log("IR ready (%d MB)" % (os.path.getsize(ll) >> 20))
    return ll


def run_stage(ll, entry, limit, max_steps, keep=False):
    out = tempfile.mktemp(prefix="vexec-", dir=BUILD)
    cmd = [BUILD + "/engine/release/vexec", ll, "--entry", entry, "--out", out,
           "--jobs", str(os.cpu_count() or 8), "--timeout", str(limit)]
    if max_steps:
        cmd += ["--max-steps", str(max_steps)]
    if keep:
        cmd += ["--keep-going"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        raise Trouble("engine did not stop: " + o.decode(errors="replace")[-500:])
    try:
        lines = open(out).read().splitlines()
        os.unlink(out)
    except OSError:
        raise Trouble("engine died: " + o.decode(errors="replace")[-2000:])
    tot, covers, notes, found, funcs, samples, root = {}, {}, {}, {}, set(), [], False
    for l in lines:
        d = json.loads(l)
        root = root or d.pop("root")
        for k, v in d.items():
            if isinstance(v, int):
                tot[k] = tot.get(k, 0) + v
        for k, v in d["covers"].items():
            covers[k] = covers.get(k, 0) + v
        for k, v in d["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for f in d["found"]:
            key = f["kind"] + f["what"]
            if key in found:
                found[key]["count"] += f["count"]
            else:
                found[key] = f
        funcs.update(d["functions"])
        samples += d["samples"]
    tot.pop("wall_ms", None)
    if not root:
        raise Trouble("engine died: " + o.decode(errors="replace")[-2000:])
    tot["complete"] = tot["dropped"] == 0 and tot["crashed_workers"] == 0
    return tot, covers, notes, list(found.values()), funcs, samples


def native(prop, entry, model, limit):
    """Run the harness on one concrete input as an unprivileged user.
    Returns (outcome, output); outcome: ok, assert, panic, hang, unmet, other."""
    d = tempfile.mkdtemp(prefix="vp-", dir="/tmp")
    try:
        exe = d + "/harness"
        shutil.copy(TARGET + "/" + PROPS[prop]["bin"], exe)
        os.chmod(exe, 0o755)
        os.chmod(d, 0o755)
        sd = d + "/s"
        os.mkdir(sd)
        os.chown(sd, 65534, 65534)
        with open(d + "/input", "w") as f:
            f.write(model)
        env = {"VP_SCRATCH": sd, "HOME": sd, "USER": "u", "PATH": "/usr/bin:/bin", "TMPDIR": sd}

        def drop():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            os.umask(0o022)

        p = subprocess.Popen([exe, entry, d + "/input"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, env=env, cwd=sd, preexec_fn=drop, start_new_session=True)
        hang = False
        try:
            o, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            hang = True
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
        o = o.decode(errors="replace")
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if hang:
            return "hang", o
        if "VP-FAILED" in o:
            return "assert", o
        if p.returncode == 77:
            return "unmet", o
        if p.returncode < 0 or (p.returncode != 0 and "panicked at" in o):
            return "panic", o
        if p.returncode == 0:
            return "ok", o
        return "other:%d" % p.returncode, o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduces(kind, outcome):
    if kind == "hang":
        return outcome in ("hang", "assert", "panic")
    return outcome in ("assert", "panic")


def demangle(names):
    names = sorted(names)
    try:
        o = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()
    except Exception:
        o = names
    return o


def known_findings(prop):
    out = []
    try:
        for l in open(V + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = PROPS[prop]
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rows, violations, trouble = [], [], []
    allfuncs, all_samples, known_seen = set(), [], {}
    known = dict(known_findings(prop))
    validated = 0
    try:
        ll = build(prop)
        budget = cfg.get("budget", {}).get(tier, {"quick": 40, "thorough": 1500}[tier])
        started = time.time()
        for st in cfg["stages"]:
            tiers = st.get("tiers", ["quick", "thorough"])
            required = st.get("required", True) and tier in tiers
            if tier not in tiers:
                continue
            spent = time.time() - started
            if required:
                limit = min(st.get("cap", 400), HARD[tier] - (time.time() - T0)) if tier == "quick" else st.get("cap", 3600) * 10
            else:
                limit = min(budget - spent, st.get("cap", 10 ** 6), HARD[tier] - (time.time() - T0))
            if limit < 5:
                rows.append({"stage": st["entry"], "bounds": st["bounds"], "complete": False, "ran": False})
                if required:
                    raise Trouble("no time left for " + st["entry"])
                continue
            t = time.time()
            tot, covers, notes, found, funcs, samples = run_stage(ll, st["entry"], limit, st.get("max_steps"))
            wall = time.time() - t
            allfuncs |= funcs
            log("%s: %d paths, %d steps, %d solver queries (%.1f s), complete=%s, found=%d, %.1f s" % (
                st["entry"], tot["paths"], tot["steps"], tot["queries"], tot["solver_ms"] / 1000, tot["complete"], len(found), wall))
            row = {"stage": st["entry"], "bounds": st["bounds"], "ran": True, "required": required, "wall_s": round(wall, 1),
                   "complete": tot["complete"] and not found}
            for k in ("paths", "steps", "forks", "pruned", "confirmed", "asserts", "assert_queries", "queries", "cache_hits", "domain_decisions"):
                row[k] = tot[k]
            row["solver_s"] = round(tot["solver_ms"] / 1000, 2)
            rows.append(row)
            for n, c in notes.items():
                if n.startswith("KNOWN "):
                    known_seen[n[6:]] = known_seen.get(n[6:], 0) + c
            if found:
                done = False
                for attempt in (0, 1):
                    if attempt == 1:
                        # look for further, reproducible counterexamples
                        _, _, _, found, _, _ = run_stage(ll, st["entry"], min(120, max(10, HARD[tier] - (time.time() - T0))), st.get("max_steps"), True)
                    for f in found:
                        log("counterexample:", f["kind"], f["what"], "input", f["model"], "notes", f["notes"])
                        outs = []
                        for _ in range(4):
                            r, o = native(prop, st["entry"], f["model"], st.get("native_limit", 30))
                            outs.append(r)
                            if reproduces(f["kind"], r):
                                break
                        log("native replay:", outs)
                        if reproduces(f["kind"], outs[-1]):
                            path = "%s/evidence/replay/%s.json" % (V, prop)
                            json.dump({"property": prop, "entry": st["entry"], "kind": f["kind"], "what": f["what"], "input": f["model"],
                                       "history": f["notes"], "trace": f["trace"], "native_outcome": outs[-1], "native_output": o[-4000:],
                                       "replay_cmd": "python3 /verif/tools/replay.py %s" % path}, open(path, "w"), indent=1)
                            violations.append((path, f))
                            done = True
                            break
                    if done:
                        break
                if not done:
                    for f in found[:3]:
                        print(f["kind"], f["what"], f["trace"][:1500])
                    raise Trouble("a counterexample of %s did not reproduce natively" % st["entry"])
                break
            if required and not tot["complete"]:
                raise Trouble("stage %s did not finish in %d s" % (st["entry"], limit))
            if tot["complete"]:
                for c in st.get("covers", [1]):
                    if not covers.get(str(c)):
                        raise Trouble("stage %s never reached point %s: vacuous" % (st["entry"], c))
                # native runs of some of the explored paths must agree
                k = st.get("validate", 8)
                step = max(1, len(samples) // k) if k else 1
                for s in samples[::step][:k]:
                    for attempt in range(3):
                        r, o = native(prop, st["entry"], s["model"], st.get("native_limit", 30))
                        if r == "ok":
                            break
                    if r != "ok":
                        print(o[-3000:])
                        raise Trouble("a native run disagrees with the explored path (%s): %s" % (r, s["model"]))
                    validated += 1
                all_samples += [dict(entry=st["entry"], **s) for s in samples[:2]]
            for k in known_seen:
                if k not in known:
                    raise Trouble("harness reports a known finding that is not listed: " + k)
    except Trouble as e:
        trouble.append(str(e))
    except subprocess.TimeoutExpired as e:
        trouble.append("timed out: %s" % e)
    names = demangle(allfuncs)
    own = [n for n in names if n.startswith("ethersync::") or n.startswith("<ethersync::")]
    ran = [r for r in rows if r.get("ran")]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in ran), "transitions": sum(r["steps"] for r in ran),
            "traces_validated_against_impl": validated,
            "samples": all_samples[:6],
            "exhaustive": bool(ran) and all(r["complete"] for r in ran) and not trouble,
            "stages": rows,
            "queries_discharged": sum(r["queries"] for r in ran), "solver_s": round(sum(r["solver_s"] for r in ran), 2),
            "assertions_checked": sum(r["asserts"] for r in ran),
            "path_conditions_confirmed_by_solver": sum(r["confirmed"] for r in ran),
            "functions_encoded": len(names), "repository_functions_encoded": [n[:140] for n in own[:160]],
            "rule": "states are completed symbolic paths, transitions are executed IR instructions",
            "known_findings_met": known_seen,
        },
        "assumptions": cfg.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    if trouble:
        ev["coverage"]["error"] = trouble
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    if violations:
        p, f = violations[0]
        print("violated: %s %s" % (f["kind"], f["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for k, text in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if trouble:
        print("ERROR:", "; ".join(trouble))
        return 2
    print("held: %s within the stated bounds" % prop)
    return 0


COMMON = [
    "operating system calls are answered by the engine's kernel model (files, directories, links, modes, sockets, epoll, inotify, clock)",
    "the program is single-process; threads switch only at blocking calls; memory allocation never fails",
    "LLVM IR produced by rustc (opt-level 1, overflow checks on, panic=abort) has the meaning of the source",
    "z3's answers are right",
]

if __name__ == "__main__":
    sys.exit(main())
