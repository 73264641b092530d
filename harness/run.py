#!/usr/bin/env python3
"""Decide one property: check the TLA+ models, drive the real code, check its
recorded behaviour against the specification with TLC.

usage: run.py PROPERTY [quick|thorough]

Outcomes: exit 0, or exit 1 with a VIOLATION line.  Known findings (listed in
/verif/known_findings.json) are printed as KNOWN-FINDING lines and do not fail.
"""
from __future__ import annotations

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(HERE, "drivers")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

DRIVER_TIMEOUT = {"quick": 600, "thorough": 5400}


def env(extra=None):
    e = dict(os.environ)
    e.update(LANG="C.UTF-8", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=e.get("HOME", "/root"))
    e.update(extra or {})
    return e


def tlc(module, cfg, work, extra_env=None, workers=4, options=(), heap="3g", timeout=800):
    """Run TLC on a module of /verif/spec; returns (ok, output, states, transitions)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *options, module]
    p = subprocess.run(cmd, cwd=SPEC, env=env(extra_env), capture_output=True, text=True, timeout=timeout)
    out = p.stdout + p.stderr
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = p.returncode == 0 and "No error has been found" in out
    return ok, out, dist, gen


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.t0 = time.time()
        self.hung = False
        for old in ("replay-%s.json" % prop, prop + ".json"):
            if os.path.exists(os.path.join(VERIF, "evidence", old)):
                os.unlink(os.path.join(VERIF, "evidence", old))
        self.states = self.transitions = self.traces = self.steps = 0
        self.models, self.samples, self.failures, self.counts = [], [], [], {}

    # -- stages --------------------------------------------------------------
    def model(self, st):
        cfg = st.get("cfg_" + self.tier, st["cfg"])
        ok, out, dist, gen = tlc(st["module"], cfg, self.work, workers=st.get("workers", 4),
                                 timeout=3600 if self.tier == "thorough" else 600)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": st["module"], "cfg": cfg, "distinct": dist, "generated": gen})
        if not ok:
            self.fail("model:" + st["module"], 0, ["%s.model" % self.prop], {"tlc": out[-3000:]})

    def negative(self, st):
        """A deliberately wrong variant of a model: TLC has to reject it (vacuity check)."""
        ok, out, dist, gen = tlc(st["module"], st["cfg"], self.work)
        self.models.append({"module": st["module"], "cfg": st["cfg"], "expected": "violated",
                            "violated": not ok and "is violated" in out})
        if ok or "is violated" not in out:
            self.fail("negative:" + st["module"], 0, ["%s.vacuous_model" % self.prop], {"tlc": out[-3000:]})

    def generate(self, st):
        """TLC as a generator: every printed GEN|json line becomes one case for the driver."""
        cfg = st.get("gen_cfg_" + self.tier, st["gen_cfg"])
        ok, out, dist, gen = tlc(st["gen"], cfg, self.work, workers=1,
                                 timeout=3600 if self.tier == "thorough" else 600)
        self.states += dist
        self.transitions += gen
        cases = []
        for line in out.splitlines():
            if line.startswith('"GEN|'):
                cases.append(json.loads(json.loads(line)[4:]))
        self.models.append({"module": st["gen"], "cfg": cfg, "distinct": dist, "generated": gen, "cases": len(cases)})
        if not ok or not cases:
            self.fail("gen:" + st["gen"], 0, ["%s.model" % self.prop], {"tlc": out[-3000:]})
            return None
        cap = st.get("cap_" + self.tier, st.get("cap"))
        if cap and len(cases) > cap:
            import random

            random.Random(self.seed).shuffle(cases)
            cases = cases[:cap]
        path = os.path.join(self.work, "gen-%s-%s.json" % (st["gen"], cfg))
        with open(path, "w") as fh:
            json.dump(cases, fh)
        return path

    def trace(self, st):
        n = st["n"] if self.tier == "quick" else st.get("n_thorough", st["n"] * 10)
        shards = st.get("shards", 1) if self.tier == "quick" else st.get("shards_thorough", 6)
        inp = None
        if "gen" in st:
            inp = self.generate(st)
            if inp is None:
                return
            shards = 1
        jobs = []
        per = max(1, n // shards)
        for k in range(shards):
            jobs.append((k, per, self.seed + 1000 * k))
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            list(ex.map(lambda j: self.shard(st, *j, inp), jobs))

    def shard(self, st, k, n, seed, inp):
        tag = "%s-%s-%d" % (st["driver"], st.get("mode", ""), k)
        cwd = os.path.join(self.work, "cwd-" + tag)
        os.makedirs(cwd, exist_ok=True)
        out = os.path.join(self.work, tag + ".json")
        cmd = [PY, os.path.join(DRIVERS, st["driver"] + ".py"), "--out", out, "--seed", str(seed),
               "--n", str(n), "--mode", st.get("mode", ""), "--tier", self.tier]
        if inp:
            cmd += ["--inp", inp]
        # a driver that hangs is an answer as well, and has to come within the time a check is given
        left = DRIVER_TIMEOUT[self.tier] if self.tier == "thorough" else min(DRIVER_TIMEOUT["quick"], self.t0 + 780 - time.time())
        if self.hung:
            return
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env({"PYTHONPATH": "/repo"}), capture_output=True, text=True,
                               timeout=max(5, left))
        except subprocess.TimeoutExpired:
            self.hung = True
            self.fail(tag, 0, ["*.driver_timeout"], {})
            return
        if p.returncode != 0 or not os.path.exists(out):
            self.fail(tag, 0, ["*.driver_failed"], {"stderr": p.stderr[-4000:], "stdout": p.stdout[-1000:]})
            return
        traces = json.load(open(out))
        if not traces:
            self.fail(tag, 0, ["*.no_traces"], {})
            return
        size = st.get("chunk", 400)
        for lo in range(0, len(traces), size):
            self.validate(st, tag, traces[lo:lo + size], lo)

    def validate(self, st, tag, traces, lo):
        path = os.path.join(self.work, "%s-%d.trace.json" % (tag, lo))
        with open(path, "w") as fh:
            json.dump(traces, fh)
        module = st["trace"]
        ok, out, dist, gen = tlc(module, module + ".cfg", self.work, {"TRACE": path}, workers=st.get("workers", 4),
                                 timeout=3600 if self.tier == "thorough" else 700)
        self.states += dist
        self.transitions += gen
        done = set()
        for line in out.splitlines():
            if line.startswith('"DONE|'):
                done.add(int(line.split("|")[1]))
                self.steps += int(line.split("|")[2].rstrip('"'))
            elif line.startswith('"FAIL|'):
                _, k, j, bad = json.loads(line).split("|", 3)
                clauses = re.findall(r'"((?:[^"\\]|\\.)*)"', bad)
                self.fail(traces[int(k) - 1].get("id", k), int(j), clauses, traces[int(k) - 1])
        missing = [k for k in range(1, len(traces) + 1) if k not in done]
        if missing or not ok:
            bad = traces[missing[0] - 1] if missing else {}
            self.fail(bad.get("id", tag), 0, ["*.undecidable_observation"], {"tlc": out[-3000:], "trace": bad})
        self.traces += len(done)
        self.counts[tag.rsplit("-", 1)[0]] = self.counts.get(tag.rsplit("-", 1)[0], 0) + len(done)
        if traces and len(self.samples) < 4:
            t = traces[0]
            self.samples.append({"id": t.get("id"), "excerpt": json.dumps(t)[:600]})
        os.unlink(path)

    def fail(self, where, step, clauses, data):
        mine = [c for c in clauses if c.startswith(self.prop + ".") or c.startswith("*.")]
        if mine:
            self.failures.append({"where": str(where), "step": step, "clauses": sorted(mine), "data": data})

    # -- verdict -------------------------------------------------------------
    def finish(self):
        known = []
        path = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(path):
            known = [k for k in json.load(open(path)) if k.get("status") == "known" and k["property"] == self.prop]
        fresh, seen = [], {}
        for f in self.failures:
            rest = []
            for c in f["clauses"]:
                hit = next((k for k in known if re.fullmatch(k["clause"], c) and re.fullmatch(k["where"], f["where"])), None)
                if hit is None:
                    rest.append(c)
                else:
                    seen[hit["id"]] = hit
            if rest:
                fresh.append(dict(f, clauses=rest))
        for hit in known:
            # a listed finding is announced on every run, whether or not this
            # run's sample happened to reproduce it
            print("KNOWN-FINDING: property=%s %s" % (self.prop, hit["what"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "steps_validated": self.steps,
                "models": self.models, "traces_by_driver": self.counts, "samples": self.samples,
            },
            "assumptions": CHECKS[self.prop].get("assumptions", []),
            "violations": len(fresh), "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        rc = 0
        if fresh:
            rep = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(rep, "w") as fh:
                json.dump(fresh[:20], fh, indent=1, default=str)
            for f in fresh[:5]:
                print("  %s step %s: %s" % (f["where"], f["step"], ", ".join(f["clauses"])))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            rc = 1
        else:
            print("OK property=%s traces=%d steps=%d states=%d wall=%.1fs" % (
                self.prop, self.traces, self.steps, self.states, time.time() - self.t0))
        return rc


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = Run(prop, tier)
    try:
        stages = [s for s in CHECKS[prop]["stages"] if tier == "thorough" or not s.get("thorough_only")]
        fn = {"model": run.model, "negative": run.negative, "trace": run.trace}

        def go(stage):
            try:
                fn[stage["kind"]](stage)
            except Exception:
                run.fail("harness:" + str(stage.get("driver") or stage.get("module")), 0, ["*.check_error"],
                         {"traceback": traceback.format_exc()})

        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            list(ex.map(go, stages))
        rc = run.finish()
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
