"""Drives property sampling on real trackers and KMC objects.

modes: tracker - random command/sampling histories on one Tracker
       gen     - histories enumerated by TLC, replayed on one Tracker
       kmc     - plans, callbacks that reconfigure sampling, repeated KMC.run
"""
from __future__ import annotations

import types

from kmc_engine import *  # noqa: F401,F403

from kmcpy.simulator.tracker import CallbackExecutionError  # noqa: E402

TICK = 64.0
NAMES = ["a", "b", "c", "d"]
NOACT = {"k": "none", "name": "", "iv": 0, "tv": 0}
FIELDS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"]
BAD = ["interval0", "intervalneg", "intervalfloat", "time0", "timeneg", "max0", "maxfloat", "notcallable", ""]


def ticks(t):
    return as_int(t, TICK, tol=1e-6)


class Rig:
    """Applies commands to the object under test and observes it."""

    def __init__(self, target, tracker_of, state):
        self.target, self.tracker_of, self.state = target, tracker_of, state
        self.log, self.argsok, self.counts = [], True, {}
        self.callbacks = []

    def callback(self, c):
        rig, me = self, {"n": 0}
        self.callbacks.append(me)

        def fn(st, step, t):
            me["n"] += 1
            n = me["n"]
            rig.log.append({"name": c["name"], "step": int(step), "time": ticks(t)})
            if st is not rig.state or float(t) != float(st.time):
                rig.argsok = False
            if c["actat"] == n and c["act"]["k"] != "none":
                a = c["act"]
                try:
                    rig.command({"k": a["k"], "name": a["name"], "iv": a["iv"], "tv": a["tv"], "store": True, "max": 0,
                                 "en": True, "fail": [], "handler": "none", "actat": 0, "act": NOACT, "bad": ""})
                except (ValueError, TypeError):
                    pass
            if n in c["fail"]:
                raise RuntimeError("callback failure")
            return n

        fn.__name__ = c["name"]
        handlers = {"none": None, "continue": lambda e, s, k, t: True, "stop": lambda e, s, k, t: False,
                    "boom": self._boom}
        return fn, handlers[c["handler"]]

    @staticmethod
    def _boom(e, s, k, t):
        raise KeyError("handler failure")

    def command(self, c):
        t = self.target
        k = c["k"]
        if k == "attach":
            fn, handler = self.callback(c)
            kw = dict(interval=c["iv"] or None, time_interval=(c["tv"] / TICK) or None, store=c["store"],
                      max_records=c["max"] or None, on_error=handler, enabled=c["en"])
            if not c.get("autoname"):
                kw["name"] = c["name"]
            bad = c["bad"]
            kw.update({"interval0": {"interval": 0}, "intervalneg": {"interval": -3},
                       "intervalfloat": {"interval": 2.0}, "time0": {"time_interval": 0.0},
                       "timeneg": {"time_interval": -1.0}, "max0": {"max_records": 0},
                       "maxfloat": {"max_records": 2.5}}.get(bad, {}))
            name = t.attach("nope" if bad == "notcallable" else fn, **kw)
            if name != c["name"]:
                raise RuntimeError("attach returned another name")
        elif k == "detach":
            t.detach(c["name"])
        elif k == "clear":
            t.clear_attachments()
        elif k in ("enable", "disable"):
            t.set_property_enabled(c["name"], k == "enable")
        elif k == "freq":
            kw = dict(interval=c["iv"] or None, time_interval=(c["tv"] / TICK) or None)
            kw.update({"interval0": {"interval": 0}, "time0": {"time_interval": 0.0}}.get(c["bad"], {}))
            (t.set_property_frequency if hasattr(t, "set_property_frequency") else t.set_global_property_frequency)(**kw)

    def apply(self, o):
        refused, err = False, ""
        self.log, self.argsok = [], True
        try:
            if o["k"] == "sample":
                self.state.step, self.state.time = o["step"], o["time"] / TICK
                self.target.sample_properties(step=o["step"], sim_time=o["time"] / TICK)
            elif o["k"] == "run":
                o["run"]()
            else:
                self.command(o)
        except CallbackExecutionError:
            err = "stopped"
        except (ValueError, TypeError):
            if o["k"] in ("sample", "run"):
                raise
            refused = True
        tr = self.tracker_of()
        calc = self.target.list_property_calculations()
        obs = {"refused": refused, "err": err, "log": self.log, "argsok": self.argsok,
               "names": list(self.target.list_attachments()), "on": calc["attached_enabled"],
               "off": calc["attached_disabled"], "boff": calc["built_in_disabled"], "trk": tr is not None,
               "rows": [], "nans": [], "recs": []}
        if tr is not None:
            obs["rows"] = [ticks(t) for t in tr.results["time"]]
            if any(len(tr.results[f]) != len(obs["rows"]) for f in FIELDS):
                obs["rows"].append(-1)
            obs["nans"] = [[f for f in FIELDS if k < len(tr.results[f]) and math.isnan(tr.results[f][k])]
                           for k in range(len(tr.results["time"]))]
            recs = tr.get_property_records()
            obs["recs"] = [{"name": n, "recs": [{"name": x["name"], "step": x["step"], "time": ticks(x["time"]),
                                                 "value": x["value"]} for x in rs]} for n, rs in recs.items()]
            for n in recs:
                if tr.get_property_records(n) != recs[n]:
                    obs["recs"].append({"name": n, "recs": []})
            # what was handed out belongs to the caller
            for rs in list(recs.values()) + [tr.get_property_records(n) for n in recs]:
                for x in rs:
                    x.update(name="caller", step=-7, time=-1.0, value="caller")
                rs.clear()
        return obs


def rand_attach(r, name=None, acts=True):
    act = dict(NOACT)
    actat = 0
    if acts and r.random() < 0.35:
        k = r.choice(["detach", "detach", "disable", "enable", "attach", "freq", "clear"])
        act = {"k": k, "name": r.choice(NAMES) if k != "freq" else "", "iv": 0, "tv": 0}
        if k == "freq":
            act["iv"], act["tv"] = r.choice([(1, 0), (2, 0), (3, 0), (0, 45), (0, 110), (2, 70), (0, 0)])
        elif k == "attach":
            act["iv"], act["tv"] = r.choice([0, 1, 2]), r.choice([0, 0, 45])
        elif k in ("enable", "disable") and r.random() < 0.4:
            act["name"] = r.choice(FIELDS)
        actat = r.randint(1, 3)
    fail = sorted(r.sample(range(1, 6), r.choice([0, 0, 0, 1, 2])))
    c = {"k": "attach", "name": name or r.choice(NAMES + (["msd"] if r.random() < 0.1 else [])),
         "iv": r.choice([0, 0, 1, 2, 3, 5]), "tv": r.choice([0, 0, 0, 40, 64, 130]), "store": r.random() < 0.8,
         "max": r.choice([0, 0, 0, 1, 2, 3]), "en": r.random() < 0.85, "fail": fail,
         "handler": r.choice(["continue", "continue", "continue", "none", "stop", "boom"]) if fail else
         r.choice(["none", "continue"]),
         "actat": actat, "act": act, "bad": ""}
    if r.random() < 0.12:
        c["bad"] = r.choice(BAD)
    if r.random() < 0.2:
        c["autoname"] = True
    return c


def rand_command(r, acts=True):
    k = r.choice(["attach", "attach", "detach", "enable", "disable", "freq", "clear", "attach"])
    if k == "clear" and r.random() < 0.5:
        k = "detach"
    if k == "attach":
        return rand_attach(r, acts=acts)
    c = {"k": k, "name": "", "iv": 0, "tv": 0, "store": True, "max": 0, "en": True, "fail": [], "handler": "none",
         "actat": 0, "act": NOACT, "bad": ""}
    if k in ("detach", "enable", "disable"):
        c["name"] = r.choice(NAMES + (FIELDS if k != "detach" else []) + ["zz"] * (r.random() < 0.2))
    if k == "freq":
        c["iv"], c["tv"] = r.choice([(1, 0), (2, 0), (0, 70), (3, 90), (0, 0), (4, 0)])
        if r.random() < 0.1:
            c["bad"] = r.choice(["interval0", "time0"])
    return c


_SYS = {}


def fixed_case():
    if "c" not in _SYS:
        r = rng_for(0, "sampling-system")
        while True:
            case = Case(r)
            occ = start_occ(r, case)
            if occ is not None and case.s.np >= 2 and case.s.np <= 4:
                break
        _SYS["c"] = (case, occ)
    return _SYS["c"]


def finish(ops):
    return [{k: v for k, v in o.items() if k not in ("run", "autoname")} for o in ops]


def tracker_trace(tag, ops_src):
    case, occ = fixed_case()
    s = case.s
    cfg = config_for(s)
    state = State(occupations=list(occ))
    tracker = Tracker(config=cfg, structure=s.structure, initial_state=state, hop_state_lookup=s.lookup)
    rig = Rig(tracker, lambda: tracker, state)
    tr = {"id": tag, "kmc": False, "gi0": 1, "ops": [], "raised": ""}
    try:
        for o in ops_src:
            o = dict(o)
            o["obs"] = rig.apply(o)
            tr["ops"].append(o)
            if o["obs"]["err"]:
                break
    except Exception as exc:
        tr["raised"] = describe(exc)
    tr["ops"] = finish(tr["ops"])
    return tr


def random_ops(r, n):
    step, time, out = 0, 0, []
    blank = {"name": "", "iv": 0, "tv": 0, "bad": ""}
    for _ in range(n):
        if r.random() < 0.4:
            out.append(rand_command(r))
        else:
            step += r.choice([1, 1, 1, 2])
            time += r.choice([0, 5, 20, 40, 64, 100])
            out.append(dict(blank, k="sample", step=step, time=time))
    return out


def kmc_trace(seed, k):
    r = rng_for(seed, "sampling-kmc", k)
    case, occ = fixed_case()
    s = case.s
    eq = r.choice([0, 0, 1, 2])
    passes = r.randint(1, 4)
    fields = dict(equilibration_passes=eq, kmc_passes=passes, random_seed=r.randint(0, 10**6), name=f"p{k}")
    if r.random() < 0.3:
        fields["property_sampling_interval"] = r.choice([1, 2, 3])
    if r.random() < 0.2:
        fields["property_sampling_time_interval"] = r.choice([70, 130]) / TICK
    if r.random() < 0.3:
        fields["builtin_property_enabled"] = {"msd": False, "conductivity": r.random() < 0.5}
    rig = Rig(None, None, None)
    given = []
    if r.random() < 0.5:  # callbacks named in the configuration
        mod = sys.modules.setdefault("verif_callbacks", types.ModuleType("verif_callbacks"))
        entries = []
        for name in r.sample(NAMES, r.randint(1, 3)):
            c = rand_attach(r, name=name)
            while c["bad"]:
                c = rand_attach(r, name=name)
            if c["fail"]:
                c["handler"] = "none"
                c["fail"] = [x + 3 for x in c["fail"]]
            auto = c.pop("autoname", False)
            setattr(mod, "fn_%d_%s" % (k, name), rig.callback(c)[0])
            e = {"callable": "verif_callbacks%sfn_%d_%s" % (r.choice(":."), k, name)}
            for key, v, dflt in (("interval", c["iv"] or None, None), ("time_interval", c["tv"] / TICK or None, None),
                                 ("store", c["store"], True), ("max_records", c["max"] or None, None),
                                 ("enabled", c["en"], True), ("name", None if auto else name, None)):
                if v != dflt or r.random() < 0.3:
                    e[key] = v
            entries.append(e)
            given.append(c)
        fields["property_callbacks"] = entries
    cfg = config_for(s, **fields)
    t0 = r.choice([0, 0, 640])
    state = State(occupations=list(occ), time=t0 / TICK, step=r.choice([0, 0, 7]))
    kmc = case.kmc(cfg, state)
    box = {"tracker": None, "times": [], "t": t0}
    real_propose = kmc.propose

    def propose(events):
        ev, _dt = real_propose(events)
        return ev, r.choice([3, 20, 40, 64, 100]) / TICK

    kmc.propose = propose
    rig.target, rig.tracker_of, rig.state = kmc, lambda: box["tracker"], state
    tr = {"id": f"sampling:kmc:{seed}:{k}", "kmc": True, "gi0": 0, "ops": [], "raised": ""}
    # the settings given in the configuration are the first commands of the plan
    pre = []
    blank = {"k": "", "name": "", "iv": 0, "tv": 0, "store": True, "max": 0, "en": True, "fail": [],
             "handler": "none", "actat": 0, "act": NOACT, "bad": ""}
    if "property_sampling_interval" in fields or "property_sampling_time_interval" in fields:
        pre.append(dict(blank, k="freq", iv=fields.get("property_sampling_interval", 0),
                        tv=int(round(fields.get("property_sampling_time_interval", 0) * TICK))))
    for f, v in fields.get("builtin_property_enabled", {}).items():
        pre.append(dict(blank, k="enable" if v else "disable", name=f))
    pre += given

    def run():
        times = []
        box["times"] = times
        real_update = kmc.update

        def update(event, dt=0.0):
            real_update(event, dt=dt)
            times.append(ticks(state.time))

        kmc.update = update
        try:
            box["tracker"] = kmc.run()
        except CallbackExecutionError:
            box["tracker"] = None
            raise
        finally:
            kmc.update = real_update

    try:
        # the configured commands have already been applied by the constructor;
        # observe once, after the last of them
        for j, o in enumerate(pre):
            obs = rig.apply(dict(blank, k="noop")) if j == len(pre) - 1 else None
            tr["ops"].append(dict(o, obs=obs))
        for _ in range(r.randint(3, 8)):
            if r.random() < 0.3 and len(tr["ops"]) > 0:
                o = dict(blank, k="run", np=s.np, run=run)
                before = box["tracker"]
                o["obs"] = rig.apply(o)
                o["times"] = box["times"][eq * s.np:]
                del before
            else:
                o = rand_command(r)
                o["obs"] = rig.apply(o)
            tr["ops"].append(o)
            if o["obs"]["err"]:
                break
        else:
            o = dict(blank, k="run", np=s.np, run=run)
            o["obs"] = rig.apply(o)
            o["times"] = box["times"][eq * s.np:]
            tr["ops"].append(o)
            if not o["obs"]["err"]:
                o = dict(blank, k="clear")
                o["obs"] = rig.apply(o)
                tr["ops"].append(o)
    except Exception as exc:
        tr["raised"] = describe(exc)
    # drop the intermediate pre-commands' missing observations by folding them
    for j, o in enumerate(tr["ops"]):
        if o["obs"] is None:
            o["obs"] = {"skip": True}
    tr["ops"] = finish(tr["ops"])
    return tr


def main():
    a = args()
    out = []
    if a.mode == "gen":
        for k, ops in enumerate(json.load(open(a.inp))):
            out.append(tracker_trace(f"sampling:gen:{k}", ops))
    elif a.mode == "kmc":
        out = [kmc_trace(a.seed, k) for k in range(a.n)]
    else:
        for k in range(a.n):
            r = rng_for(a.seed, "sampling", k)
            out.append(tracker_trace(f"sampling:tracker:{a.seed}:{k}", random_ops(r, 25)))
    write_json(a.out, out)


if __name__ == "__main__":
    main()
