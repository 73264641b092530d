"""Drives the real engine (driven hop by hop, or through KMC.run) and records traces."""
from __future__ import annotations

from kmcsys import *  # noqa: F401,F403
from lib import *  # noqa: F401,F403

from kmcpy.simulator.kmc import KMC  # noqa: E402
from kmcpy.simulator.state import State  # noqa: E402
from kmcpy.simulator.tracker import Tracker  # noqa: E402

DTU = 64  # waiting times of the driven mode are multiples of 1/64 s


def encode_rates(kmc, cfg):
    T, nu = cfg.temperature, cfg.attempt_frequency
    return [to_barrier(x, T, nu) for x in np.asarray(kmc.prob_list, dtype=float)]


def cum_ok(kmc):
    p = np.asarray(kmc.prob_list, dtype=float)
    c = np.asarray(kmc.prob_cum_list, dtype=float)
    return bool(p.shape == c.shape and np.allclose(np.cumsum(p), c, rtol=1e-9, atol=0))


def tracker_obs(tracker):
    if tracker is None:
        return {"trk": False, "ions": [], "hops": [], "disp": []}
    return {
        "trk": True,
        "ions": [int(x) + 1 for x in tracker.mobile_ion_specie_locations],
        "hops": [int(x) for x in tracker.hop_counter],
        "disp": [[as_int(x) for x in row] for row in np.asarray(tracker.displacement)],
    }


def observe(kmc, cfg, state, tracker, fresh, clock=None, clockok=True):
    o = {"occ": [int(x) for x in state.occupations], "rates": encode_rates(kmc, cfg),
         "cumok": cum_ok(kmc), "step": int(state.step),
         "clock": as_int(state.time, DTU) if clock is None else clock, "clockok": clockok}
    o["fresh"] = o["rates"] if fresh is None else fresh
    o.update(tracker_obs(tracker))
    return o


class Case:
    def __init__(self, r, nonlocal_ok=False, **kw):
        if r.random() < 0.3:  # symbols that contain each other
            kw = dict(kw, **r.choice([dict(mobile="N", other="Na"), dict(mobile="C", other="Cs"), dict(mobile="Na", other="N")]))
        self.s = random_system(r, **kw)
        self.evs = random_events(r, self.s)
        self.rules, self.spec_rules, self.site_species = random_rules(r, self.s, self.evs, nonlocal_ok=nonlocal_ok)
        self.default = r.randint(50, 600)

    def model(self):
        return LocalBarrierModel(rules=[dict(x) for x in self.rules], default_barrier=float(self.default),
                                 site_species=self.site_species)

    def kmc(self, cfg, state, deps=True):
        s = self.s
        return KMC(structure=s.structure, model=self.model(), event_lib=make_lib(self.evs, s.order, deps),
                   config=cfg, simulation_state=state, hop_state_lookup=s.lookup, active_site_order=s.order)

    def record(self):
        return spec_sys(self.s, self.evs, self.spec_rules, self.default, self.site_species)

    def fresh(self, cfg, occ):
        return encode_rates(self.kmc(cfg, State(occupations=list(occ))), cfg)


NOFIN = {"kind": "none"}


def start_occ(r, case):
    for _ in range(40):
        occ = random_occ(r, case.s)
        if available(case.s, occ, case.evs):
            return occ
    return None


def driven(seed, k, nsteps, mode):
    r = rng_for(seed, "driven", mode, k)
    while True:
        case = Case(r, nonlocal_ok=(mode == "nonlocal"), **({"big": True, "skew": True} if k % 4 == 3 else {}))
        occ = start_occ(r, case)
        if occ is not None:
            break
    s = case.s
    cfg = config_for(s, temperature=r.choice([300.0, 500.0, 1100.0]), attempt_frequency=r.choice([1e13, 5e12]))
    t0, s0 = (0.0, 0) if r.random() < 0.7 else (float(r.randint(1, 9)), r.randint(1, 50))
    tr = {"sys": case.record(), "steps": [], "fin": NOFIN, "raised": "", "id": f"driven:{mode}:{seed}:{k}"}
    state = State(occupations=occ, time=t0, step=s0)
    lib_deps = mode != "nodeps"
    kmc = case.kmc(cfg, state, deps=lib_deps)
    tracker = Tracker(config=cfg, structure=s.structure, initial_state=state, hop_state_lookup=s.lookup)
    tr["init"] = observe(kmc, cfg, state, tracker, case.fresh(cfg, occ))
    try:
        for _ in range(nsteps):
            av = available(s, state.occupations, case.evs)
            if not av:
                break
            e = r.choice(av)
            dt = r.randint(1, 400)
            event = kmc.event_lib.events[e]
            tracker.update(event, dt / DTU)
            kmc.update(event, dt=dt / DTU)
            if len(state.occupations) != s.n:
                raise RuntimeError("occupation length changed")
            obs = observe(kmc, cfg, state, tracker, case.fresh(cfg, state.occupations))
            tr["steps"].append({"e": e + 1, "dt": dt, "obs": obs})
    except Exception as exc:  # observed behaviour, judged by the spec
        tr["raised"] = describe(exc)
    return tr


class SpyState(State):
    """A user-supplied state that remembers the hops applied to it."""

    def apply_event(self, event, dt):
        pre = list(self.occupations)
        super().apply_event(event, dt)
        self.__dict__.setdefault("log", []).append(
            (tuple(int(x) for x in event.mobile_ion_indices), pre, list(self.occupations), float(dt)))


def legal(s, rec):
    (a, b), pre, post, _dt = rec
    if pre[a] == s.mob[a] and pre[b] == s.vac[b]:
        src, dst = a, b
    elif pre[a] == s.vac[a] and pre[b] == s.mob[b]:
        src, dst = b, a
    else:
        return False
    want = list(pre)
    want[src], want[dst] = s.vac[src], s.mob[dst]
    return want == post


def full_run(seed, k, mode):
    r = rng_for(seed, "run", mode, k)
    while True:
        case = Case(r)
        s = case.s
        occ = start_occ(r, case)
        if occ is not None:
            break
    eq, passes = r.choice([0, 0, 1, 2, 3]), r.randint(1, 5)
    cfg = config_for(s, equilibration_passes=eq, kmc_passes=passes, random_seed=r.randint(0, 10**6),
                     name=f"run{k}", temperature=r.choice([600.0, 1000.0]))
    t0, s0 = (0.0, 0) if r.random() < 0.6 else (2.0, 17)
    state = SpyState(occupations=occ, time=t0, step=s0)
    tr = {"sys": case.record(), "steps": [], "fin": NOFIN, "raised": "", "id": f"run:{mode}:{seed}:{k}"}
    kmc = case.kmc(cfg, state)
    seen = []

    original = Tracker.__init__

    def spy_init(self, *a, **kw):
        original(self, *a, **kw)
        seen.append((self, {"occ": [int(x) for x in state.occupations], "step": int(state.step),
                            "time": float(state.time), **tracker_obs(self)}))

    Tracker.__init__ = spy_init
    obs = []

    def spy(st, step, t):
        o = observe(kmc, cfg, st, seen[-1][0], None, clock=0)
        o["t"] = float(t)
        o["tstate"] = float(st.time)
        o["argstep"] = int(step)
        obs.append(o)
        return step

    kmc.attach(spy, interval=1, name="spy")
    init_rates = observe(kmc, cfg, state, None, None, clock=0)
    try:
        tracker = kmc.run()
        start = seen[-1][1]
        log = state.__dict__.get("log", [])
        neq = len(log) - len(obs)
        prev_t = t0
        init = dict(init_rates)
        init.update({k2: start[k2] for k2 in ("occ", "step", "trk", "ions", "hops", "disp")})
        if eq:
            init["rates"] = case.fresh(cfg, start["occ"])
        init["fresh"] = init["rates"]
        tr["init"] = init
        for j, o in enumerate(obs):
            dt_logged = log[neq + j][3] if log else None
            ok = o["t"] >= prev_t and o["t"] == o["tstate"]
            if dt_logged is not None:
                ok = ok and dt_logged > 0 and math.isclose(o["t"], prev_t + dt_logged, rel_tol=1e-12)
            o["clockok"] = bool(ok)
            prev_t = o["t"]
            o["fresh"] = case.fresh(cfg, o["occ"]) if j % 3 == 0 else o["rates"]
            for key in ("t", "tstate", "argstep"):
                o.pop(key)
            tr["steps"].append({"e": 0, "dt": -1, "obs": o})
        eqlog = log[: max(neq, 0)]
        tr["fin"] = {
            "kind": "run", "nprod": len(obs), "passes": passes, "eq": eq, "step0": s0,
            "firststep": start["step"], "firstclockok": bool(start["time"] == t0),
            "eqlegal": bool(all(legal(s, rec) for rec in eqlog)),
            "occ0": occ, "hops": [int(x) for x in tracker.hop_counter],
        }
    except Exception as exc:
        tr["raised"] = describe(exc)
        if "init" not in tr:
            tr["init"] = init_rates
    finally:
        Tracker.__init__ = original
    return tr


def main():
    a = args()
    out = []
    for k in range(a.n):
        if a.mode == "run":
            out.append(full_run(a.seed, k, a.mode))
        else:
            out.append(driven(a.seed, k, 12, a.mode or "plain"))
    write_json(a.out, out)


if __name__ == "__main__":
    main()
