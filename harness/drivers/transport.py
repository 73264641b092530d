"""Records transport summaries computed by the real code.

modes: func  - the transport function on chosen displacements
       run   - summary rows of complete runs (resumed, equilibrated, repeated)
"""
from __future__ import annotations

from fractions import Fraction

from kmc_engine import *  # noqa: F401,F403

from kmcpy.simulator.property import compute_transport_properties  # noqa: E402

FIELDS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"]
SIGMA0 = 1.602e11 / KB       # mS/cm per (cm2/s e2 / A3 / K)
BIG = 400000


def frac(v):
    v = float(v)
    if math.isnan(v):
        return [0, 0]
    if math.isinf(v) or abs(v) > 1e7:
        return [1, 0]
    f = Fraction(v).limit_denominator(BIG)
    if abs(f.numerator) > 2 * 10**9 or abs(float(f) - v) > 1e-9 * max(1e-3, abs(v)):
        return [1, 0]
    return [f.numerator, f.denominator]


def norm(metrics, scale):
    """Strip the fixed unit factors, leaving small rationals."""
    return {
        "msd": frac(metrics["msd"]),
        "jump_diffusivity": frac(metrics["jump_diffusivity"] * 1e16 * scale),
        "tracer_diffusivity": frac(metrics["tracer_diffusivity"] * 1e16 * scale),
        "conductivity": frac(metrics["conductivity"] * 1e16 / SIGMA0 * 100 * scale),
        "havens_ratio": frac(metrics["havens_ratio"]),
        "correlation_factor": frac(metrics["correlation_factor"]),
    }


def func_trace(seed, k):
    r = rng_for(seed, "transport", k)
    tr = {"id": f"transport:func:{seed}:{k}", "samples": [], "raised": "", "unitsok": True, "rowsok": True}
    try:
        for _ in range(10):
            n = r.choice([0, 1, 1, 2, 3, 4])
            d = [[r.randint(-6, 6) for _ in range(3)] for _ in range(n)]
            h = [r.choice([0, 1, 2, 3, 5, 8]) for _ in range(n)]
            if r.random() < 0.15:
                d = [[0, 0, 0] for _ in d]
            if n > 1 and r.random() < 0.15:
                d[0] = [-sum(x[c] for x in d[1:]) for c in range(3)]
            x = {"d": d, "h": h, "dim": r.randint(1, 3), "a": r.randint(1, 4), "v": r.choice([64, 90, 100, 125]),
                 "q": r.choice([1, -1, 2, 3]), "t": r.randint(2, 12), "tn": r.choice([0, -1, 1, 3, 5, 8]),
                 "td": r.choice([1, 2, 8])}
            en = {f: r.random() < 0.8 for f in FIELDS}
            arg = dict(en) if r.random() < 0.7 else {f: False for f in FIELDS if not en[f]}
            if all(en.values()) and r.random() < 0.5:
                arg = None
            m = compute_transport_properties(
                np.array(d, dtype=float).reshape(n, 3), np.array(h, dtype=np.int64), sim_time=x["tn"] / x["td"],
                dimension=x["dim"], n_mobile_ion_specie=n, elementary_hop_distance=float(x["a"]),
                volume=float(x["v"]), mobile_ion_charge=float(x["q"]), temperature=100.0 * x["t"], enabled=arg)
            tr["samples"].append({"x": x, "en": en, "obs": norm(m, 1), "summed": False})
    except Exception as exc:
        tr["raised"] = describe(exc)
    return tr


UNITS = {"time": "s", "msd": "Angstrom^2", "jump_diffusivity": "cm^2/s", "tracer_diffusivity": "cm^2/s",
         "conductivity": "mS/cm", "havens_ratio": "dimensionless", "correlation_factor": "dimensionless"}


def run_trace(seed, k):
    r = rng_for(seed, "transport-run", k)
    while True:
        case = Case(r, max_sites=9)
        s = case.s
        occ = start_occ(r, case)
        vol = round(abs(np.linalg.det(np.array(s.L))))
        if occ is not None and vol <= 400:
            break
    x0 = {"dim": r.randint(1, 3), "a": r.randint(1, 3), "v": vol, "q": r.choice([1, 2]), "t": r.randint(3, 12)}
    t0 = r.choice([0.0, 0.0, 1e-10, 1e-9])
    interval = r.choice([None, 1, 2, 3])
    en = {f: r.random() < 0.85 for f in FIELDS}
    cfg = config_for(s, equilibration_passes=r.choice([0, 1]), kmc_passes=r.randint(1, 4), name=f"t{k}",
                     random_seed=r.randint(0, 10**6), dimension=x0["dim"], elementary_hop_distance=float(x0["a"]),
                     mobile_ion_charge=float(x0["q"]), temperature=100.0 * x0["t"],
                     property_sampling_interval=interval,
                     builtin_property_enabled={f: v for f, v in en.items() if not v})
    tr = {"id": f"transport:run:{seed}:{k}", "samples": [], "raised": "", "unitsok": True, "rowsok": True}
    try:
        state = State(occupations=occ, time=t0, step=r.choice([0, 5]))
        kmc = case.kmc(cfg, state)
        original = Tracker.__init__
        seen = []

        def spy(self, *a, **kw):
            original(self, *a, **kw)
            seen.append((self, float(state.time)))
        Tracker.__init__ = spy
        try:
            snaps = []
            kmc.attach(lambda st, step, t: snaps.append(
                (t, seen[-1][0].displacement.copy(), seen[-1][0].hop_counter.copy())), name="snap", store=False)
            for _run in range(r.choice([1, 1, 2])):
                snaps.clear()
                tracker = kmc.run()
                tr["unitsok"] = tr["unitsok"] and dict(tracker.result_units) == UNITS
                times = list(tracker.results["time"])
                tr["rowsok"] = tr["rowsok"] and times == [float(q[0]) for q in snaps] and \
                    all(len(tracker.results[f]) == len(times) for f in FIELDS)
                if not tr["rowsok"]:
                    break
                for j, (t, disp, hops) in enumerate(snaps):
                    if j % 2 and j < len(snaps) - 1 and len(snaps) > 6:
                        continue
                    el = t - seen[-1][1]
                    x = dict(x0, d=[[as_int(c) for c in row] for row in disp], h=[int(q) for q in hops], tn=1, td=1)
                    m = {f: tracker.results[f][j] for f in FIELDS}
                    tr["samples"].append({"x": x, "en": en, "obs": norm(m, el), "summed": True})
                if times:
                    info = tracker.return_current_info()
                    last = [tracker.results[f][-1] for f in ["time"] + [
                        "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
                        "correlation_factor"]]
                    tr["rowsok"] = tr["rowsok"] and np.array_equal(np.array(info), np.array(last), equal_nan=True)
        finally:
            Tracker.__init__ = original
    except Exception as exc:
        tr["raised"] = describe(exc)
    return tr


def main():
    a = args()
    fn = run_trace if a.mode == "run" else func_trace
    write_json(a.out, [fn(a.seed, k) for k in range(a.n)])


if __name__ == "__main__":
    main()
