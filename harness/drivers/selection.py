"""Records statistics of event choice and waiting times of the real engine."""
from __future__ import annotations

from kmc_engine import *  # noqa: F401,F403

NB = 16


def weighted_case(r, wide):
    """A system whose event barriers encode integer rate weights."""
    while True:
        s = random_system(r)
        evs, seen = [], set()
        for a, b, env in random_events(r, s):
            if frozenset((a, b)) not in seen:
                seen.add(frozenset((a, b)))
                evs.append((a, b, env))
        occ = None
        for _ in range(40):
            o = random_occ(r, s)
            if len(available(s, o, evs)) >= 1:
                occ = o
                break
        if occ is not None and len(evs) >= 2:
            break
    w = [r.choice([1, 1, 2, 3, 5, 8, 40] if not wide else [1, 2, 200, 500]) for _ in evs]
    T = 700.0
    base = 400.0
    rules = [{"type": "constant", "mobile_ion_indices": [a, b],
              "properties": {"barrier": base - KB * T * math.log(w[i])}} for i, (a, b, _e) in enumerate(evs)]
    return s, evs, occ, w, rules, T, base


def draw_group(kmc, events, w, n):
    """n draws from the current configuration."""
    total = float(np.asarray(kmc.prob_list, dtype=float).sum())
    index = {id(e): k for k, e in enumerate(events)}
    c, low, bins, neg = [0] * len(w), [0] * len(w), [0] * NB, 0
    for _ in range(n):
        ev, dt = kmc.propose(events)
        k = index[id(ev)]
        c[k] += 1
        neg += add_wait(bins, low, k, float(dt) * total)
    return {"w": w, "n": n, "c": c, "bins": bins, "low": low, "neg": neg}


def add_wait(bins, low, k, z):
    if not (z > 0) or math.isinf(z):
        bins[0] += 1
        return 1
    u = math.exp(-z)
    bins[min(NB - 1, int(u * NB))] += 1
    if u < 0.5:
        low[k] += 1
    return 0


def cur_weights(s, evs, occ, w):
    av = set(available(s, occ, evs))
    return [w[k] if k in av else 0 for k in range(len(evs))]


def one(seed, k, mode, tier):
    r = rng_for(seed, "sel", mode, k)
    s, evs, occ, w, rules, T, base = weighted_case(r, wide=(k % 3 == 0))
    tr = {"id": f"selection:{mode}:{seed}:{k}", "groups": [], "raised": "", "refused": True}

    def build(o, cfg):
        return KMC(structure=s.structure, model=LocalBarrierModel(rules=rules, default_barrier=base),
                   event_lib=make_lib(evs, s.order), config=cfg, simulation_state=State(occupations=list(o)),
                   hop_state_lookup=s.lookup, active_site_order=s.order)

    try:
        if mode == "run":
            passes = (4000 if tier == "quick" else 30000) // max(1, s.np)
            cfg = config_for(s, temperature=T, kmc_passes=passes, random_seed=r.randint(0, 10**9), name=f"s{k}")
            kmc = build(occ, cfg)
            obs = []
            kmc.attach(lambda st, step, t: obs.append((tuple(st.occupations), t)), interval=1, store=False, name="spy")
            kmc.run()
            pair = {}
            for q, (a, b, _e) in enumerate(evs):
                pair[frozenset((a, b))] = q
            nu = 1e13 * math.exp(-base / (KB * T))
            groups = {}
            prev, tp = tuple(occ), 0.0
            for o, t in obs:
                diff = frozenset(i for i in range(s.n) if o[i] != prev[i])
                g = groups.get(prev)
                if g is None:
                    cw = cur_weights(s, evs, prev, w)
                    g = groups[prev] = {"w": cw, "n": 0, "c": [0] * len(w), "bins": [0] * NB,
                                        "low": [0] * len(w), "neg": 0}
                q = pair.get(diff)
                if q is None:
                    raise RuntimeError("executed change is not a listed hop")
                g["n"] += 1
                g["c"][q] += 1
                g["neg"] += add_wait(g["bins"], g["low"], q, (t - tp) * nu * sum(g["w"]))
                prev, tp = o, t
            tr["groups"] = [g for g in groups.values() if g["n"] >= 50]
            # pooled waiting times over all configurations of the run
            if not tr["groups"]:
                tr["groups"] = [{"w": [1], "n": len(obs), "c": [len(obs)],
                                 "bins": [sum(g["bins"][b] for g in groups.values()) for b in range(NB)],
                                 "low": [sum(sum(g["low"]) for g in groups.values())], "neg": 0}]
        else:
            cfg = config_for(s, temperature=T, kmc_passes=1, random_seed=r.randint(0, 10**9), name=f"s{k}")
            kmc = build(occ, cfg)
            kmc.run()  # initialises the generator
            for _ in range(3):
                o = list(kmc.simulation_state.occupations)
                cw = cur_weights(s, evs, o, w)
                tr["groups"].append(draw_group(kmc, kmc.event_lib.events, cw, 12000 if tier == "quick" else 100000))
                ev, dt = kmc.propose(kmc.event_lib.events)
                kmc.update(ev, dt)
            # nothing can move: the run must refuse and leave the state alone
            for o in ([s.vac[i] if i in s.hopsites else 0 for i in range(s.n)],
                      [s.mob[i] if i in s.hopsites else 0 for i in range(s.n)]):
                km = build(o, cfg)
                try:
                    km.run()
                    tr["refused"] = False
                except Exception:
                    tr["refused"] = list(km.simulation_state.occupations) == o and km.simulation_state.step == 0
                if not tr["refused"]:
                    break
    except Exception as exc:
        tr["raised"] = describe(exc)
    return tr


def main():
    a = args()
    write_json(a.out, [one(a.seed, k, a.mode, a.tier) for k in range(a.n)])


if __name__ == "__main__":
    main()
