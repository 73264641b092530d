"""Records what real LocalBarrierModel objects accept and answer."""
from __future__ import annotations

import copy
import tempfile

from kmcsys import *  # noqa: F401,F403

from kmcpy.models.base import BaseModel  # noqa: E402
from kmcpy.simulator.config import RuntimeConfig  # noqa: E402
from kmcpy.simulator.state import State  # noqa: E402

ALIAS = {0: [0, "occupied", "match", "template", "0", " Occupied "], 1: [1, "vacant", "vacancy", "mismatch", "other", "1"]}
NOB = -3


def say(r, v):
    return r.choice(ALIAS.get(v, [v, str(v)])) if r.random() < 0.4 else v


def spec_bar(v):
    return NOB if v is None else int(round(v * SCALE))


BADS = {
    "both_counts": lambda x: x.update(count=1, min_count=1), "no_count": lambda x: [x.pop(k, None) for k in ("count", "min_count", "max_count")],
    "neg_count": lambda x: (x.pop("count", None), x.pop("max_count", None), x.update(min_count=-1)),
    "bool_count": lambda x: (x.pop("min_count", None), x.pop("max_count", None), x.update(count=True)),
    "selector": lambda x: x.update(sites="neighbours"), "type": lambda x: x.update(type="oracle"),
    "neg_state": lambda x: x.update(state=-1), "bad_state": lambda x: x.update(state="filled"),
    "no_props": lambda x: (x.pop("barrier", None), x.update(properties={})),
    "text_barrier": lambda x: x.update(properties={"barrier": "300"}),
    "bool_barrier": lambda x: (x.update(properties={}), x.update(barrier=True)),
}


def make_rule(r, s, evs, idx):
    """(kind, kmcpy rule, spec record, barrier or None, label or None)"""
    ev = r.choice(evs)
    kind = r.choice(["pattern", "pattern", "state_count", "state_count", "species_count", "exact", "exact", "constant"])
    rec = blank_rule()
    rec["type"] = kind
    rule = {"type": kind}
    bar = None if r.random() < 0.1 else r.randint(20, 700)
    lab = r.randint(1, 50) if (bar is None or r.random() < 0.4) else None
    if bar is not None and lab is None and r.random() < 0.5:
        rule["barrier"] = bar if r.random() < 0.5 else float(bar)
    else:
        rule["properties"] = {k: v for k, v in (("barrier", bar), ("label", lab)) if v is not None}
    if r.random() < 0.5:
        rule["name"] = f"n{idx}"
    if kind == "exact":
        canon = list(dict.fromkeys([ev[0], ev[1]] + list(ev[2])))
        occ = [r.randrange(len(s.allowed[i])) for i in canon]
        if r.random() < 0.7:
            for q in (0, 1):
                occ[q] = r.choice([s.mob[canon[q]], s.vac[canon[q]]])
        env = list(ev[2])
        rule.update(mobile_ion_indices=[ev[0], ev[1]], local_env_indices=env, occupations=[say(r, o) for o in occ])
        rec.update(hasM=True, M=[ev[0] + 1, ev[1] + 1], hasE=True, E=[x + 1 for x in env], pat=occ)
    else:
        if kind == "constant":
            gate = 1.0 if r.random() < 0.85 else 0.0
        else:
            gate = 0.4
        if r.random() < gate:
            rule["mobile_ion_indices"] = [ev[0], ev[1]]
            rec.update(hasM=True, M=[ev[0] + 1, ev[1] + 1])
        if r.random() < 0.25:
            rule["local_env_indices"] = list(ev[2])
            rec.update(hasE=True, E=[x + 1 for x in ev[2]])
        if kind != "constant":
            sel = r.choice(SELECTORS + ["all", "explicit"])
            sites = []
            if sel == "explicit":
                sites = [r.randrange(s.n + (1 if r.random() < 0.1 else 0)) for _ in range(r.randint(1, 3))]
                rule["sites"] = sites if r.random() < 0.5 else tuple(sites)
            else:
                default = "canonical" if kind == "pattern" else "local_env"
                if not (sel == default and r.random() < 0.5):
                    rule["sites"] = sel
            rec["sel"] = sel
            rec["sites"] = [x + 1 for x in sites]
            if kind == "pattern":
                chosen = select(s, ev, sel, [min(x, s.n - 1) for x in sites])
                pat = [-1 if r.random() < 0.5 else r.randrange(3) for _ in chosen] or [0]
                rule["pattern"] = ["*" if p == -1 else say(r, p) for p in pat]
                rec["pat"] = pat
            else:
                lo, hi = count_window(r, rule)
                if not any(k in rule for k in ("count", "min_count", "max_count")):
                    rule["min_count"] = lo
                rec["lo"], rec["hi"] = lo, hi
                if kind == "state_count":
                    st = r.randrange(3)
                    rule["occupation" if r.random() < 0.2 else "state"] = say(r, st)
                    rec["st"] = st
                else:
                    sp = r.sample(["Na", "X", "Si", "P", "Mg", "Al"], r.randint(1, 2))
                    rule["species"] = sp if len(sp) > 1 or r.random() < 0.3 else sp[0]
                    rec["spp"] = sp
    rec["bar"] = spec_bar(bar)
    if r.random() < 0.3 and kind != "constant":
        rule.pop("type")  # the type is implied by the fields
    return kind, rule, rec, spec_bar(lab)


def add(model, kind, rule, r):
    """Offer a rule through one of the public entry points."""
    kw = {k: v for k, v in rule.items() if k != "type"}
    simple = "mobile_ion_indices" not in rule and "local_env_indices" not in rule and "occupation" not in rule
    if r.random() < 0.5 and rule.get("type") == kind:
        if kind == "exact":
            return model.add_exact_rule(**kw)
        if simple and kind == "state_count" and "state" in rule:
            return model.add_state_count_rule(**kw)
        if simple and kind == "species_count":
            return model.add_species_count_rule(**kw)
        if simple and kind == "pattern":
            return model.add_pattern_rule(**kw)
    model.add_rule(copy.deepcopy(rule))


def answer(model, state, event, prop=None):
    try:
        v = model.compute(simulation_state=state, event=event, **({} if prop is None else {"property_name": prop}))
        return as_int(v, SCALE)
    except (KeyError, ValueError, IndexError):
        return NOB


def one(seed, k, tmp):
    r = rng_for(seed, "barrier", k)
    s = random_system(r, max_sites=8)
    evs = random_events(r, s)
    if r.random() < 0.5:   # same endpoints, other environment
        a, b, env = r.choice(evs)
        evs.append((a, b, list(reversed(env))))
    species = {}
    for i in range(s.n):
        if r.random() < 0.9:
            species[i] = {q: sp for q, sp in enumerate(s.allowed[i]) if r.random() < 0.97}
    default = r.randint(20, 700) if r.random() < 0.7 else None
    dlab = r.randint(1, 50) if r.random() < 0.3 else None
    kw = {}
    dprops = {k2: float(v) for k2, v in (("barrier", default), ("label", dlab)) if v is not None}
    if dprops:
        if dlab is None and r.random() < 0.5:
            kw["default_barrier"] = default
        else:
            kw["default_properties"] = dprops
    dp, pp = (r.choice(["barrier", "barrier", "label"]) for _ in range(2))
    if dp != "barrier" or r.random() < 0.5:
        kw["default_property"] = dp
    if pp != "barrier" or r.random() < 0.5:
        kw["probability_property"] = pp
    declared = {str(a) if r.random() < 0.5 else a: {str(q) if r.random() < 0.5 else q: sp for q, sp in m.items()}
                for a, m in species.items()}
    sp = [[species.get(i, {}).get(q, "") for q in range(4)] for i in range(s.n)]
    bm0 = {"rules": [], "hasdef": bool(dprops), "def": spec_bar(default), "sp": sp}
    lm0 = {"rules": [], "hasdef": bool(dprops), "def": spec_bar(dlab), "sp": sp}
    tr = {"id": f"barrier:{seed}:{k}", "n": s.n, "mob": s.mob, "vac": s.vac, "pp": pp, "bm0": bm0, "lm0": lm0, "ops": [], "raised": ""}
    T, nu = r.choice([300.0, 700.0, 1200.0]), r.choice([1e13, 3e12])
    rc = RuntimeConfig(temperature=T, attempt_frequency=nu)
    try:
        model = LocalBarrierModel(site_species=declared, **kw)
        for step in range(r.randint(1, 6)):
            for _ in range(r.randint(1, 2)):
                kind, rule, rec, lab = make_rule(r, s, evs, step)
                bad = ""
                if r.random() < 0.15 and kind == "state_count":
                    bad = r.choice(sorted(BADS))
                    rule["type"] = kind
                    if "state" in bad:
                        rule.pop("occupation", None)
                    BADS[bad](rule)
                refused = False
                try:
                    add(model, kind, rule, r)
                except (ValueError, TypeError):
                    refused = True
                tr["ops"].append({"k": "rule", "rule": rec, "lab": lab, "bad": bad, "refused": refused})
                if r.random() < 0.12 and kind == "exact":
                    try:
                        model.add_rule(copy.deepcopy(dict(rule, name="dup")))
                        refused = False
                    except (ValueError, TypeError):
                        refused = True
                    tr["ops"].append({"k": "rule", "rule": rec, "lab": lab, "bad": "", "refused": refused})
            # a reloaded copy must answer the same
            how = r.choice(["dict", "json", "config"])
            if how == "dict":
                again = LocalBarrierModel.from_dict(json.loads(json.dumps(model.as_dict())))
            else:
                path = os.path.join(tmp, f"m{k}.json")
                model.to(path)
                if how == "json":
                    again = LocalBarrierModel.from_file(path)
                else:
                    class Cfg:
                        model_file = path
                        model_type = "local_barrier"
                    again = BaseModel.from_config(Cfg)
            for _ in range(4):
                a, b, env = r.choice(evs)
                occ = random_occ(r, s)
                if r.random() < 0.6 and tr["ops"][-1]["k"] == "rule" and tr["ops"][-1]["rule"]["type"] == "exact":
                    rr = tr["ops"][-1]["rule"]
                    a, b, env = rr["M"][0] - 1, rr["M"][1] - 1, [x - 1 for x in rr["E"]]
                    for site, v in zip(dict.fromkeys([a, b] + env), rr["pat"]):
                        occ[site] = v
                event = Event(mobile_ion_indices=(a, b), local_env_indices=tuple(env))
                s.lookup.annotate_event(event)
                st = State(occupations=occ)
                q = {"k": "query", "ev": {"f": a + 1, "t": b + 1, "env": [x + 1 for x in env]}, "occ": list(occ),
                     "got": answer(model, st, event, r.choice([None if dp == "barrier" else "barrier", "barrier"])),
                     "lab": answer(model, st, event, r.choice([None if dp == "label" else "label", "label"])),
                     "again": answer(again, st, event, None if dp == "barrier" else "barrier"),
                     "againlab": answer(again, st, event, None if dp == "label" else "label")}
                try:
                    q["rate"] = to_barrier(model.compute_probability(event=event, runtime_config=rc, simulation_state=st), T, nu)
                except (KeyError, ValueError, IndexError):
                    q["rate"] = NOB
                if list(st.occupations) != list(occ):
                    q["got"] = -99
                tr["ops"].append(q)
    except Exception as exc:
        tr["raised"] = describe(exc)
    return tr


def main():
    a = args()
    with tempfile.TemporaryDirectory() as tmp:
        write_json(a.out, [one(a.seed, k, tmp) for k in range(a.n)])


if __name__ == "__main__":
    main()
