"""Composite (KRA + site energy) models in the real engine, hop by hop."""
from __future__ import annotations

import sitefns
from kmcsys import *  # noqa: F401,F403

from kmcpy.models.composite_lce_model import CompositeLCEModel  # noqa: E402
from kmcpy.models.local_cluster_expansion import LocalClusterExpansion  # noqa: E402
from kmcpy.models.site_energy import SiteEnergyModel  # noqa: E402
from kmcpy.simulator.kmc import KMC  # noqa: E402
from kmcpy.simulator.state import State  # noqa: E402

NORATE = -1000000001
NQ = 3   # states covered by the tables


def random_lce(r, L, lo, hi):
    """(kmcpy payload, parameters, spec record)"""
    dec = r.random() < 0.6
    feat, bas = [], []
    nb = r.choice([1, 2])
    for _ in range(r.randint(1, 4)):
        size = r.randint(1, min(3, L))
        cl = [sorted(r.sample(range(L), size)) if r.random() < 0.8 else r.sample(range(L), size)
              for _ in range(r.randint(1, 3))]
        feat.append(cl)
        d = [r.randrange(nb) for _ in range(size)]
        bas.append([list(d) if r.random() < 0.7 else [r.randrange(nb) for _ in d] for _ in cl])
    if nb == 1 and r.random() < 0.5:
        tab = [[[-1], [1], [1]] for _ in range(L)]
    elif nb == 2 and r.random() < 0.5:
        tab = [[[-1, 1], [0, -1], [1, 1]] for _ in range(L)]
    else:
        tab = [[[r.randint(-2, 2) for _ in range(nb)] for _ in range(NQ)] for _ in range(L)]
    keci = [r.randint(-20, 20) for _ in feat]
    empty = r.randint(lo, hi)
    data = {"@module": "kmcpy.models.local_cluster_expansion", "@class": "LocalClusterExpansion", "cluster_site_indices": feat}
    if dec:
        data.update(basis={"@class": "ChebyshevBasis", "name": "chebyshev", "max_states": NQ},
                    correlation_basis_indices=bas, site_basis_values=tab)
    else:
        data["basis"] = {"@class": "OccupationBasis", "name": "occupation"}
    spec = {"dec": dec, "feat": [[[x + 1 for x in c] for c in f] for f in feat],
            "bas": [[[x + 1 for x in c] for c in f] for f in bas], "tab": tab, "keci": keci, "empty": empty}
    return data, {"keci": [float(k) for k in keci], "empty_cluster": float(empty)}, spec


def build_lce(r, data, par):
    m = LocalClusterExpansion.from_dict(json.loads(json.dumps(data)))
    m.set_parameters(dict(par))
    return m


BAD_EXT = ["missing_site", "negative", "outside", "merged", "missing_state", "units", "order"]


def random_ext(r, s, evs, occ, bad=""):
    """External model: kwargs for SiteEnergyModel, runtime kwargs, spec record."""
    n = s.n
    labels = None
    size = n + r.randint(0, 3)
    identity = r.random() < 0.2 and not bad
    emap = list(range(n)) if identity else r.sample(range(size), n)
    style = "ints" if identity else r.choice(["ints", "halves", "labels"])
    if style == "labels":
        names = {"Na": "Na", "X": r.choice(["X", "Vacancy"]), "Mg": "Magnesium", "Si": "Si", "P": "P", "Al": "Al", "K": "K", "": ""}
        allnames = list(names.values()) + ["fixed"]
        labels = {nm: v / 2 for nm, v in zip(allnames, r.sample(range(-6, 7), len(allnames)))}
        by_site = {i: {q: names[sp] for q, sp in enumerate(s.allowed[i])} for i in range(n)}
        fill = "fixed"
        num = lambda v: int(2 * labels[v])
        same = False
    else:
        pool = [-2, 0, 2, 4, 6] if style == "ints" else [-3, -1, 0, 1, 2, 3]
        conv = (lambda v: v // 2) if style == "ints" else (lambda v: v / 2)
        same = r.random() < 0.4 or identity
        if identity:
            by_site = {i: {q: q for q in range(3)} for i in range(n)}
            num = lambda v: 2 * v
        else:
            glob = {q: conv(r.choice(pool)) for q in range(3)}
            by_site = {i: (dict(glob) if same else {q: conv(r.choice(pool)) for q in range(len(s.allowed[i]))}) for i in range(n)}
            if style == "halves" and same and r.random() < 0.5:
                glob[s.allowed[0] and 0] = 1
            num = lambda v: int(round(2 * v))
        fill = conv(r.choice(pool))
        if style == "halves" and not same and r.random() < 0.5:
            # whole numbers in the starting occupation, halves reached later
            fill = 1
            for i in range(n):
                for q in by_site[i]:
                    by_site[i][q] = r.choice([-1, 0, 2]) if q == occ[i] else r.choice([-0.5, 0.5, 1.5])
    base = [fill] * size
    kw = {}
    if not identity:
        full = size if r.random() < 0.5 else None
        if r.random() < 0.3:
            base = [r.choice([v for m in by_site.values() for v in m.values()] + [fill]) for _ in range(size)]
            if labels is not None and r.random() < 0.6:
                base = [r.choice(["Na", "P", "K"]) for _ in range(size)]
            elif style == "halves" and fill == 1:
                base = [r.choice([0, 1, 2]) for _ in range(size)]
            kw["initial_occupation"] = base if r.random() < 0.5 else tuple(base)
        else:
            kw["external_fill_value"] = fill
            if full:
                kw["external_size"] = size
            else:
                size = max(emap) + 1
                base = base[:size]
        kw["site_mapping"] = (list(emap) if r.random() < 0.4 else
                              {(str(k) if r.random() < 0.5 else k): v for k, v in enumerate(emap)})
        if same:
            kw["state_mapping"] = dict(by_site[0]) if r.random() < 0.6 else [by_site[0][q] for q in range(3)]
        else:
            kw["state_mapping_by_site"] = {(str(k) if r.random() < 0.5 else k): dict(v) for k, v in by_site.items()}
            if r.random() < 0.3:  # a global mapping with exceptions
                first = by_site[0]
                kw["state_mapping"] = dict(first)
                for i in range(n):
                    if by_site[i] == first and r.random() < 0.8:
                        kw["state_mapping_by_site"].pop(i, None)
                        kw["state_mapping_by_site"].pop(str(i), None)
    else:
        size, base = n, [0] * n
    # doubled external values; h acts on values (2h' v/2), J on products (4J')
    hp = [r.randint(-6, 6) for _ in range(size)]
    Jp = [(i, j, r.randint(-3, 3)) for i in range(size) for j in range(i + 1, size) if r.random() < 0.15]
    val = [[num(by_site[i].get(q, fill)) if q in by_site[i] else 0 for q in range(3)] for i in range(n)]
    spec = {"map": [x + 1 for x in emap], "base": [num(v) for v in base], "val": val, "h": hp,
            "J": [[i + 1, j + 1, c] for i, j, c in Jp]}
    rt = {"h": [2 * x for x in hp], "J": [[i, j, 4 * c] for i, j, c in Jp], "labels": labels}
    return kw, rt, spec, num


def breaker(r, kw, s, evs, bad):
    """Turn valid mapping arguments into invalid ones; False if not applicable."""
    m = kw.get("site_mapping")
    if bad in ("missing_site", "negative", "outside", "merged"):
        if m is None:
            return False
        m = dict(enumerate(m)) if isinstance(m, list) else {int(k): v for k, v in m.items()}
        i = r.randrange(s.n)
        if bad == "missing_site":
            m.pop(i)
        elif bad == "negative":
            m[i] = -1
        elif bad == "outside":
            if "external_size" not in kw and "initial_occupation" not in kw:
                return False
            m[i] = (kw.get("external_size") or len(kw["initial_occupation"])) + r.randint(0, 2)
        else:
            if s.n < 2:
                return False
            j = r.choice([x for x in range(s.n) if x != i])
            m[i] = m[j]
        kw["site_mapping"] = m
        return True
    if bad == "missing_state":
        if "state_mapping_by_site" not in kw or "state_mapping" in kw:
            return False
        a, b, _ = r.choice(evs)
        site = r.choice([a, b])
        mp = {int(k): dict(v) for k, v in kw["state_mapping_by_site"].items()}
        mp[site].pop(r.choice([s.mob[site], s.vac[site]]))
        kw["state_mapping_by_site"] = mp
        return True
    if bad == "units":
        kw["units"] = r.choice(["J", "kJ/mol", "Ry"])
        return True
    if bad == "order":
        kw["active_site_order_hash"] = "0" * 64
        return True
    return False


def enc(x, T, nu):
    v = to_barrier(x, T, nu)
    return NORATE if v == ZERO else (1999999999 if v == BADRATE else v)


def one(seed, k, mode, nsteps):
    r = rng_for(seed, "composite", mode, k)
    while True:
        s = random_system(r, max_sites=r.choice([5, 8, 12]))
        evs = random_events(r, s)
        L = r.randint(1, min(4, s.n - 2)) if s.n > 2 else 0
        if L == 0:
            continue
        evs = [(a, b, r.sample([i for i in range(s.n) if i not in (a, b)], L)) for a, b, _ in evs]
        occ = random_occ(r, s)
        if available(s, occ, evs):
            break
    kind = "ext" if mode == "ext" else r.choice(["none", "lce", "lce"])
    kd, kp, kspec = random_lce(r, L, 150, 400)
    T, nu = r.choice([300.0, 650.0, 1100.0]), r.choice([1e13, 5e12])
    cfg = config_for(s, temperature=T, attempt_frequency=nu)
    sd = sp = None
    lspec = dict(kspec)
    espec = {"map": [1] * s.n, "base": [0], "val": [[0]] * s.n, "h": [0], "J": []}
    num, ekw, rt, bad = None, {}, {}, ""
    if kind == "lce":
        sd, sp, lspec = random_lce(r, L, -60, 60)
    if kind == "ext":
        bad = r.choice(BAD_EXT) if r.random() < 0.25 else ""
        ekw, rt, espec, num = random_ext(r, s, evs, occ, bad)
        if bad and not breaker(r, ekw, s, evs, bad):
            bad = ""
        units = r.choice(["eV", "meV", "ev", " MEV "])
        ekw.setdefault("units", units)
    factor = 0.001 if str(ekw.get("units", "")).strip().lower() == "ev" else 1.0
    by_ref = r.random() < 0.5
    subset = r.random() < 0.5
    runtimes = []

    def build():
        kra = build_lce(r, kd, kp)
        site = None
        if kind == "lce":
            site = build_lce(r, sd, sp)
        elif kind == "ext":
            kw = dict(ekw)
            kw["compute_kwargs"] = {"factor": factor}
            if by_ref:
                kw.update(runtime_ref="sitefns:build", runtime_kwargs=rt, compute_ref=r.choice(["sitefns:delta", "sitefns.delta_all"]),
                          apply_ref="sitefns:apply_subset" if subset else "sitefns:apply_all")
                site = SiteEnergyModel(**kw)
                if r.random() < 0.7:
                    site = SiteEnergyModel.from_dict(json.loads(json.dumps(site.as_dict())))
            else:
                kw.update(runtime=sitefns.Runtime(**rt), compute_fn=sitefns.delta if r.random() < 0.5 else sitefns.delta_all,
                          apply_fn=sitefns.apply_subset if subset else sitefns.apply_all)
                site = SiteEnergyModel(**kw)
        return CompositeLCEModel(kra_model=kra, site_model=site)

    def engine(state):
        model = build()
        kmc = KMC(structure=s.structure, model=model, event_lib=make_lib(evs, s.order), config=cfg,
                  simulation_state=state, hop_state_lookup=s.lookup, active_site_order=s.order)
        if kind == "ext":
            site = model.site_model
            site.runtime.mirror = list(site.external_occupation)
        return kmc

    def rates(kmc):
        return [enc(x, T, nu) for x in np.asarray(kmc.prob_list, dtype=float)]

    def observe(kmc, state):
        o = {"occ": [int(x) for x in state.occupations], "rates": rates(kmc),
             "fresh": rates(engine(State(occupations=list(state.occupations)))),
             "kra": [as_int(kmc.model.kra_model.compute(simulation_state=state, event=e)) for e in kmc.event_lib.events],
             "ext": [], "mirror": []}
        if kind == "ext":
            site = kmc.model.site_model
            o["ext"] = [num_(v) for v in site.external_occupation]
            o["mirror"] = [num_(v) for v in site.runtime.mirror]
        return o

    def num_(v):
        try:
            return num(v.item() if hasattr(v, "item") else v)
        except Exception:
            return 1999999999

    sysrec = {"n": s.n, "mob": s.mob, "vac": s.vac, "kra": kspec,
              "ev": [{"f": a + 1, "t": b + 1, "env": [x + 1 for x in e]} for a, b, e in evs],
              "site": {"kind": kind, "lce": lspec, "ext": espec}}
    tr = {"id": f"composite:{mode}:{seed}:{k}", "sys": sysrec, "occ0": occ, "init": {}, "hasinit": False, "steps": [], "raised": "",
          "refuse": {"want": bool(bad), "got": False, "how": bad}}
    try:
        state = State(occupations=list(occ))
        try:
            kmc = engine(state)
        except ValueError as exc:
            tr["refuse"]["got"] = True
            tr["refuse"]["how"] += " " + describe(exc)
            return tr
        if bad:
            return tr
        tr["init"] = observe(kmc, state)
        tr["hasinit"] = True
        for _ in range(nsteps):
            av = available(s, state.occupations, evs)
            if not av:
                break
            e = r.choice(av)
            log0 = len(kmc.model.site_model.runtime.log) if kind == "ext" else 0
            kmc.update(kmc.event_lib.events[e], dt=0.5)
            st = {"e": e + 1, "haschg": kind == "ext", "chg": []}
            if kind == "ext":
                for entry in kmc.model.site_model.runtime.log[log0:]:
                    st["chg"] += [[a + 1, b + 1, c, d, num_(x), num_(y)] for a, b, c, d, x, y in entry]
            st["obs"] = observe(kmc, state)
            tr["steps"].append(st)
    except Exception as exc:
        tr["raised"] = describe(exc)
    return tr


def main():
    a = args()
    write_json(a.out, [one(a.seed, k, a.mode, 8) for k in range(a.n)])


if __name__ == "__main__":
    main()
