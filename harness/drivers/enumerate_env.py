"""Real enumerations of local environments and hop end points."""
from lib import *  # noqa: F401,F403

import itertools

from pymatgen.core import DummySpecies, Element

import clusterexp as ce
from kmcpy.event import Event
from kmcpy.structure import (LatticeStructure, enumerate_local_environments, enumerate_neb_endpoint_pairs,
                             generate_neb_endpoint_pair)
from kmcpy.structure.basis import Occupation

U = ce.U
BLANK = {"k": "", "c": [0, 0, 0], "cut": 0, "excl": False, "keys": [], "rank": {"X": 0}, "ask": [], "named": [], "cnt": [], "max": 0, "base": [],
         "basis": "", "ok": False, "all": True, "loc": [], "vars": [], "res": [], "a": 0, "b": 0, "given": [], "pairs": [], "again": True}
NOPAIR = {"i": [], "f": [], "ia": [], "fa": []}


def sym(site):
    return "X" if isinstance(site.specie, DummySpecies) else site.specie.symbol


class Orderings:
    """Stands for a pymatgen transformation: every ordering of the partially occupied sites."""

    def __init__(self, r):
        self.form = r.choice(["list", "dict", "one"])
        self.r = r

    def apply_transformation(self, structure, return_ranked_list=False):
        opts = []
        for s in structure:
            if s.is_ordered:
                opts.append([s.specie])
            else:
                opts.append(list(s.species) + ([None] if sum(s.species.values()) < 0.999 else []))
        out = []
        for c in itertools.product(*opts):
            keep = [i for i, e in enumerate(c) if e is not None]
            st = Structure(structure.lattice, [c[i] for i in keep], [structure[i].frac_coords for i in keep])
            out.append({"structure": st, "energy": 0.0} if self.form == "dict" else st)
        self.r.shuffle(out)
        if self.form == "one" or not return_ranked_list:
            return out[0] if isinstance(out[0], Structure) else out[0]["structure"]
        return out


class World(ce.World):
    def __init__(self, seed, k):
        ce.World.__init__(self, seed * 31 + 7, k)
        self.ls = LatticeStructure(self.st, self.map, self.basis)
        self.found = []

    def near(self, c, excl):
        out = []
        for n, i in enumerate(self.act):
            d = (np.array(list(np.ndindex(7, 7, 7))) - 3) @ np.array(self.m) + np.array(self.xs[i]) - np.array(c)
            out += [(int(x), n) for x in (d * d).sum(axis=1) if (x > 0 or not excl) and x <= 84]
        return sorted(out)

    def request(self):
        """An environment and a request over it, as (keyword arguments, record)."""
        r = self.r
        o = dict(BLANK, basis=self.basis)
        order = r.choice(ce.ORDERS)
        keys = {None: ["species_string"], "kmcpy_default": ["species_string"], "nasicon_nat_commun_2022": ["species", "cartesian_x"]}.get(
            order if not isinstance(order, list) else 0, order)
        excl = order == "nasicon_nat_commun_2022"
        kw = {}
        if isinstance(order, list):
            excl = r.random() < 0.5
            order = {"name": "custom", "sort_keys": order, "exclude_center_site": excl}
        if r.random() < 0.3:
            excl = kw["exclude_center_site"] = r.random() < 0.5
        names = sorted(set(self.sp))
        if "species" in keys:
            names = [e.symbol for e in sorted(Element(x) for x in names)]
        if r.random() < 0.6:
            n = r.randrange(len(self.act))
            center, c = n, self.xs[self.act[n]]
        else:
            a, b = r.choice(self.xs), r.choice(self.xs)
            c = [(u + v) // 2 for u, v in zip(a, b)]
            frac = np.array(c) * U @ np.linalg.inv(self.lat.matrix)
            center = r.choice([list(frac), tuple(frac), np.array(frac)])
        near = self.near(c, excl)
        fit = [x for j, (x, _) in enumerate(near) if sum(y <= x for y, _ in near) <= 9]
        if not fit:
            return None
        cut = r.choice(fit)
        nxt = min([x for x, _ in near if x > cut] + [cut + 1])
        radius = r.choice([U * math.sqrt(cut) + 2e-3, U * math.sqrt(nxt) - 2e-3, U * math.sqrt((cut + nxt) / 2)])
        sites = sorted({n for x, n in near if x <= cut})
        o.update(c=c, cut=cut, excl=excl, rank={s: i for i, s in enumerate(names)},
                 keys=[{"species_string": "species"}.get(x, x).replace("cartesian_", "") for x in keys])
        kw.update(center=center, cutoff=radius, local_site_order=order)
        if r.random() < 0.4:
            o["ask"] = r.choice([["Na", "X"], ["Si", "P"], ["Na", "Mg", "X"], ["Si", "P", "Al", "X"], ["Mg"], ["Li", "X", "P", "Si"]])
            kw["variable_species"] = [r.choice(["X", "Va", "Vacancy"]) if e == "X" else e for e in o["ask"]]
        if r.random() < 0.4:
            named = r.sample(sites, r.randint(1, len(sites)))
            if r.random() < 0.1:
                named.append(r.randrange(len(self.act) + 1))
            o["named"] = [n + 1 for n in named]
            kw["variable_site_indices"] = r.choice([list, tuple])(named)
        offered = lambda n: [e for e in self.map[self.sp[self.act[n]]] if not o["ask"] or e in o["ask"]]  # noqa: E731
        var = sorted(set(x - 1 for x in o["named"] if x <= len(self.act))) or [n for n in sites if len(offered(n)) > 1]
        size = 1
        for n in var:
            size *= max(1, len(offered(n)))
        if size > 96:
            return None
        if r.random() < 0.5 and var:
            pick = [r.choice(offered(n) or ["Na"]) for n in var]
            cnt = {e: pick.count(e) for e in pick}
            for e in ("Na", "X", "P"):
                if r.random() < 0.2:
                    cnt.setdefault(e, 0)
            if r.random() < 0.15:
                e = r.choice(sorted(cnt))
                cnt[e] = max(0, cnt[e] + r.choice([-1, 1]))
            o["cnt"] = [{"e": e, "n": n} for e, n in cnt.items()]
            vac = r.choice(["X", "Va", "Vacancy"])
            kw["species_counts"] = {vac if e == "X" else e: n for e, n in cnt.items()}
        sp = self.atoms()
        o["base"] = [self.code(n, e) for n, e in enumerate(sp)]
        st = self.structure(sp)
        if st is not None and r.random() < 0.6:
            kw["base_structure"] = st
        else:
            sp = [self.map[self.sp[i]][0] for i in self.act]
            o["base"] = [self.code(n, e) for n, e in enumerate(sp)]
        o["max"] = 10000
        if r.random() < 0.25:
            o["max"] = kw["max_results"] = r.choice([0, 1, 2, 3, 5])
        if r.random() < 0.3 and any(sp[n] != "X" for n in range(len(sp)) if n not in var) and all(set(offered(n)) - {"X"} for n in var):
            t = kw["transformation"] = Orderings(r)
            if r.random() < 0.2:
                kw["return_ranked_list"] = r.choice([False, 50])
            o["all"] = t.form != "one" and kw.get("return_ranked_list", True) is not False
        return kw, o

    def code(self, n, e):
        k = self.map[self.sp[self.act[n]]].index(e)
        return (1 if k == 0 else 0) if self.basis == "occupation" else k

    def pos(self, st):
        """Positions, moved by lattice vectors onto the template's where they are the same site."""
        out = []
        inv = np.linalg.inv(np.array(self.m, float))
        for s in st:
            x = [as_int(v, 1 / U, 1e-3) for v in s.coords]
            for y in self.xs:
                f = (np.array(x) - y) @ inv
                if np.allclose(f, np.round(f), atol=1e-6):
                    x = list(y)
            out.append({"x": x, "sp": sym(s)})
        return out

    def result(self, e):
        return {"codes": [int(v) for v in e.full_occupation.values], "local": [int(v) for v in e.local_occupation.values],
                "by": [{"n": int(n) + 1, "e": x} for n, x in sorted(e.species_by_site.items())], "atoms": self.pos(e.structure)}

    def pair(self, p):
        return {"i": [int(v) for v in p.initial_occupation.values], "f": [int(v) for v in p.final_occupation.values],
                "ia": self.pos(p.initial), "fa": self.pos(p.final)}

    def hop(self, start=None):
        r = self.r
        a, b = r.randrange(len(self.act)), r.randrange(len(self.act))
        same = [(x, y) for x in range(len(self.act)) for y in range(len(self.act)) if x != y and self.sp[self.act[x]] == self.sp[self.act[y]] == "Na"]
        if same and r.random() < 0.7:
            a, b = r.choice(same)
        if start is not None:
            a, b = start, r.choice([y for x, y in same if x == start] or [b])
        if r.random() < 0.05:
            b = len(self.act)
        arg = r.choice([(a, b), [a, b], Event(mobile_ion_indices=(a, b), local_env_indices=())])
        return a, b, arg

    def op(self):
        r = self.r
        k = r.choice(["enum", "enum", "pair", "pair", "pairs"])
        if k in ("enum", "pairs"):
            got = self.request()
            if got is None:
                return None
            kw, o = got
            o["k"] = k
            before = self.st.copy()
            if k == "pairs":
                start = kw["center"] if isinstance(kw["center"], int) and r.random() < 0.7 else None
                a, b, arg = self.hop(start)
                if start is not None and r.random() < 0.8:
                    kw.pop("center")   # the center is where the hop starts
                o.update(a=a + 1, b=b + 1)
                try:
                    got = enumerate_neb_endpoint_pairs(self.ls, arg, **kw)
                except (ValueError, IndexError):
                    return o
                o.update(ok=True, pairs=[self.pair(p) for p in got])
                return o
            try:
                got = enumerate_local_environments(self.ls, **kw)
            except (ValueError, IndexError):
                return o
            o["ok"] = True
            o["res"] = [self.result(e) for e in got]
            if got:
                o["loc"] = [int(n) + 1 for n in got[0].local_site_indices]
                o["vars"] = [int(n) + 1 for n in got[0].variable_site_indices]
                self.found += [(e, o["res"][j]["codes"]) for j, e in enumerate(got[:4])]
                if any(e.local_site_indices != got[0].local_site_indices or e.variable_site_indices != got[0].variable_site_indices for e in got):
                    raise RuntimeError("results over different sites")
                if len({e.label for e in got}) != len(got):
                    raise RuntimeError("results with equal labels")
            if "transformation" not in kw and r.random() < 0.2:
                o["again"] = [self.result(e) for e in enumerate_local_environments(self.ls, **kw)] == o["res"]
            if before != self.st:
                raise RuntimeError("the template changed")
            return o
        o = dict(BLANK, k="pair", basis=self.basis)
        a, b, arg = self.hop()
        form = r.choice(["found", "list", "occ", "full"])
        if form == "found" and self.found:
            env, codes = r.choice(self.found)
        else:
            codes = [self.code(n, e) for n, e in enumerate(self.atoms())]
            if r.random() < 0.1:
                codes = codes[:-1] if len(codes) > 1 else codes + [0, 0, 0, 0, 0, 0]
                if len(codes) == len(self.xs):
                    return None
            env = list(codes)
            if form == "full" and len(codes) == len(self.act):
                env = [codes[self.act.index(i)] if i in self.act else r.choice([0, 1]) for i in range(len(self.xs))]
            if form == "occ":
                env = Occupation(env, basis=self.ls.basis, validate=False)
        o.update(a=a + 1, b=b + 1, given=codes)
        try:
            p = generate_neb_endpoint_pair(self.ls, env, arg)
        except (ValueError, IndexError):
            return o
        o.update(ok=True, pairs=[self.pair(p)])
        return o


def trial(seed, k):
    w = World(seed, k)
    while all("X" in w.map[s] for s in w.sp):   # an empty crystal is not a structure
        k += 100003
        w = World(seed, k)
    t = {"id": "enumerate:%d:%d" % (seed, k), "T": {"lat": w.m, "site": [{"x": x, "sp": s} for x, s in zip(w.xs, w.sp)], "map": w.map, "rank": {"X": 0}},
         "ops": [], "raised": ""}
    if len(w.act) < 1:
        return t
    try:
        for _ in range(w.r.randint(6, 14)):
            o = w.op()
            if o is not None:
                t["ops"].append(o)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    write_json(a.out, [trial(a.seed, k) for k in range(a.n)])
