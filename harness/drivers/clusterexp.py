"""Real local environments and local cluster expansions on random crystals."""
from lib import *  # noqa: F401,F403

from pymatgen.core import DummySpecies, Element, Species

from kmcpy.event import Event
from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
from kmcpy.simulator.state import State
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
from kmcpy.structure.lattice_structure import LatticeStructure

U = 0.5          # positions are even multiples of 0.5 Angstrom, centres any multiple
S4 = 27 ** 4
OXI = {"Na": 1, "Mg": 2, "Si": 4, "P": 5, "Al": 3, "Li": 1, "O": -2, "S": -2}
BLANK = {"k": "", "c": [0, 0, 0], "ci": 0, "cut": 0, "excl": False, "keys": [], "rank": {"X": 0}, "ok": False, "env": [], "e": 0, "f": 0,
         "m": 0, "lim": [], "basis": "", "sp": [], "codes": [], "corr": [], "keci": [], "e0": 0, "val": 0, "w": [], "same": False, "eq": False,
         "loc": []}
ORDERS = [None, "kmcpy_default", "nasicon_nat_commun_2022", ["cartesian_x"], ["cartesian_y"], ["species_string", "cartesian_y"], ["species", "cartesian_z"]]


class World:
    def __init__(self, seed, k):
        r = self.r = rng_for(seed, "clusterexp", k)
        while True:
            m = [[r.choice([6, 8, 10, 12]), 0, 0], [0, r.choice([6, 8, 10]), 0], [0, 0, r.choice([8, 8, 12])]]
            if r.random() < 0.4:
                m[1][0], m[2][0], m[2][1] = (r.choice([0, 2, -2]) for _ in range(3))
            n = r.randint(1, 6)
            grid = [(x, y, z) for x in range(0, m[0][0], 2) for y in range(0, m[1][1], 2) for z in range(0, m[2][2], 2)]
            if r.random() < 0.5:
                grid = [g for g in grid if all(c % 4 == 0 for c in g)]
            xs = r.sample(grid, min(n, len(grid)))
            break
        self.m, self.xs = m, [list(x) for x in xs]
        self.sp = [r.choice(["Na", "Na", "Na", "Si", "Si", "Li", "O"]) for _ in xs]
        half = [v // 2 for v in m[r.randrange(3)]]
        if r.random() < 0.35 and len(xs) <= 3 and all(v % 2 == 0 for v in half):
            # a centred cell: every site has a translated copy
            twin = [[a + b for a, b in zip(x, half)] for x in self.xs]
            if all(not np.allclose((f := np.subtract(a, b) @ np.linalg.inv(np.array(m, float))), np.round(f)) for a in self.xs for b in twin):
                self.xs, self.sp = self.xs + twin, self.sp * 2
        self.basis = r.choice(["chebyshev", "chebyshev", "occupation"])
        two = self.basis == "occupation"
        pick = lambda *o: r.choice([x for x in o if len(x) <= 2 or not two])  # noqa: E731
        self.map = {"Na": pick(["Na", "X"], ["X", "Na"], ["Na", "X", "Mg"], ["Na", "Mg", "X", "Li"]), "Li": pick(["Li", "X"], ["Li", "Mg"], ["Li", "Na", "X"]),
                    "Si": pick(["Si", "P"], ["P", "Si"], ["Si", "P", "Al"], ["Si"]), "O": ["O"]}
        self.lat = Lattice(np.array(m, float) * U)
        self.st = Structure(self.lat, [Species(s, OXI[s]) if r.random() < 0.2 else s for s in self.sp],
                            [np.array(x) * U for x in self.xs], coords_are_cartesian=True)
        self.act = [i for i, s in enumerate(self.sp) if len(self.map[s]) > 1]
        self.envs, self.models = [], []

    def env_op(self):
        r = self.r
        o = dict(BLANK, k="env", basis=self.basis)
        order = r.choice(ORDERS)
        keys = {None: ["species_string"], "kmcpy_default": ["species_string"], "nasicon_nat_commun_2022": ["species", "cartesian_x"]}.get(
            order if not isinstance(order, list) else 0, order)
        excl = order == "nasicon_nat_commun_2022"
        kw = {}
        if isinstance(order, list):
            excl = r.random() < 0.5
            order = {"name": "custom", "sort_keys": order, "exclude_center_site": excl}
        if r.random() < 0.3:
            excl = kw["exclude_center_site"] = r.random() < 0.5
        names = sorted(set(self.sp))
        if "species" in keys:
            names = [e.symbol for e in sorted(Element(x) for x in names)]
        ci = r.randrange(len(self.xs))
        if r.random() < 0.6 and (ci in self.act or r.random() < 0.2):
            center, c = ci, self.xs[ci]
        else:
            a, b = self.xs[ci], self.xs[r.randrange(len(self.xs))]
            c = [(u + v) // 2 for u, v in zip(a, b)]
            frac = np.array(c) * U @ np.linalg.inv(self.lat.matrix)
            center, ci = r.choice([list(frac), tuple(frac), np.array(frac)]), -1
        near = []
        for i in self.act:
            d = (np.array(list(np.ndindex(7, 7, 7))) - 3) @ np.array(self.m) + np.array(self.xs[i]) - np.array(c)
            near += [int(x) for x in (d * d).sum(axis=1) if x > 0 or not excl]
        near = sorted(x for x in near if x <= 84)
        if ci in self.act + [-1]:
            sizes = {x: near.count(x) + sum(y < x for y in near) for x in near}
            big = [x for x, k in sizes.items() if 4 <= k <= 8]
            fit = [x for x, k in sizes.items() if k <= 8]
            if not fit:
                return None
            cut = r.choice(big if big and r.random() < 0.7 else fit)
        else:
            cut = r.randint(4, 84)
        # from just beyond the last neighbour to just before the next
        nxt = min([x for x in near if x > cut] + [cut + 1])
        radius = r.choice([U * math.sqrt(cut) + 2e-3, U * math.sqrt(nxt) - 2e-3, U * math.sqrt((cut + nxt) / 2)])
        o.update(c=c, ci=ci + 1, cut=cut, excl=excl, rank={s: i for i, s in enumerate(names)},
                 keys=[{"species_string": "species"}.get(x, x).replace("cartesian_", "") for x in keys])
        args_ = dict(center=center, cutoff=radius, site_mapping=self.map, basis_type=self.basis, local_site_order=order, **kw)
        before = self.st.copy()
        try:
            if r.random() < 0.2:
                e = LocalLatticeStructure.from_lattice_structure(LatticeStructure(self.st, self.map, self.basis), **args_)
            else:
                e = LocalLatticeStructure(self.st, **args_)
        except ValueError:
            return o
        if before != self.st:
            raise RuntimeError("the template changed")
        o["ok"] = True
        o["env"] = self.listing(e)
        self.envs.append(e)
        return o

    def listing(self, e):
        return [{"p": int(i) + 1, "x": [as_int(v, 1 / U, 1e-3) for v in s.coords], "sp": s.specie.symbol} for i, s in zip(e.site_indices, e.structure)]

    def atoms(self):
        sp = [self.r.choice(self.map[self.sp[i]]) for i in self.act]
        return sp

    def structure(self, sp):
        r = self.r
        place = lambda i: np.array(self.xs[i]) * U  # noqa: E731
        sym = lambda s: DummySpecies("X", 0) if s == "X" else Species(s, OXI[s]) if r.random() < 0.2 else s  # noqa: E731
        mode = r.choice(["active", "full", "sparse"])
        full = dict(zip(self.act, sp))
        items = [(i, full.get(i, self.sp[i])) for i in range(len(self.xs)) if mode != "active" or i in full]
        items = [x for x in items if x[1] != "X"]
        if len(items) != len(self.xs):
            r.shuffle(items)
        if not any(i in full for i, _ in items):
            return None
        return Structure(self.lat, [sym(s) for _, s in items], [place(i) + (np.array([r.choice([0, 0, 1, -1]) for _ in range(3)]) @ self.lat.matrix)
                                                               for i, _ in items], coords_are_cartesian=True)

    def op(self):
        r = self.r
        if not self.envs or r.random() < 0.15:
            return self.env_op()
        o = dict(BLANK, basis=self.basis)
        k = r.choice(["model", "corr", "corr", "corr", "eval", "match", "ref", "take", "take"])
        if k == "model" or (not self.models and k in ("corr", "eval", "ref", "take")):
            e = r.choice(self.models)[1] if self.models and r.random() < 0.5 else r.randrange(len(self.envs))
            pos = np.array([s.coords for s in self.envs[e].structure]) / U
            ds = sorted({int(round(((p - q) ** 2).sum())) for p in pos for q in pos} - {0}) or [8]
            lim = [r.choice([-1] + ds + [ds[-1]] * len(ds)) for _ in range(3)]
            model = LocalClusterExpansion()
            model.build(self.envs[e], cutoff_cluster=[0.0 if x < 0 else U * r.choice([math.sqrt(x + 0.5), math.sqrt(x) + 1e-3, math.sqrt(x + 1) - 1e-3])
                                                         for x in lim])
            if r.random() < 0.3:
                again = LocalClusterExpansion.from_dict(json.loads(json.dumps(model.as_dict())))
                model = (again, True)
            else:
                model = (model, False)
            self.models.append((model[0], e, model[1]))
            o.update(k="model", e=e + 1, lim=[400] + lim)
            return o
        if k in ("corr", "ref"):
            mi = r.randrange(len(self.models))
            model, e, loaded = self.models[mi]
            f = r.randrange(len(self.envs)) if k == "ref" else e
            sp = self.atoms()
            st = self.structure(sp)
            if st is None:
                return None
            o.update(k="corr", m=mi + 1, f=f + 1, sp=sp)
            ref = self.envs[f] if k == "ref" or loaded or r.random() < 0.5 else None
            before = st.copy()
            try:
                if r.random() < 0.3:
                    corr = model.get_corr_from_structure(st, ref)
                    o["codes"] = []
                else:
                    occ, corr = model.get_occ_corr_from_structure(st, ref)
                    o["codes"] = [int(v) for v in occ.values]
            except ValueError:
                return o
            o.update(ok=True, corr=[as_int(v, S4, 1e-2) for v in corr])
            if before != st:
                raise RuntimeError("the structure changed")
            return o
        if k == "eval":
            mi = r.randrange(len(self.models))
            model, e, _ = self.models[mi]
            nf = len(model.get_orbit_fingerprints())
            keci = [0] * nf
            for _ in range(3):
                keci[r.randrange(nf)] = r.choice([-2, -1, 1, 2, 3])
            # an event of a larger simulation: its neighbours anywhere in the state
            env = self.envs[e]
            q = [len(self.map[s.specie.symbol]) for s in env.structure]
            loc = [r.randrange(n) for n in q]
            size = len(q) + r.randint(0, 4)
            where = r.sample(range(size), len(q))
            state = [r.randint(0, 1) for _ in range(size)]
            for i, v in zip(where, loc):
                state[i] = v
            e0 = r.choice([0, 1, -3])
            model.set_parameters({"keci": keci, "empty_cluster": e0, "orbit_fingerprints": model.get_orbit_fingerprints(),
                                  "local_environment_hash": model.local_environment_hash})
            event = Event(mobile_ion_indices=(0, 1), local_env_indices=tuple(where))
            val = model.compute(State(occupations=state), event)
            o.update(k=k, m=mi + 1, loc=loc, keci=keci, e0=e0, val=as_int(val, S4, 2e-2))
            return o
        if k == "take":
            # coefficients fitted for one model handed to another, or to the same with two of them exchanged
            mi = r.randrange(len(self.models))
            giver = self.models[mi][0]
            fp = giver.get_orbit_fingerprints()
            pool = [j for j, x in enumerate(self.models) if len(x[0].get_orbit_fingerprints()) == len(fp)]
            fi = r.choice(pool if r.random() < 0.8 else range(len(self.models)))
            sw = sorted(r.sample(range(len(fp)), 2)) if len(fp) > 1 and r.random() < 0.3 else [0, 0]
            fp[sw[0]], fp[sw[1]] = fp[sw[1]], fp[sw[0]]
            o.update(k=k, m=mi + 1, f=fi + 1, e=sw[1], ok=True)
            try:
                self.models[fi][0].set_parameters({"keci": list(range(1, len(fp) + 1)), "empty_cluster": 0, "orbit_fingerprints": fp,
                                                   "local_environment_hash": giver.local_environment_hash})
            except ValueError:
                o["ok"] = False
            return o
        a, b = r.randrange(len(self.envs)), r.randrange(len(self.envs))
        ea, eb = self.envs[a], self.envs[b]
        o.update(k="match", e=a + 1, f=b + 1, same=ea.get_ordered_site_hash() == eb.get_ordered_site_hash(), eq=bool(ea.is_equivalent_to(eb)))
        try:
            got = eb.match_with_reference(ea)
        except ValueError:
            return o
        lb, lg = self.listing(eb), self.listing(got)
        o.update(ok=True, w=[lb.index(x) + 1 if x in lb else 0 for x in lg])
        return o


def trial(seed, k):
    w = World(seed, k)
    t = {"id": "clusterexp:%d:%d" % (seed, k), "T": {"lat": w.m, "site": [{"x": x, "sp": s} for x, s in zip(w.xs, w.sp)], "map": w.map, "rank": {"X": 0}},
         "ops": [], "raised": ""}
    if not w.act:
        return t
    try:
        for _ in range(w.r.randint(6, 16)):
            o = w.op()
            if o is not None:
                t["ops"].append(o)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    write_json(a.out, [trial(a.seed, k) for k in range(a.n)])
