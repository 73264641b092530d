"""Real lattice objects: supercells, occupations of structures and structures of occupations."""
from lib import *  # noqa: F401,F403

from pymatgen.core import DummySpecies, Species

from kmcpy.structure.basis import Occupation
from kmcpy.structure.lattice_structure import LatticeStructure

G = 40
BLANK = {"k": "", "s": 1, "r": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "sites": [], "allowed": [], "atoms": [], "how": "", "map": [], "tol": 10,
         "basis": "", "ok": False, "codes": [], "lat": True}
OXI = {"Na": 1, "Mg": 2, "Si": 4, "P": 5, "Al": 3, "K": 1, "O": -2, "S": -2}
MATS = [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 2, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 3]],
        [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[1, 0, 1], [0, 1, 0], [-1, 0, 1]],
        [[1, 0, 0], [1, 1, 0], [0, 0, 2]], [[2, 0, 0], [0, 2, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 1], [1, 0, 1]]]
ID = BLANK["r"]


def det(m):
    return int(round(np.linalg.det(np.array(m, float))))


class World:
    def __init__(self, seed, k):
        r = self.r = rng_for(seed, "lattice", k)
        a = [[r.choice([4.0, 5.5, 6.0]), 0, 0], [0, r.choice([4.0, 5.0]), 0], [0, 0, r.choice([4.5, 6.0])]]
        if r.random() < 0.4:
            a[1][0], a[2][1] = r.choice([0.0, 1.0, -2.0]), r.choice([0.0, 1.5])
        self.lat = np.array(a)
        n = r.randint(1, 5)
        xs = set()
        while len(xs) < n:
            xs.add(tuple(10 * r.randint(0, 3) for _ in range(3)))
        self.xs = list(xs)
        r.shuffle(self.xs)
        self.sp = [r.choice(["Na", "Na", "K", "Si", "O", "X"]) for _ in range(n)]
        self.basis = r.choice(["chebyshev", "chebyshev", "occupation"])
        two = self.basis == "occupation"
        lists = lambda *o: r.choice([x for x in o if len(x) <= 2 or not two])  # noqa: E731
        self.map = {"Na": lists(["Na", "X"], ["X", "Na"], ["Na", "Mg", "X"]), "K": lists(["Na", "X"], ["K", "X"], ["Mg", "X", "K"], ["K"]),
                    "Si": lists(["Si", "P"], ["P", "Si"], ["Si", "P", "Al"], ["Si"]), "O": lists(["O"], ["O", "S"]),
                    "X": lists(["Na", "X"], ["X", "K"])}
        vac = r.choice(["X", "X", "Va", "Vacancy"])
        keys = [q for q in self.map]
        r.shuffle(keys)
        given = {}
        for q in keys:
            v = [vac if e == "X" else e for e in self.map[q]]
            given[q] = v[0] if len(v) == 1 and r.random() < 0.5 else v
        species = [DummySpecies("X", 0) if e == "X" else Species(e, OXI[e]) if r.random() < 0.2 else e for e in self.sp]
        st = Structure(Lattice(self.lat), species, [[c / G for c in x] for x in self.xs])
        self.objs = [LatticeStructure(st, given, self.basis)]
        self.tot = [ID]
        self.act = [False]

    def pos(self, sites):
        return [[as_int(c, G, 1e-3) for c in s.coords @ np.linalg.inv(self.lat)] for s in sites]

    def symbol(self, s):
        return "X" if isinstance(s.specie, DummySpecies) else s.specie.symbol

    def allowed(self, s):
        return self.map[self.symbol(s)]

    def structure(self, atoms, m, strain=1.0):
        r = self.r
        lat = np.array(m) @ self.lat
        sp = []
        for a in atoms:
            if a["sp"] == "X":
                sp.append(DummySpecies("X", 0))
            else:
                sp.append(Species(a["sp"], OXI[a["sp"]]) if r.random() < 0.3 else a["sp"])
        cart = [np.array(a["x"], float) / G @ self.lat for a in atoms]
        frac = [c @ np.linalg.inv(lat) for c in cart]
        return Structure(Lattice(lat * strain), sp, frac, to_unit_cell=False)

    def op(self):
        r = self.r
        o = dict(BLANK, basis=self.basis)
        o["s"] = r.randint(1, len(self.objs))
        ob, m, act = self.objs[o["s"] - 1], self.tot[o["s"] - 1], self.act[o["s"] - 1]
        room = 24 // max(1, det(m) * len(self.xs))
        rel = r.choice([x for x in MATS + [ID, ID, ID] if det(x) <= max(1, room)])
        k = r.choice(["look", "look", "copy", "super", "active", "occ", "occ", "occ", "occ", "back", "back"])
        if k == "look":
            o.update(k=k, sites=self.pos(ob.template_structure),
                     allowed=[["X" if isinstance(e, DummySpecies) else e.symbol for e in a] for a in ob.allowed_species])
        elif k == "copy":
            self.objs.append(ob.copy())
            self.tot.append(m)
            self.act.append(act)
            o.update(k=k)
        elif k == "super":
            ob.make_supercell(np.array(rel))
            self.tot[o["s"] - 1] = (np.array(rel) @ np.array(m)).tolist()
            o.update(k=k, r=rel)
        elif k == "active":
            shape = r.choice([(1, 1, 1), (2, 1, 1), (1, 1, 2)]) if room >= 2 else (1, 1, 1)
            if not any(len(self.allowed(s)) > 1 for s in ob.template_structure):
                return None
            self.objs.append(ob.get_active_lattice_structure(None if shape == (1, 1, 1) and r.random() < 0.5 else shape))
            rel = np.diag(shape)
            self.tot.append((rel @ np.array(m)).tolist())
            self.act.append(True)
            o.update(k=k, r=rel.tolist())
        elif k == "back":
            sup = ob.template_structure.copy()
            sup.make_supercell(np.array(rel))
            al = [self.allowed(s) for s in sup]
            codes = [self.code(a, r.choice(a)) for a in al]
            if r.random() < 0.1:
                codes[r.randrange(len(codes))] = 3
            if r.random() < 0.1:
                codes = codes[:-1] if r.random() < 0.5 else codes + [0]
            before = self.pos(ob.template_structure)
            o.update(k=k, r=rel, sites=self.pos(sup), codes=codes)
            try:
                arg = None if rel == ID and r.random() < 0.7 else r.choice([rel, np.array(rel)])
                st = ob.get_structure_from_occ(Occupation(codes, basis=ob.basis, validate=False), sc_matrix=arg)
                o["ok"] = True
                o["atoms"] = [{"x": x, "sp": self.symbol(s)} for x, s in zip(self.pos(st), st)]
                o["lat"] = bool(np.allclose(st.lattice.matrix, np.array(rel) @ np.array(m) @ self.lat, atol=1e-6))
            except (ValueError, IndexError, KeyError):
                pass
            if self.pos(ob.template_structure) != before:
                raise RuntimeError("the lattice object changed")
        else:
            sup = ob.template_structure.copy()
            sup.make_supercell(np.array(rel))
            sites = self.pos(sup)
            al = [self.allowed(s) for s in sup]
            total = np.array(rel) @ np.array(m)
            atoms, at = [], []
            for q, a in enumerate(al):
                e = r.choice(a)
                if e == "X" and r.random() < 0.9:
                    continue
                if e != "X" and "X" not in a and r.random() < 0.03:
                    continue
                x = [c + (r.choice([-1, 0, 1]) if r.random() < 0.2 else 0) for c in sites[q]]
                shift = (np.array([r.choice([0, 0, 1, -1]) for _ in range(3)]) @ total * G).tolist()
                atoms.append({"x": [int(c + d) for c, d in zip(x, shift)], "sp": e})
                at.append(q + 1)
            how = r.choice(["auto", "auto", "given", "given", "map"])
            w = r.random()
            if atoms and w < 0.08:
                q = r.randrange(len(atoms))
                atoms[q] = dict(atoms[q], sp=r.choice(["S", "Al", "K", "Na"]))
            elif atoms and w < 0.16:
                q = r.randrange(len(atoms))
                if r.random() < 0.6:
                    atoms.append(dict(atoms[q], x=[c + d for c, d in zip(atoms[q]["x"], r.choice([(0, 0, 0), (1, 0, 0)]))]))
                    at.append(at[q])
                else:
                    atoms[q] = dict(atoms[q], x=[c + 5 for c in atoms[q]["x"]])
            elif w < 0.2:
                how = "strain"
            elif atoms and w < 0.24:
                how = "badmap"
            perm = list(range(len(atoms)))
            r.shuffle(perm)
            atoms, at = [atoms[q] for q in perm], [at[q] for q in perm]
            tol = r.choice([None, 0.1, 0.05, 0.02])
            st = self.structure(atoms, total.tolist(), 1.05 if how == "strain" else 1.0)
            kw = {} if tol is None else {"tol": tol}
            if how in ("given", "map", "badmap") and (how == "given" or r.random() < 0.5):
                kw["sc_matrix"] = r.choice([rel, np.array(rel)])
            if how == "map":
                kw["structure_site_mapping"] = [x - 1 for x in at]
            if how == "badmap":
                bad = [x - 1 for x in at]
                z = r.randrange(3)
                if z == 0:
                    bad = bad[:-1] if r.random() < 0.5 else bad + [0]
                else:
                    bad[r.randrange(len(bad))] = len(sites) if z == 1 else -1
                kw["structure_site_mapping"] = bad
            if how == "strain" and (not atoms or rel != ID and det(rel) == 1):
                how = "strain"
            o.update(k=k, r=rel, sites=sites, atoms=atoms, how=how, map=at, tol=10 if tol is None else int(round(100 * tol)))
            copy_ = st.copy()
            try:
                occ = ob.get_occ_from_structure(st, **kw)
                o["codes"], o["ok"] = [int(c) for c in occ.values], True
            except ValueError:
                pass
            if st != copy_ or len(ob.template_structure) * det(rel) != len(sites):
                raise RuntimeError("the arguments changed")
        return o

    def code(self, alw, e):
        k = alw.index(e)
        return (1 if k == 0 else 0) if self.basis == "occupation" else k


def trial(seed, k):
    w = World(seed, k)
    t = {"id": "lattice:%d:%d" % (seed, k), "G": G, "T": {"site": [{"x": list(x), "sp": s} for x, s in zip(w.xs, w.sp)], "map": w.map},
         "ops": [], "raised": ""}
    try:
        for _ in range(w.r.randint(5, 12)):
            o = w.op()
            if o is not None:
                t["ops"].append(o)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    write_json(a.out, [trial(a.seed, k) for k in range(a.n)])
