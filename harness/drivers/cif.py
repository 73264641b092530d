"""Real crystal files with symmetry: loading, supercells, site lookups and neighbours."""
from lib import *  # noqa: F401,F403

import itertools
import tempfile

from kmcpy.io.cif import load_labeled_structure_from_cif, load_labeled_structure_from_string, load_labeled_structures_from_cif
from kmcpy.structure import (build_site_index, find_site_by_wyckoff_sequence_and_label,
                             find_site_by_wyckoff_sequence_label_and_supercell, make_kmc_supercell)
from kmcpy.structure.neighbors import (get_cutoff_neighbor_info, get_range_cutoff_neighbor_info, prepare_cutoff_neighbor_lookup,
                                       prepare_range_cutoff_neighbor_lookup)

N = 20
U = 0.25
BLANK = {"k": "", "ok": True, "sites": [], "same": True, "M": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "diag": False, "idx": [], "label": "", "seq": 0,
         "anycell": False, "cell": [0, 0, 0], "j": 0, "win": [], "near": []}
GEN = [
    ([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], [0, 0, 0]), ([[1, 0, 0], [0, 1, 0], [0, 0, -1]], [0, 0, 0]), ([[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [0, 0, 10]),
    ([[0, -1, 0], [1, 0, 0], [0, 0, 1]], [0, 0, 0]), ([[0, -1, 0], [1, 0, 0], [0, 0, 1]], [0, 0, 5]), ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], [0, 0, 0]),
    ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [10, 10, 0]), ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [10, 10, 10]), ([[0, -1, 0], [1, -1, 0], [0, 0, 1]], [0, 0, 0]),
    ([[-1, 0, 0], [0, 1, 0], [0, 0, 1]], [0, 10, 0])]


def mul(a, b):
    r = np.array(a[0]) @ np.array(b[0])
    t = (np.array(a[0]) @ np.array(b[1]) + np.array(a[1])) % N
    return tuple(map(tuple, r.tolist())), tuple(int(v) for v in t)


def group(r):
    one = (((1, 0, 0), (0, 1, 0), (0, 0, 1)), (0, 0, 0))
    while True:
        g = [(tuple(map(tuple, a)), tuple(b)) for a, b in r.sample(GEN, r.choice([0, 1, 1, 2, 2]))]
        s = {one}
        while len(s) <= 24:
            new = {mul(a, b) for a in s for b in list(s) + g} | s
            if new == s:
                break
            s = new
        if len(s) <= 24:
            out = sorted(s)
            r.shuffle(out)
            if r.random() < 0.7:
                out.remove(one)
                out.insert(0, one)
            return out


def frac(k, r):
    f = {0: "", 5: "1/4", 10: "1/2", 15: "3/4"}[k]
    return f


def xyz(op, r):
    parts = []
    for row, t in zip(*op):
        s = ""
        for c, v in zip(row, "xyz"):
            if c:
                s += ("-" if c < 0 else "+" if s else "") + v
        f = frac(t, r)
        if f:
            s = f + ("" if s[0] == "-" else "+") + s if r.random() < 0.5 else s + "+" + f
        parts.append(s)
    return r.choice([",", ", "]).join(parts)


def num(k, r):
    s = "%.4f" % (k / N)
    if r.random() < 0.15:
        s += "(%d)" % r.randint(1, 9)
    return s


class World:
    def __init__(self, seed, k):
        r = self.r = rng_for(seed, "cif", k)
        self.ops = group(r)
        cell = r.choice([[1, 1, 1], [1, 1, 2], [1, 2, 1], [2, 1, 2]])
        self.K = [[cell[0], 0, 0], [0, cell[1], 0], [0, 0, cell[2]]]
        if r.random() < 0.3:
            self.K[1][0], self.K[2][0] = r.choice([0, 1]), r.choice([0, 1])
        self.atoms = []
        n = r.randint(1, 5)
        coarse = r.random() < 0.6
        whole = r.random() < 0.4
        typed = self.typed = r.random() < 0.7
        count = {}
        taken = {}
        while len(self.atoms) < n:
            x = [r.choice([0, 5, 10, 15]) if coarse else r.randrange(N) for _ in range(3)]
            key = frozenset(self.act(o, x) for o in self.ops)
            if len(key) > 12:
                continue
            if any(self.close(key, other) for other in taken if other != key):
                continue
            free = 100 - taken.get(key, 0)
            el = r.choice(["Na", "Na", "Zr", "Si", "P", "O", "Li"])
            occ = (100 if whole else r.choice([100, 100, 50, 25, 75])) if free == 100 else r.choice([25, 50, 0, free] if not whole else [0])
            if occ > free:
                continue
            taken[key] = taken.get(key, 0) + occ
            count[el] = count.get(el, 0) + 1
            label = el + str(count[el]) if r.random() < 0.85 else el
            if typed and r.random() < 0.1:
                label = r.choice(["M1", "site_a", "T2"])
            self.atoms.append({"label": label, "el": el, "x": [v + N * r.choice([0, 0, 0, 1, -1]) for v in x], "occ": occ})
            if r.random() < 0.3 and taken[key] < 100:   # another species on the same site, listed at any equivalent position
                y = list(r.choice(sorted(key)))
                e2 = r.choice(["P", "Li", "O"])
                count[e2] = count.get(e2, 0) + 1
                o2 = min(100 - taken[key], r.choice([25, 50]))
                taken[key] += o2
                self.atoms.append({"label": e2 + str(count[e2]), "el": e2, "x": y, "occ": o2})
        self.F = {"N": N, "ops": [{"r": [list(q) for q in a], "t": list(b)} for a, b in self.ops], "atoms": self.atoms, "K": self.K}
        self.text = self.cif()

    def act(self, o, x):
        return tuple(int(v) for v in (np.array(o[0]) @ np.array(x) + np.array(o[1])) % N)

    def close(self, a, b):
        return a == b

    def cif(self):
        r = self.r
        m = np.array(self.K, float) * N * U
        la = Lattice(m)
        s = ["data_test"]
        for nm, v in zip(["length_a", "length_b", "length_c", "angle_alpha", "angle_beta", "angle_gamma"], la.abc + la.angles):
            s.append("_cell_%s %.10f" % (nm, v))
        s += ["loop_", r.choice(["_symmetry_equiv_pos_as_xyz", "_space_group_symop_operation_xyz"])]
        s += ["  '%s'" % xyz(o, r) for o in self.ops]
        cols = ["_atom_site_label"] + (["_atom_site_type_symbol"] if self.typed else []) + ["_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z"]
        occ = any(a["occ"] != 100 for a in self.atoms) or r.random() < 0.5
        if occ:
            cols.append("_atom_site_occupancy")
        s += ["loop_"] + ["  " + c for c in cols]
        for a in self.atoms:
            row = [a["label"]] + ([a["el"]] if self.typed else []) + [num(v, r) for v in a["x"]]
            if occ:
                row.append("%.2f" % (a["occ"] / 100))
            s.append("  " + " ".join(row))
        return "\n".join(s) + "\n"

    def comp(self, s):
        return [{"e": e.symbol, "n": as_int(v, 100, 1e-6)} for e, v in s.species.items()]

    def sites(self, st, M=None):
        out = []
        f = st.frac_coords if M is None else st.frac_coords @ np.array(M, float)
        for j, s in enumerate(st):
            x = [as_int(v, N, 1e-3) for v in f[j]]
            q = {"x": [v % N for v in x] if M is None else x, "label": s.properties["label"], "comp": self.comp(s), "id": int(s.properties["local_index"]),
                 "seq": int(s.properties["wyckoff_sequence"]), "el": next(iter(s.species)).symbol}
            if M is not None:
                q["cell"] = [int(v) for v in s.properties["supercell"]]
            out.append(q)
        return out

    def load(self, how):
        r = self.r
        if how == "text":
            return load_labeled_structure_from_string(self.text)
        p = os.path.join(self.tmp, "a.cif")
        with open(p, "w") as fh:
            fh.write(self.text)
        if how == "all":
            return load_labeled_structures_from_cif(p)[0]
        if how == "sym":
            return load_labeled_structures_from_cif(p, symmetrized=True)[0]
        return load_labeled_structure_from_cif(p)

    def run(self, t):
        r = self.r
        o = dict(BLANK, k="load")
        t["ops"].append(o)
        try:
            st = self.load(r.choice(["text", "all", "file"]))
        except ValueError:
            o["ok"] = False
            return
        o["sites"] = t["base"] = self.sites(st)
        o["same"] = self.sites(self.load(r.choice(["text", "all", "file"]))) == o["sites"]
        if r.random() < 0.3:
            sy = self.load("sym")
            q = self.sites(sy)
            for n, group_ in enumerate(sy.equivalent_indices):
                for j in group_:
                    q[j]["eq"] = n
            t["ops"].append(dict(BLANK, k="sym", sites=q))
        if len(st) <= 12:
            for _ in range(r.randint(1, 2)):
                self.supercell(st, t)
        ordered = [j for j, s in enumerate(st) if s.is_ordered]
        for _ in range(2):
            if ordered and all(s.is_ordered for s in st) and len(st) <= 10:
                t["ops"].append(self.near(st, r.choice(ordered), t["base"]))

    def supercell(self, st, t):
        r = self.r
        diag = r.random() < 0.6
        while True:
            if diag:
                m = [r.choice([1, 2, 3]) for _ in range(3)]
                M = np.diag(m).tolist()
                arg = r.choice([m, tuple(m), M])
            else:
                M = [[r.choice([-1, 0, 1, 2]) for _ in range(3)] for _ in range(3)]
                arg = M
            if 1 <= np.linalg.det(np.array(M)) * len(st) <= 48.5 and round(np.linalg.det(np.array(M))) >= 1:
                break
        before = st.copy()
        sc = make_kmc_supercell(st, arg) if r.random() < 0.7 else make_kmc_supercell(st, arg, to_unit_cell=False)
        if before != st:
            raise RuntimeError("the structure changed")
        s = self.sites(sc, M)
        t["ops"].append(dict(BLANK, k="super", sites=s, M=M, diag=diag))
        got = build_site_index(sc, skip_check=r.random() < 0.5)
        t["ops"].append(dict(BLANK, k="index", sites=s, idx=[{"cell": list(k[:3]), "label": k[3], "id": k[4], "j": v + 1} for k, v in got.items()]))
        for _ in range(3):
            q = r.choice(s)
            f = dict(BLANK, k="find", sites=s, label=q["label"], seq=q["seq"], cell=q["cell"])
            if r.random() < 0.2:
                f["seq"] += r.choice([1, 20])
            if r.random() < 0.1:
                f["cell"] = [v + r.choice([0, 4]) for v in f["cell"]]
            f["anycell"] = r.random() < 0.4
            try:
                if f["anycell"]:
                    x = find_site_by_wyckoff_sequence_and_label(sc, f["seq"], f["label"])
                    f["j"] = next(j for j, y in enumerate(sc) if y is x) + 1
                elif r.random() < 0.5:
                    f["j"] = find_site_by_wyckoff_sequence_label_and_supercell(sc, f["seq"], f["label"], tuple(f["cell"])) + 1
                else:
                    x = find_site_by_wyckoff_sequence_label_and_supercell(sc, f["seq"], f["label"], tuple(f["cell"]), return_index=False)
                    f["j"] = next(j for j, y in enumerate(sc) if y is x) + 1
            except ValueError:
                f["ok"] = False
            t["ops"].append(f)

    def near(self, st, j, base):
        r = self.r
        o = dict(BLANK, k="near", j=j + 1, win=[], near=[])
        els = sorted({b["el"] for b in base})
        pairs = [p for p in itertools.combinations_with_replacement(els, 2) if r.random() < 0.8]
        ranged = r.random() < 0.5
        cut = {}
        for a, b in pairs:
            if r.random() < 0.5:
                a, b = b, a
            hi = r.choice([r.randint(4, 420), r.randint(200, 590)]) + 0.5
            lo = (r.randint(0, int(hi)) + 0.5 if r.random() < 0.7 else 0) if ranged else 0
            o["win"].append({"a": a, "b": b, "lo": int(math.floor(lo)), "hi": int(math.ceil(hi))})
            cut[(a, b)] = (U * math.sqrt(lo), U * math.sqrt(hi)) if ranged else U * math.sqrt(hi)
        if not cut:
            got = []
        elif ranged:
            got = get_range_cutoff_neighbor_info(st, j, prepare_range_cutoff_neighbor_lookup(cut))
        else:
            got = get_cutoff_neighbor_info(st, j, prepare_cutoff_neighbor_lookup(cut))
        by = {b["id"]: n for n, b in enumerate(base)}
        shift = np.array([[as_int(v, N, 1e-3) // N for v in st[n].frac_coords] for n in range(len(st))])
        for g in got:
            k = int(g["site_index"])
            if k != by[int(g["local_index"])] or abs(g["weight"] - st.get_distance(j, k, jimage=g["image"])) > 1e-6:
                raise RuntimeError("a neighbour does not say what it is")
            im = np.array(g["image"]) + shift[k] - shift[j]
            o["near"].append({"j": k + 1, "im": [int(v) for v in im], "label": g["label"], "seq": int(g["wyckoff_sequence"]), "id": int(g["local_index"])})
        return o


def trial(seed, k):
    w = World(seed, k)
    t = {"id": "cif:%d:%d" % (seed, k), "F": w.F, "base": [], "ops": [], "raised": ""}
    with tempfile.TemporaryDirectory() as tmp:
        w.tmp = tmp
        try:
            w.run(t)
        except Exception as exc:  # noqa: BLE001
            t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    write_json(a.out, [trial(a.seed, k) for k in range(a.n)])
