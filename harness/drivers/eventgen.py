"""Event generation from CIF files on exact grids."""
import itertools
import resource

from lib import *  # noqa: F401,F403

from kmcpy.event import EventLib
from kmcpy.event.generators import EventGenerator
from kmcpy.io.cif import load_labeled_structure_from_cif
from kmcpy.structure import ActiveSiteOrder
from kmcpy.structure.active_site_order import PRIMITIVE_SITE_PROPERTY

D = 12


def write_cif(path, m, species, labels, grid):
    lat = Lattice(m)
    with open(path, "w") as fh:
        fh.write("data_x\n_symmetry_space_group_name_H-M 'P 1'\n")
        for n, v in zip("abc", lat.abc):
            fh.write("_cell_length_%s %.12f\n" % (n, v))
        for n, v in zip(("alpha", "beta", "gamma"), lat.angles):
            fh.write("_cell_angle_%s %.12f\n" % (n, v))
        fh.write("loop_\n_symmetry_equiv_pos_as_xyz\n'x, y, z'\nloop_\n_atom_site_type_symbol\n_atom_site_label\n"
                 "_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n_atom_site_occupancy\n")
        for s, l, g in zip(species, labels, grid):
            fh.write("%s %s %.12f %.12f %.12f 1\n" % (s, l, g[0] / D, g[1] / D, g[2] / D))


def cell(r):
    a, b, c = (r.choice([4, 5, 6]) for _ in range(3))
    m = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    if r.random() < 0.5:
        m[1][0] = r.choice([0, 2, -2])
        m[2][0] = r.choice([0, 1, -1])
        m[2][1] = r.choice([0, 1, -1])
    if r.random() < 0.2:
        m = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    return m


def sites(r, m, n):
    gram = (np.array(m) @ np.array(m).T)
    grid = []
    step = r.choice([1, 2, 3, 6])
    sym = r.random() < 0.5
    edge = r.choice([0, 0.5, 0.9])
    tries = 0
    while len(grid) < n and tries < 400:
        tries += 1
        g = [r.randrange(0, D, step) for _ in range(3)]
        if r.random() < edge:
            g[r.randrange(3)] = 0
        cand = [g] + ([[(-x) % D for x in g]] if sym else [])
        for x in cand:
            ok = len(grid) < n
            for y in grid:
                for im in itertools.product((-1, 0, 1), repeat=3):
                    d = np.array(x) - np.array(y) + D * np.array(im)
                    if d @ gram @ d < 2.25 * D * D:
                        ok = False
            if ok:
                grid.append(x)
    return grid, gram


def perm_witness(ea, eb, sp, gram, va, vb):
    """A permutation making environment b congruent to a, or None."""
    n = len(ea)
    if n > 7 or n != len(eb):
        return None

    def d2(u, v):
        w = u - v
        return int(w @ gram @ w)

    def go(done):
        k = len(done)
        if k == n:
            return done
        for j in range(n):
            if j in done or sp[ea[k]] != sp[eb[j]]:
                continue
            if all(d2(va[k], va[l]) == d2(vb[j], vb[done[l]]) for l in range(k)):
                res = go(done + [j])
                if res is not None:
                    return res
        return None

    return go([])


def too_big(c):
    """Whether two large environments of equal composition may have to be matched by brute force."""
    gram, seen = np.array(c["gram"]), {}
    for a in c["sites"]:
        if not a["ini"] or a["prim"] in [p for v in seen.values() for p in v]:
            continue
        count = {}
        for b in c["sites"]:
            for im in itertools.product((-2, -1, 0, 1, 2), repeat=3):
                d = np.array([b["pos"][x] - a["pos"][x] + im[x] * c["shape"][x] * c["D"] for x in range(3)])
                if 0 < int(d @ gram @ d) <= c["q"][a["sp"]][b["sp"]]:
                    count[b["sp"]] = count.get(b["sp"], 0) + 1
        seen.setdefault(tuple(sorted(count.items())), []).append(a["prim"])
    return any(len(v) > 1 and max((n for _, n in k), default=0) > 6 for k, v in seen.items())


def twins(r):
    """Two copies of one environment, the second turned, reflected or (with bent) altered."""
    while True:
        a = r.choice([8, 9, 10, 12])
        m = [[a, 0, 0], [0, a, 0], [0, 0, a]]
        cubic = r.random() < 0.7
        if not cubic:
            m = [[a, 0, 0], [r.choice([-2, 1, 2]), a - 1, 0], [r.choice([-1, 1]), r.choice([-1, 1, 2]), a + 1]]
        gram = np.array(m) @ np.array(m).T
        perm, sign = [0, 1, 2], [-1, -1, -1]
        if cubic:
            r.shuffle(perm)
            sign = [r.choice([-1, 1]) for _ in range(3)]
        turn = lambda v: [sign[x] * v[perm[x]] for x in range(3)]
        n = r.randint(3, 5)
        rad = [2.0, 3.05]
        offs, tries = [], 0
        while len(offs) < n and tries < 300:
            tries += 1
            v = np.array([r.randint(-5, 5) for _ in range(3)])
            d2 = int(v @ gram @ v)
            if rad[0] ** 2 * D * D <= d2 <= rad[1] ** 2 * D * D and all((v - w) @ gram @ (v - w) >= 2.25 * D * D for w in offs):
                offs.append(v)
        if len(offs) < n:
            continue
        bent = r.random() < 0.5
        other = [np.array(turn(v)) for v in offs]
        if bent:
            other[0] = other[0] + np.array(r.choice([[2, 0, 0], [0, 2, 0], [0, 0, 2], [0, 1, -1]]))
        o1 = np.array([r.randrange(D) for _ in range(3)])
        o2 = o1 + np.array([6, 6, r.choice([0, 6])])
        sp = [r.choice(["Na", "Na", "Na", "Si"]) for _ in offs]
        sp[r.randrange(n)] = "Na"
        grid = [[int(x) % D for x in v] for v in [o1, o2] + [o1 + v for v in offs] + [o2 + v for v in other]]
        ok = True
        for i in range(len(grid)):
            for j in range(i):
                d2 = [int(d @ gram @ d) for im in itertools.product((-1, 0, 1), repeat=3) for d in [np.array(grid[i]) - np.array(grid[j]) + D * np.array(im)]]
                if min(d2) < 2.25 * D * D:
                    ok = False
                # a centre sees its own environment only
                if j < 2 and sum(x <= 3.1 ** 2 * D * D for x in d2) != (1 if i >= 2 and (i - 2) // n == j else 0):
                    ok = False
        if not ok:
            continue
        lab = ["Na1", "Na1"] + [x + "2" for x in sp] * 2
        full = ["Na", "Na"] + sp * 2
        idx = list(range(len(grid)))
        r.shuffle(idx)
        return m, gram, [grid[x] for x in idx], [full[x] for x in idx], [lab[x] for x in idx], bent


def clear(c):
    """No two different lengths between neighbours of a centre are close."""
    gram, q = np.array(c["gram"]), set()
    for a in c["sites"]:
        if a["ini"]:
            vs = [d for b in c["sites"] for im in itertools.product((-1, 0, 1), repeat=3)
                  for d in [np.array([b["pos"][x] - a["pos"][x] + im[x] * c["shape"][x] * c["D"] for x in range(3)])]
                  if 0 < int(d @ gram @ d) <= c["q"][a["sp"]][b["sp"]]]
            q |= {int((u - v) @ gram @ (u - v)) for u in vs for v in vs}
    q = sorted(q - {0})
    return all(y > 1.1 * x for x, y in zip(q, q[1:]))


def one(seed, k):
    r = rng_for(seed, "eventgen", k)
    twin = k % 4 == 3
    if twin:
        m, gram, grid, species, labels0, bent = twins(r)
        shape = r.choice([[1, 1, 1], [2, 1, 1], [1, 1, 2]])
    skew = k % 4 == 1
    while not twin:
        m = cell(r)
        if skew:
            m = [[r.choice([4, 5, 6]), 0, 0], [r.choice([-2, -1, 1, 2]), r.choice([5, 6]), 0], [r.choice([-2, -1, 1]), r.choice([-1, 1, 2]), r.choice([5, 6])]]
        n = r.randint(2, 5)
        grid, gram = sites(r, m, n)
        if len(grid) < 2:
            continue
        species = [r.choice(["Na", "Na", "Na", "K", "Si", "O"]) for _ in grid]
        shape = [r.choice([1, 1, 2, 3]), r.choice([1, 1, 2]), r.choice([1, 1, 2])]
        if skew and max(shape) == 1:
            shape = r.choice([[2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 1, 2]])
        if skew and r.random() < 0.9995:
            # sites on a cell face that do not come back exactly from Cartesian coordinates
            lat = Lattice.from_parameters(*Lattice(m).abc, *Lattice(m).angles)
            back = [lat.get_fractional_coords(lat.get_cartesian_coords([float("%.12f" % (x / D)) for x in g])) for g in grid]
            if not any(g[x] == 0 and b[x] < 0 and shape[x] > 1 and s == "Na" for g, b, s in zip(grid, back, species) for x in range(3)):
                continue
        if species.count("Na") < 1 or len(grid) * shape[0] * shape[1] * shape[2] > 20:
            continue
        break
    vac = r.choice(["X", "X", "X", "Vacancy", "Va"])
    mapping = {"Na": ["Na", vac], "K": r.choice([["Na", vac], ["Mg", "K"], "K"]), "Si": r.choice([["Si", "P"], "Si"]), "O": "O"}
    mob = [s for s, v in mapping.items() if isinstance(v, list) and vac in v]
    labels, cnt = [], {}
    for s in species:
        if r.random() < 0.7 or s not in cnt:
            cnt[s] = cnt.get(s, 0) + 1
        labels.append("%s%d" % (s, cnt[s]))
    if r.random() < 0.2:
        labels = [x[:-1] if x.endswith("1") else x for x in labels]
    if twin:
        labels, mapping = labels0, {"Na": ["Na", vac], "Si": ["Si", "P"]}
        mob = ["Na"]
    t = {"id": "eventgen:%d:%d" % (seed, k), "raised": "", "made": False, "ev": [], "deps": [], "valid": False, "wit": [], "c": {}, "asked": False, "stray": 0, "strict": False, "refused": False, "bent": twin and bent}
    try:
        path, efile = "s%d.cif" % k, "e%d.json" % k
        write_cif(path, m, species, labels, grid)
        base = load_labeled_structure_from_cif(path)
        order = ActiveSiteOrder.from_structure_and_mapping(base, mapping, supercell_shape=shape)
        st = order.active_structure()
        names = sorted({s.specie.symbol for s in st})
        # squared cutoffs on the grid; uniform or per species pair
        lo = 9 * D * D
        qs = r.choice([3.1, 3.6, 4.2, 5.0])
        q = {a: {b: int(qs * qs * D * D) for b in names} for a in names}
        kw = {}
        ox = base.copy()
        ox.add_oxidation_state_by_guess()
        strings = {s.specie.symbol: s.species_string for s in ox}
        if twin:
            q = {a: {b: int(3.1 * 3.1 * D * D) for b in names} for a in names}
        elif r.random() < 0.3:
            cutd = {}
            q = {a: {b: 0 for b in names} for a in names}
            for a in names:
                for b in names:
                    if a <= b and r.random() < 0.8:
                        x = r.choice([3.1, 3.6, 4.2])
                        q[a][b] = q[b][a] = int(x * x * D * D)
                        cutd[(strings[a], strings[b])] = math.sqrt(q[a][b] + 0.5) / D
            kw["local_env_cutoff_dict"] = cutd
            if not cutd:
                kw = {}
                q = {a: {b: lo for b in names} for a in names}
        if not kw:
            kw["local_env_cutoff"] = math.sqrt(list(q.values())[0][names[0]] + 0.5) / D
        act_labels = [s.properties["label"] for s in st]
        mobl = sorted({l for l, s in zip(act_labels, st) if s.specie.symbol in mob})
        how = r.choice(["none", "species", "label", "label", "list", "pair"])
        if twin:
            ini, tgt = {"Na1"}, {"Na2"}
            kw["mobile_ion_identifiers"] = ("Na1", "Na2")
            test = lambda s, ids: s.properties["label"] in ids
        elif how == "none":
            ini = tgt = set(mob)
            test = lambda s, ids: s.specie.symbol in ids
        elif how == "species":
            i1, t1 = r.choice(mob), r.choice(mob)
            ini, tgt = {i1}, {t1}
            kw["mobile_ion_identifiers"] = (r.choice([i1, strings.get(i1, i1)]), r.choice([t1, strings.get(t1, t1)]))
            test = lambda s, ids: s.specie.symbol in ids
        elif how == "label":
            i1, t1 = r.choice(mobl), r.choice(mobl)
            ini, tgt = {i1}, {t1}
            kw["mobile_ion_identifiers"] = (i1, t1)
            test = lambda s, ids: s.properties["label"] in ids
        else:
            ini, tgt = set(r.sample(mobl, r.randint(1, len(mobl)))), set(r.sample(mobl, r.randint(1, len(mobl))))
            kw["mobile_ion_identifiers"] = (sorted(ini), sorted(tgt))
            test = lambda s, ids: s.properties["label"] in ids
        if not twin and how in ("label", "list", "pair") and all(x in mob for x in ini | tgt):
            return None
        recs = []
        for s in st:
            pos = [as_int(x, D * sh, 1e-4) for x, sh in zip(s.frac_coords, shape)]
            recs.append({"pos": pos, "prim": int(s.properties[PRIMITIVE_SITE_PROPERTY]), "cell": list(s.properties["supercell"]),
                         "sp": s.specie.symbol, "lab": str(s.properties["label"]), "ini": bool(test(s, ini)), "tgt": bool(test(s, tgt))})
        t["c"] = {"D": D, "gram": gram.tolist(), "shape": shape, "sites": recs, "q": q}
        t["how"] = how
        if too_big(t["c"]):
            return None
        if twin:
            if not clear(t["c"]) or r.random() < 0.5:
                kw["rtol"] = kw["atol"] = 1e-4
            if r.random() < 0.5:
                t["strict"] = True
                kw["find_nearest_if_fail"] = False
        # the cell the cell file describes is the one the generator reads: positions as parsed
        t["asked"] = r.random() < 0.1
        if t["asked"]:
            kw["export_local_env_structure"] = True
        elif r.random() < 0.2:
            kw["export_local_env_structure"] = False
        before = set(os.listdir("."))
        try:
            EventGenerator().generate_events(structure_file=path, supercell_shape=shape, event_file=efile,
                                             site_mapping=mapping, **kw)
            t["made"] = True
        except ValueError as exc:
            t["refused"] = "No matching cluster" in str(exc)
            if not t["refused"] and "no event generated" not in str(exc) and "No mobile species found" not in str(exc):
                raise
        new = set(os.listdir(".")) - before - {path, efile}
        t["stray"] = len(new)
        for x in new:
            os.unlink(x)
        if t["made"]:
            lib = EventLib.from_file(efile)
            t["ev"] = [{"f": int(e.mobile_ion_indices[0]), "t": int(e.mobile_ion_indices[1]),
                        "env": [int(x) for x in e.local_env_indices]} for e in lib.events]
            t["deps"] = [[int(x) for x in lib.get_dependent_events(j)] for j in range(len(lib))]
            try:
                lib.validate_index_metadata(order)
                t["valid"] = True
            except (ValueError, IndexError):
                pass
            t["wit"] = witnesses(t)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    finally:
        for p in ("s%d.cif" % k, "e%d.json" % k):
            if os.path.exists(p):
                os.unlink(p)
    return t


def witnesses(t):
    c = t["c"]
    gram = np.array(c["gram"])
    sp = [s["sp"] for s in c["sites"]]
    kind = [(s["sp"], s["lab"]) for s in c["sites"]]
    first = {}
    for j, e in enumerate(t["ev"]):
        first.setdefault(c["sites"][e["f"]]["prim"], j)

    def place(a, b):
        best = []
        for im in itertools.product((-2, -1, 0, 1, 2), repeat=3):
            d = np.array([c["sites"][b]["pos"][x] - c["sites"][a]["pos"][x] + im[x] * c["shape"][x] * c["D"] for x in range(3)])
            v = int(d @ gram @ d)
            if 0 < v <= c["q"][sp[a]][sp[b]]:
                best.append(d)
        return best[0] if len(best) == 1 else None

    groups = {}
    for j in first.values():
        e = t["ev"][j]
        groups.setdefault(tuple(sorted(kind[x] for x in e["env"])), []).append(j)
    out = []
    for js in groups.values():
        if len(js) < 2:
            continue
        env = [t["ev"][j]["env"] for j in js]
        vec = [[place(t["ev"][j]["f"], b) for b in t["ev"][j]["env"]] for j in js]
        if any(v is None for vs in vec for v in vs) or any(len(v) > 7 for v in env):
            continue
        ws = [perm_witness(env[0], env[x], kind, gram, vec[0], vec[x]) for x in range(1, len(js))]
        if any(w is None for w in ws):
            continue
        out += [{"e": js[0] + 1, "g": js[x + 1] + 1, "perm": [p + 1 for p in w]} for x, w in enumerate(ws)]
    return out


if __name__ == "__main__":
    a = args()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = [one(a.seed, k) for k in range(a.n)]
    write_json(a.out, [t for t in out if t])
