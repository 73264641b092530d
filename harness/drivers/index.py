"""ActiveSiteOrder objects: index maps, structures, selection, filtering, identity."""
from lib import *  # noqa: F401,F403

from kmcpy.event import HopStateLookup
from kmcpy.structure import ActiveSiteOrder
from kmcpy.structure.active_site_order import (
    ACTIVE_SITE_PROPERTY, ORIGINAL_SITE_PROPERTY, PRIMITIVE_ACTIVE_SITE_PROPERTY, PRIMITIVE_SITE_PROPERTY)

CHOICES = {
    "Na": [["Na", "X"], ["X", "Na"], ["Na", "Mg", "X"], ["Mg", "Va"], ["Na", "Vacancy"]],
    "K": [["Na", "X"], ["X", "Mg", "Na"], ["Mg", "Na"], "K"],
    "Si": [["Si", "P"], ["P", "Si", "Al"], "Si", ["Si"]],
    "O": ["O", ["O"], ["O", "S"]],
}
NORM = {"Va": "X", "Vacancy": "X"}


def norm(v):
    return [NORM.get(x, x) for x in (v if isinstance(v, list) else [v])]


def lattice(r):
    a, b, c = (r.choice([4, 5, 6]) for _ in range(3))
    m = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    if r.random() < 0.5:
        m[1][0] = r.choice([0, 2, -2])
        m[2][0] = r.choice([0, 1, 2])
        m[2][1] = r.choice([0, 1, -1])
    return m


def case(r):
    while True:
        m = lattice(r)
        n = r.randint(1, 5)
        pts = set()
        while len(pts) < n:
            f = np.array([r.random() for _ in range(3)])
            p = np.floor(f @ np.array(m) + 1e-9)
            fr = np.linalg.solve(np.array(m, float).T, p)
            if np.all(fr > -1e-9) and np.all(fr < 1 - 1e-9):
                pts.add(tuple(int(x) for x in p))
            elif r.random() < 0.05:  # sites given outside the unit cell are legal too
                pts.add(tuple(int(x) for x in p))
        pts = list(pts)
        fracs = [tuple(np.round(np.mod(np.linalg.solve(np.array(m, float).T, np.array(p)), 1), 6) % 1) for p in pts]
        if len(set(fracs)) < n:
            continue
        r.shuffle(pts)
        species = [r.choice(["Na", "Na", "K", "Si", "O"]) for _ in range(n)]
        mapping = {k: r.choice(v) for k, v in CHOICES.items()}
        shape = [r.choice([1, 1, 2, 3]), r.choice([1, 1, 2]), r.choice([1, 1, 2])]
        if n * shape[0] * shape[1] * shape[2] > 24:
            continue
        return dict(m=m, pts=pts, species=species, mapping=mapping, shape=shape)


def structure(cs):
    return Structure(Lattice(cs["m"]), cs["species"], [list(p) for p in cs["pts"]], coords_are_cartesian=True)


def build(cs):
    return ActiveSiteOrder.from_structure_and_mapping(structure(cs), cs["mapping"], supercell_shape=cs["shape"])


def spec_case(cs):
    return {"m": cs["m"], "shape": list(cs["shape"]),
            "prim": [{"sp": s, "allowed": norm(cs["mapping"][s]), "pos": list(p)} for s, p in zip(cs["species"], cs["pts"])]}


def site_rec(site):
    p = site.properties
    return {"prim": int(p[PRIMITIVE_SITE_PROPERTY]), "cell": list(p["supercell"]), "orig": int(p[ORIGINAL_SITE_PROPERTY]),
            "act": int(p[ACTIVE_SITE_PROPERTY]), "pact": int(p[PRIMITIVE_ACTIVE_SITE_PROPERTY]),
            "pos": [as_int(x) for x in site.coords], "sp": site.specie.symbol}


def maps(o):
    return {"nprim": o.primitive_site_count, "nfull": o.original_site_count, "nact": o.active_site_count,
            "shape": list(o.supercell_shape), "a2o": list(o.active_to_original), "a2p": list(o.active_to_primitive),
            "fixed": list(o.fixed_original_indices), "pact": list(o.primitive_active_indices),
            "o2a": sorted([k, v] for k, v in o.original_to_active.items()),
            "p2a": sorted([k, v] for k, v in o.primitive_to_active.items()),
            "sbp": list(o.species_by_primitive_site), "abp": [list(a) for a in o.allowed_species_by_primitive_site]}


def variant(r, cs):
    v = json.loads(json.dumps(cs))
    w = r.randrange(6)
    if w == 0:
        pass
    elif w == 1:
        v["shape"][r.randrange(3)] = r.choice([1, 2, 3])
    elif w == 2:
        k = r.choice(list(CHOICES))
        v["mapping"][k] = r.choice(CHOICES[k])
    elif w == 3:
        perm = list(range(len(v["pts"])))
        r.shuffle(perm)
        v["pts"] = [v["pts"][q] for q in perm]
        v["species"] = [v["species"][q] for q in perm]
    elif w == 4:
        k = r.randrange(len(v["species"]))
        v["species"][k] = r.choice(["Na", "K", "Si", "O"])
    else:
        sh = list(v["shape"])
        r.shuffle(sh)
        v["shape"] = sh
    return v


def attempt(fn):
    try:
        return True, fn()
    except (ValueError, IndexError, TypeError, KeyError):
        return False, None


def filters(r, o, full):
    out = []
    lat = full.lattice
    n = len(full)
    for _ in range(4):
        kind = r.choice(["sub", "sub", "full", "active", "bogus", "double"])
        want = True
        if kind == "full":
            sites = list(range(n))
        elif kind == "active":
            sites = list(o.active_to_original)
            r.shuffle(sites)
        else:
            sites = r.sample(range(n), r.randint(1, n))
            if not any(s in o.original_to_active for s in sites):
                continue
        if len(sites) == n:
            sites.sort()
        coords = [full.cart_coords[s] + np.array([r.uniform(-0.004, 0.004) for _ in range(3)]) for s in sites]
        coords = [c + r.choice([0, 1, -1]) * lat.matrix[r.randrange(3)] for c in coords]
        species = [full[s].specie for s in sites]
        if kind == "bogus":
            c = np.array([0.5, 0.5, 0.5])
            if len(sites) + 1 in (n, len(o.active_to_original)):
                continue
            coords.append(c)
            species.append("H")
            want = False
        if kind == "double":
            a = [s for s in sites if s in o.original_to_active]
            if not a or len(sites) + 1 == n:
                continue
            coords.append(full.cart_coords[a[0]])
            species.append("Na")
            want = False
        st = Structure(lat, species, coords, coords_are_cartesian=True)
        ok, res = attempt(lambda: o.filter_active_structure(st))
        rec = {"kind": kind, "sites": sites, "ok": ok, "want": want, "got": [], "where": []}
        if ok:
            rec["got"] = [int(x) for x in res.site_properties[ACTIVE_SITE_PROPERTY]]
            d = lat.get_all_distances(res.frac_coords, full.frac_coords)
            rec["where"] = [int(np.argmin(x)) if np.min(x) < 0.05 else -1 for x in d]
        out.append(rec)
    return out


def one(seed, k):
    r = rng_for(seed, "index", k)
    cs = case(r)
    t = {"id": "index:%d:%d" % (seed, k), "c": spec_case(cs), "built": True, "raised": "", "sel": [], "idx": [], "filt": [],
         "same": [], "o": {}, "reload": {}}
    try:
        try:
            o = build(cs)
        except ValueError:
            t["built"] = False
            return t
        full, act = o.full_structure_with_properties(), o.active_structure()
        look = HopStateLookup.from_active_site_order(o, "Na")
        mp = maps(o)
        t["o"] = dict(mp, maps=mp, full=[site_rec(s) for s in full], act=[site_rec(s) for s in act],
                      mob=[int(x) for x in look.mobile_state_by_site], vac=[int(x) for x in look.vacancy_state_by_site])
        t["reload"] = maps(ActiveSiteOrder.from_dict(json.loads(json.dumps(o.as_dict()))))
        for n in {o.active_site_count, o.original_site_count, r.randint(0, 30), o.active_site_count + 1}:
            v = [r.randrange(3) for _ in range(n)]
            ok, got = attempt(lambda: o.select_active_values(v))
            t["sel"].append({"inp": v, "ok": ok, "out": list(got) if ok else []})
        for _ in range(4):
            v = [r.randint(-1 if r.random() < 0.3 else 0, o.active_site_count - (0 if r.random() < 0.3 else 1))
                 for _ in range(r.randint(0, 4))]
            ok, _g = attempt(lambda: o.validate_active_indices(v))
            t["idx"].append({"inp": v, "ok": ok})
        t["filt"] = filters(r, o, full)
        for _ in range(4):
            v = variant(r, cs)
            try:
                other = build(v)
            except ValueError:
                continue
            how = r.randrange(3)
            ok, _g = attempt(lambda: o.assert_same_order(
                other if how == 0 else other.as_dict() if how == 1 else json.loads(json.dumps(other.as_dict()))))
            t["same"].append({"c": spec_case(v), "ok": ok})
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    return t


if __name__ == "__main__":
    a = args()
    write_json(a.out, [one(a.seed, k) for k in range(a.n)])
