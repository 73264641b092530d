"""Random lattice-gas systems and barrier rules for the engine drivers."""
from __future__ import annotations

from lib import *  # noqa: F401,F403
from lib import SCALE

from kmcpy.event import Event, EventLib, HopStateLookup  # noqa: E402
from kmcpy.models import LocalBarrierModel  # noqa: E402
from kmcpy.simulator.config import Configuration  # noqa: E402
from kmcpy.structure import ActiveSiteOrder  # noqa: E402

SELECTORS = ["canonical", "local_env", "mobile_ion", "from", "to"]


class Sys:
    """A concrete system: the objects for kMCpy and the record for the spec."""


def random_lattice(r, skew, big=False):
    """big: long cells whose periodic images differ by little, so that the nearest one is not obvious."""
    a, b, c = (r.choice([17, 21, 24, 33] if big else [4, 5, 6]) for _ in range(3))
    m = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    if skew:
        m[1][0] = r.choice([0, a // 2, -(a // 2)])
        m[2][0] = r.choice([0, a // 2])
        m[2][1] = r.choice([0, b // 2])
    return m


def close_images(pts, cell):
    """Is there a pair whose shortest periodic vector is only a little shorter than the rounded one?"""
    images = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)])
    for x in range(len(pts)):
        for y in range(x):
            f = np.linalg.solve(cell.T, np.array(pts[x], float) - np.array(pts[y], float))
            f -= np.round(f)
            ls = np.linalg.norm((f + images) @ cell, axis=1)
            if 1e-6 < np.linalg.norm(f @ cell) - ls.min() < 0.08:
                return True
    return False


def random_system(r, *, skew=None, mixed=None, max_sites=None, need=2, mobile="Na", other="K", via_cif=False, big=False):
    """Template with integer cell and positions, site mapping, supercell."""
    skew = r.random() < 0.4 if skew is None else skew
    mixed = r.random() < 0.5 if mixed is None else mixed
    max_sites = max_sites or r.choice([6, 9, 16])
    for _ in range(200000 if big else 2000):
        m = random_lattice(r, skew, big)
        shape = r.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (3, 1, 1)])
        cells = shape[0] * shape[1] * shape[2]
        nprim = r.randint(1, 5)
        species, mapping = [], {}
        mob_choices = [[mobile, "X"]]
        if mixed:
            mob_choices = [[mobile, "X"], ["X", mobile], [mobile, "Mg", "X"], ["X", "Mg", mobile], ["Mg", mobile, "X"]]
        mapping[mobile] = r.choice(mob_choices)
        mapping[other] = r.choice(mob_choices)
        mapping["Si"] = r.choice([["Si", "P"], ["P", "Si", "Al"]])
        mapping["O"], mapping["Cs"] = "O", "Cs"
        fixed = r.choice(["O", "Cs"])   # structure files list Cs before, O after the mobile ions
        for _k in range(nprim):
            species.append(r.choice([mobile, mobile, mobile, other, "Si", fixed]))
        active = sum(1 for s in species if s != fixed) * cells
        mobs = sum(1 for s in species if s in (mobile, other)) * cells
        if not (need <= mobs and active <= max_sites and mobile in species):
            continue
        pts = set()
        mm = np.array(m)
        while len(pts) < nprim:
            f = [r.random() for _ in range(3)]
            p = tuple(int(x) for x in np.floor(np.array(f) @ mm + 1e-9))
            fr = np.linalg.solve(mm.T, np.array(p, float))
            fr = fr - np.floor(fr + 1e-9)
            p = tuple(int(round(x)) for x in fr @ mm)
            pts.add(p)
        pts = sorted(pts)
        r.shuffle(pts)
        if big and not close_images([p for p, x in zip(pts, species) if x in (mobile, other)],
                                    np.array(m) * np.array(shape)[:, None]):
            continue
        st = Structure(Lattice(m), species, [list(p) for p in pts], coords_are_cartesian=True,
                       to_unit_cell=False)
        if via_cif:  # list the sites in the order in which the CIF reader returns them
            got = read_back(st)
            if got is None:
                continue
            pts, species = [pts[k] for k in got], [species[k] for k in got]
            st = Structure(Lattice(m), species, [list(p) for p in pts], coords_are_cartesian=True, to_unit_cell=False)
        order = ActiveSiteOrder.from_structure_and_mapping(st, mapping, supercell_shape=shape)
        s = Sys()
        s.mobile = mobile
        s.template, s.mapping, s.shape, s.order = st, mapping, shape, order
        s.structure = order.active_structure()
        s.lookup = HopStateLookup.from_active_site_order(order, mobile)
        s.n = order.active_site_count
        s.prim = list(order.active_to_primitive)
        s.allowed = [
            (lambda v: list(v) if isinstance(v, list) else [v])(mapping[species[p]]) for p in s.prim
        ]
        s.tmpl = [species[p] for p in s.prim]
        s.mob = [a.index(mobile) if mobile in a else -1 for a in s.allowed]
        s.vac = [a.index("X") if "X" in a else -1 for a in s.allowed]
        s.np = sum(1 for t in s.tmpl if t == mobile)
        s.L = [[shape[i] * x for x in m[i]] for i in range(3)]
        s.pos = [[as_int(x) for x in c] for c in s.structure.cart_coords]
        if any(1999999999 in p for p in s.pos):
            continue
        s.hopsites = [i for i in range(s.n) if s.mob[i] >= 0 and s.vac[i] >= 0]
        if len(s.hopsites) < need:
            continue
        return s
    raise RuntimeError("no system found")


def write_structure(path, st, labels=None):
    lat = st.lattice
    with open(path, "w") as fh:
        fh.write("data_x\n_symmetry_space_group_name_H-M 'P 1'\n")
        for n, v in zip("abc", lat.abc):
            fh.write("_cell_length_%s %.12f\n" % (n, v))
        for n, v in zip(("alpha", "beta", "gamma"), lat.angles):
            fh.write("_cell_angle_%s %.12f\n" % (n, v))
        fh.write("loop_\n_symmetry_equiv_pos_as_xyz\n'x, y, z'\nloop_\n_atom_site_type_symbol\n_atom_site_label\n"
                 "_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n_atom_site_occupancy\n")
        cnt = {}
        for k, s in enumerate(st):
            sym = s.specie.symbol
            cnt[sym] = cnt.get(sym, 0) + 1
            lab = labels[k] if labels else "%s%d" % (sym, cnt[sym])
            fh.write("%s %s %.12f %.12f %.12f 1\n" % ((sym, lab) + tuple(float(x) % 1.0 for x in s.frac_coords)))


def read_back(st):
    """Permutation in which the CIF reader lists the sites of st."""
    from kmcpy.io.cif import load_labeled_structure_from_cif

    write_structure("readback.cif", st)
    try:
        got = load_labeled_structure_from_cif("readback.cif")
    except ValueError:
        return None
    finally:
        os.unlink("readback.cif")
    perm = []
    for site in got:
        for k, x in enumerate(st):
            d = np.asarray(site.frac_coords) - np.asarray(x.frac_coords)
            if np.all(np.abs(d - np.round(d)) < 1e-6) and site.specie.symbol == x.specie.symbol:
                perm.append(k)
    return perm if sorted(perm) == list(range(len(st))) else None


def random_events(r, s, nev=None):
    pairs = [(a, b) for a in s.hopsites for b in s.hopsites if a != b]
    r.shuffle(pairs)
    sparse = r.random() < 0.5
    nev = nev or r.randint(2, min(12, len(pairs)))
    evs = []
    used = set()
    for a, b in pairs:
        if frozenset((a, b)) in used and r.random() < 0.7:
            continue
        used.add(frozenset((a, b)))
        rest = [i for i in range(s.n) if i not in (a, b)]
        k = r.randint(0, min(1 if sparse else 4, len(rest)))
        env = r.sample(rest, k)
        if env and r.random() < 0.1:
            env.append(env[0])
        evs.append((a, b, env))
        if len(evs) >= nev:
            break
    return evs


def make_lib(evs, order, deps=True):
    lib = EventLib()
    for a, b, env in evs:
        lib.add_event(Event(mobile_ion_indices=(a, b), local_env_indices=tuple(env)))
    lib.set_index_metadata(order)
    if deps:
        lib.generate_event_dependencies()
    return lib


def random_rules(r, s, evs, *, nonlocal_ok=False, nrules=None):
    """(kmcpy rules, spec rules, site_species) without evaluation errors."""
    rules, spec = [], []
    site_species = {i: {k: sp for k, sp in enumerate(s.allowed[i])} for i in range(s.n)}
    used_exact = set()
    for idx in range(r.randint(0, 5) if nrules is None else nrules):
        bar = r.randint(50, 600)
        kind = r.choice(["pattern", "state_count", "species_count", "exact", "constant", "state_count"])
        rule = {"type": kind, "properties": {"barrier": float(bar)}}
        rec = blank_rule()
        rec["type"] = kind
        rec["bar"] = bar * SCALE
        ev = r.choice(evs)
        sel = r.choice(SELECTORS)
        if nonlocal_ok and r.random() < 0.5:
            sel = r.choice(["all", "explicit"])
        if kind == "exact":
            canon = list(dict.fromkeys([ev[0], ev[1]] + list(ev[2])))
            occ = [r.randrange(len(s.allowed[i])) for i in canon]
            for q in (0, 1):  # make the endpoints hop-like so that the rule is reachable
                i = canon[q]
                occ[q] = r.choice([s.mob[i], s.vac[i]])
            key = (ev[0], ev[1], tuple(canon), tuple(occ))
            if key in used_exact:
                continue
            used_exact.add(key)
            rule.update(mobile_ion_indices=[ev[0], ev[1]], local_env_indices=list(ev[2]), occupations=occ)
            rec.update(hasM=True, M=[ev[0] + 1, ev[1] + 1], hasE=True, E=[x + 1 for x in ev[2]], pat=occ)
        elif kind == "constant":
            rule["mobile_ion_indices"] = [ev[0], ev[1]]
            rec.update(hasM=True, M=[ev[0] + 1, ev[1] + 1])
        else:
            sites = []
            if sel == "explicit":
                sites = r.sample(range(s.n), r.randint(1, min(3, s.n)))
                rule["sites"] = list(sites)
            else:
                rule["sites"] = sel
            rec["sel"] = sel
            rec["sites"] = [x + 1 for x in sites]
            if kind == "pattern":
                # pin the rule to one event so that the pattern length always fits
                rule["mobile_ion_indices"] = [ev[0], ev[1]]
                rule["local_env_indices"] = list(ev[2])
                rec.update(hasM=True, M=[ev[0] + 1, ev[1] + 1], hasE=True, E=[x + 1 for x in ev[2]])
                chosen = select(s, ev, sel, sites)
                if not chosen:
                    continue
                pat = [-1 if r.random() < 0.5 else r.randrange(len(s.allowed[i])) for i in chosen]
                rule["pattern"] = ["*" if p == -1 else p for p in pat]
                rec["pat"] = pat
            else:
                lo, hi = count_window(r, rule)
                rec["lo"], rec["hi"] = lo, hi
                if kind == "state_count":
                    st = r.randrange(3)
                    rule["state"] = st
                    rec["st"] = st
                else:
                    sp = r.sample([s.mobile, "X", "Si", "P", "Mg", "Al"], r.randint(1, 2))
                    rule["species"] = sp if len(sp) > 1 else sp[0]
                    rec["spp"] = sp
        rules.append(rule)
        spec.append(rec)
    return rules, spec, site_species


def blank_rule():
    return {"type": "constant", "hasM": False, "M": [], "hasE": False, "E": [], "sel": "local_env",
            "sites": [], "pat": [], "st": 0, "spp": [], "lo": 0, "hi": 1000000, "bar": 0}


def count_window(r, rule):
    w = r.random()
    if w < 0.35:
        c = r.randint(0, 3)
        rule["count"] = c
        return c, c
    lo, hi = 0, 1000000
    if w < 0.85:
        lo = r.randint(0, 3)
        rule["min_count"] = lo
    if w > 0.6:
        hi = lo + r.randint(0, 3)
        rule["max_count"] = hi
    return lo, hi


def select(s, ev, sel, sites):
    if sel == "canonical":
        return list(dict.fromkeys([ev[0], ev[1]] + list(ev[2])))
    return {"local_env": list(ev[2]), "mobile_ion": [ev[0], ev[1]], "from": [ev[0]], "to": [ev[1]],
            "all": list(range(s.n)), "explicit": list(sites)}[sel]


def random_occ(r, s):
    occ = []
    for i in range(s.n):
        if i in s.hopsites:
            other = [k for k in range(len(s.allowed[i])) if k not in (s.mob[i], s.vac[i])]
            if other and r.random() < 0.12:
                occ.append(r.choice(other))
            else:
                occ.append(s.mob[i] if r.random() < 0.5 else s.vac[i])
        else:
            occ.append(r.randrange(len(s.allowed[i])))
    return occ


def available(s, occ, evs):
    out = []
    for k, (a, b, _e) in enumerate(evs):
        if (occ[a] == s.mob[a] and occ[b] == s.vac[b]) or (occ[a] == s.vac[a] and occ[b] == s.mob[b]):
            out.append(k)
    return out


def spec_sys(s, evs, spec_rules, default, site_species, opaque=False):
    return {
        "n": s.n, "mob": s.mob, "vac": s.vac,
        "ev": [{"f": a + 1, "t": b + 1, "env": [x + 1 for x in e]} for a, b, e in evs],
        "bm": {"rules": spec_rules, "hasdef": default is not None,
               "def": 0 if default is None else default * SCALE,
               "sp": [[site_species.get(i, {}).get(k, "") for k in range(4)] for i in range(s.n)]},
        "L": s.L, "pos": s.pos, "np": s.np, "sh": 2, "opaque": opaque,
    }


def config_for(s, **kw):
    fields = dict(structure_file="none.cif", mobile_ion_specie=s.mobile, mobile_ion_charge=1.0,
                  dimension=3, elementary_hop_distance=1.0, site_mapping=s.mapping,
                  supercell_shape=tuple(s.shape), temperature=500.0, attempt_frequency=1e13,
                  equilibration_passes=0, kmc_passes=1, random_seed=7, name="verif")
    fields.update(kw)
    return Configuration(**fields)
