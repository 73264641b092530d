"""Starting simulations from files that belong together, or do not."""
import copy

import index
from files import *  # noqa: F401,F403
from kmc_engine import Case, encode_rates
from lib import *  # noqa: F401,F403

from kmcpy.simulator.kmc import KMC


def tok(x):
    return float(x).hex()


def space_of(s):
    """A random system as an IndexMap case."""
    pts = [[as_int(x) for x in c] for c in s.template.cart_coords]
    return {"m": [[as_int(x) for x in row] for row in s.template.lattice.matrix], "pts": pts,
            "species": [x.specie.symbol for x in s.template], "mapping": copy.deepcopy(s.mapping), "shape": list(s.shape)}


def variant(r, cs, mobile):
    v = copy.deepcopy(cs)
    w = r.randrange(8)
    if w == 0:
        return v
    if w == 1:
        v["shape"][r.randrange(3)] = r.choice([1, 2, 3])
    elif w == 2:
        sh = list(v["shape"])
        r.shuffle(sh)
        v["shape"] = sh
    elif w == 3:  # the same species in another order: other occupation codes
        k = r.choice([k for k in v["mapping"] if isinstance(v["mapping"][k], list)])
        v["mapping"][k] = v["mapping"][k][::-1]
    elif w == 4:  # a sublattice becomes fixed, or the other way round
        k = r.choice(sorted(set(v["species"])))
        v["mapping"][k] = [k, "S"] if not isinstance(v["mapping"][k], list) else k
    elif w == 5 and len(v["species"]) > 1:
        k = r.randrange(len(v["species"]))
        del v["species"][k]
        del v["pts"][k]
    elif w == 6:  # one more fixed or active site
        fr = np.array([r.randint(0, 3) / 4 + 0.1 for _ in range(3)])
        v["pts"].append([float(x) for x in fr @ np.array(v["m"], float)])
        v["species"].append(r.choice(["O", "Cs", "Si", mobile]))
        v["loose"] = True
    else:
        k = r.randrange(len(v["species"]))
        v["species"][k] = r.choice([mobile, "O", "Cs", "Si"])
    return v


def trial(seed, k):
    r = rng_for(seed, "start", k)
    while True:
        case = Case(r, via_cif=True)
        s = case.s
        own = space_of(s)
        if any(1999999999 in p for p in own["pts"]):
            continue
        other = variant(r, own, s.mobile)
        st = index.structure(other)
        try:
            perm = read_back(st)
            order = index.build(other)
        except ValueError:
            continue
        # the configuration's structure is read from a file, in the reader's order
        if perm != list(range(len(st))) or order.active_site_count > 40:
            continue
        break
    tid = "start:%d:%d" % (seed, k)
    tag = tid.replace(":", "-")
    # which of the two orders the configuration, the events and the state use
    who = r.choice(["oooo", "ooo", "vvv", "ovo", "voo", "vov", "oov", "ovv"])[:3]
    cfg_c, ev_c, st_c = (own if x == "o" else other for x in who)
    orders = {"o": s.order, "v": order}
    names = dict(structure_file="s-%s.cif" % tag, event_file="e-%s.json" % tag, model_file="m-%s.json" % tag)
    t = {"id": tid, "raised": "", "zero": tok(0.0), "sys": {}, "o": {"ok": False}}
    try:
        write_structure(names["structure_file"], index.structure(cfg_c))
        eo, co, so = orders[who[1]], orders[who[0]], orders[who[2]]
        if who[1] == "o":
            evs = case.evs
        else:
            n = eo.active_site_count
            evs = [tuple(r.sample(range(n), 2)) + (r.sample(range(n), r.randint(0, min(2, n))),) for _ in range(r.randint(1, 4))] if n > 1 else [(0, 0, [])]
        lib = make_lib(evs, eo)
        tamper = r.random()
        tagged = True
        lib.to(names["event_file"])
        if tamper < 0.08:
            d = json.load(open(names["event_file"]))
            d.pop("index_metadata")
            write_json(names["event_file"], d)
            tagged = False
        idx = [x for a, b, e in evs for x in [a, b] + list(e)]
        if 0.08 <= tamper < 0.16:  # an event that lies outside the order it claims
            d = json.load(open(names["event_file"]))
            far = eo.active_site_count + r.randint(0, 2) if r.random() < 0.7 else -1
            e = d["events"][r.randrange(len(d["events"]))]
            if r.random() < 0.5:
                e["mobile_ion_indices"] = [e["mobile_ion_indices"][0], far]
            else:
                e["local_env_indices"] = list(e["local_env_indices"]) + [far]
            write_json(names["event_file"], d)
            idx.append(far)
        if who[0] == "v":  # the site species are those of the unvaried order
            keep = [q for q, x in enumerate(case.rules) if x["type"] != "species_count"]
            case.rules, case.spec_rules = [case.rules[q] for q in keep], [case.spec_rules[q] for q in keep]
        case.model().to(names["model_file"])

        def occs(o):
            n = r.choice([o.active_site_count, o.original_site_count])
            if r.random() < 0.1:
                n += r.choice([-1, 1])
            return [r.randint(0, 1) for _ in range(n)]

        stt = {"how": r.choice(["occ", "occ", "file", "file", "file", "both", "none" if r.random() < 0.3 else "occ"]),
               "kind": r.choice(["ckpt", "init", "bare", "other"] if r.random() < 0.3 else ["ckpt", "init"]),
               "occ": occs(so), "focc": occs(so), "time": r.choice([0.0, 1e-7 / 3]), "step": r.choice([0, 44])}
        fields = dict(names, model_type="local_barrier", mobile_ion_specie=s.mobile)
        if stt["how"] in ("occ", "both"):
            fields["initial_occupations"] = list(stt["occ"])
        if stt["how"] in ("file", "both"):
            d = {"ckpt": {"occupations": stt["focc"], "time": stt["time"], "step": stt["step"]}, "init": {"occupation": stt["focc"]},
                 "bare": {"occupations": stt["focc"]}, "other": {"values": stt["focc"]}}[stt["kind"]]
            write_json("i-%s.json" % tag, d)
            fields["initial_state_file"] = "i-%s.json" % tag
        hasmap = r.random() > 0.04
        cfg = config_for(s, **dict(fields, site_mapping=copy.deepcopy(cfg_c["mapping"]) if hasmap else None,
                                   supercell_shape=tuple(cfg_c["shape"])))
        try:
            kmc = KMC.from_config(cfg)
            t["o"] = {"ok": True, "occ": [int(x) for x in kmc.simulation_state.occupations], "time": tok(kmc.simulation_state.time),
                      "step": int(kmc.simulation_state.step), "rates": encode_rates(kmc, cfg)}
        except (ValueError, KeyError, IndexError, TypeError):
            pass
        stt["time"] = tok(stt["time"])
        t["w"] = {"c": index_case(cfg_c), "hasmap": hasmap, "ev": {"tagged": tagged, "c": index_case(ev_c), "idx": idx}, "st": stt}
        if t["o"]["ok"] and len(t["o"]["occ"]) == s.n and index_case(cfg_c) == index_case(own) and max(idx) < s.n:
            t["sys"] = spec_sys(s, evs, case.spec_rules, case.default, case.site_species)
        elif t["o"]["ok"]:
            t["sys"] = blind(co, cfg_c, evs, case)
    except Exception as exc:  # noqa: BLE001
        t["raised"] = describe(exc)
    for p in os.listdir("."):
        if tag in p:
            os.unlink(p)
    return t


def index_case(cs):
    c = index.spec_case({**cs, "pts": [[int(round(x)) for x in p] for p in cs["pts"]]})
    return c


def blind(order, cs, evs, case):
    """The specification's system for a simulation started in the varied order."""
    s = Sys()
    allowed = [index.norm(cs["mapping"][cs["species"][p]]) for p in order.active_to_primitive]
    s.n = order.active_site_count
    s.mob = [a.index(case.s.mobile) if case.s.mobile in a else -1 for a in allowed]
    s.vac = [a.index("X") if "X" in a else -1 for a in allowed]
    s.L, s.pos, s.np = case.s.L, [[0, 0, 0]] * s.n, 0
    return spec_sys(s, evs, case.spec_rules, case.default, case.site_species)


if __name__ == "__main__":
    a = args()
    write_json(a.out, [trial(a.seed, k) for k in range(a.n)])
