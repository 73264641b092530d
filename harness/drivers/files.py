"""An engine case written to the files a user would start a simulation from."""
from __future__ import annotations

from kmcsys import *  # noqa: F401,F403
from lib import *  # noqa: F401,F403


def write_inputs(case, tag, model=None, lib=None):
    """Write structure, events and model; return the configuration fields that load them."""
    s = case.s
    names = dict(structure_file="s-%s.cif" % tag, event_file="e-%s.json" % tag, model_file="m-%s.json" % tag)
    write_structure(names["structure_file"], s.template)
    (lib or make_lib(case.evs, s.order)).to(names["event_file"])
    (model or case.model()).to(names["model_file"])
    return dict(names, model_type="local_barrier", site_mapping=dict(s.mapping), supercell_shape=tuple(s.shape),
                mobile_ion_specie=s.mobile)


def occ_full(r, s, occ):
    """The same occupation listed for all supercell sites (fixed sites get arbitrary values)."""
    full = [r.randint(0, 2) for _ in range(s.order.original_site_count)]
    for a, k in enumerate(s.order.active_to_original):
        full[k] = occ[a]
    return full
