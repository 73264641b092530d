#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note="", observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": False}
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(rec={"id": id, "title": title, "statement": statement,
                           "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a},
                      technique=technique, note=note))


TR = "TLA+ model checked with TLC + TLC validation of traces recorded from the real code"
GEN = "TLA+ model checked with TLC; behaviours generated by TLC replayed into the real code"

prop("C01", "Executed hops move exactly one ion into a vacancy and conserve every species",
     "Every event the simulator executes, in equilibration or production, moves one mobile ion between the two "
     "endpoints of a listed hop, from a site that holds it to a site that is vacant, and leaves every other site "
     "unchanged. Consequently the number of mobile ions, of vacancies and the placement of all other species never "
     "change during a run, whatever state codes the different sublattices use for ion and vacancy.",
     ["inputs", "histories", "configurations"],
     "all lattices, site mappings, event lists, starting occupations and event sequences",
     "tests run a handful of fixed systems in which every sublattice uses the same two state codes, for one seed",
     ["kmcpy/simulator/state.py", "kmcpy/simulator/kmc.py", "kmcpy/event/hop.py"],
     [("occupation update", "kmcpy/simulator/state.py State.apply_event"),
      ("direction test", "kmcpy/event/hop.py event_direction"),
      ("event choice", "kmcpy/simulator/kmc.py KMC.propose/KMC.update")],
     TR, "exhaustive on small systems in the model; sampled systems and runs of the real engine")

prop("C02", "Rates in use are always those of the current configuration",
     "After any sequence of executed events, the rate the simulator holds for every event equals the rate a "
     "simulator freshly set up on the current occupation would compute, and is zero exactly for the events that "
     "cannot be executed now; the table used to select events is the running sum of these rates.",
     ["inputs", "histories", "configurations"],
     "all event lists (with any overlap of endpoints and environments), rate models, rules and event histories",
     "a stale rate biases the dynamics silently; tests compare a few end-of-run numbers on one dense system, where "
     "almost every event depends on every other",
     ["kmcpy/simulator/kmc.py", "kmcpy/event/base.py", "kmcpy/models/local_barrier_model.py"],
     [("selective refresh", "kmcpy/simulator/kmc.py KMC.update"),
      ("dependency matrix", "kmcpy/event/base.py generate_event_dependencies")],
     TR, "exhaustive on small systems in the model; sampled event lists, rules and histories of the real engine")

prop("C03", "Events are chosen in proportion to their rates, with exponential waiting times",
     "From every configuration each event is executed with probability equal to its share of the total rate (an "
     "event that cannot be executed now is never chosen), the waiting time is positive and exponentially distributed "
     "with the total rate, and it is independent of which event is chosen. A configuration in which nothing can move "
     "is refused without touching the state.",
     ["inputs", "histories", "configurations"],
     "all rate tables (including rates spanning several orders of magnitude) and all random streams",
     "tests patch the random stream or look at one draw; the distribution over many draws and many rate tables is "
     "never examined",
     ["kmcpy/simulator/kmc.py"],
     [("event choice", "kmcpy/simulator/kmc.py KMC.propose"), ("waiting time", "kmcpy/simulator/kmc.py KMC.propose")],
     TR, "the selection rule is checked exhaustively on a discretised unit interval; recorded draws of the real "
     "engine are checked against the counting bounds of the specification")

prop("C04", "Clock, step counter and passes are accounted exactly",
     "A run executes equilibration passes and then production passes, each pass consisting of as many events as the "
     "simulated structure has sites of the mobile species; the step counter advances by one per executed event, the "
     "clock advances by exactly the waiting time of each production event and not at all during equilibration.",
     ["inputs", "configurations", "histories"],
     "all structures, starting states (including resumed ones with nonzero time and step), pass counts and seeds",
     "tests check one patched run with fake waiting times; pass length and resume offsets are not sampled",
     ["kmcpy/simulator/kmc.py", "kmcpy/simulator/state.py"],
     [("run loop", "kmcpy/simulator/kmc.py KMC.run"), ("counters", "kmcpy/simulator/state.py State.apply_event")],
     TR, "exhaustive on small systems in the model; sampled complete runs of the real engine")

prop("C05", "Every tracked ion follows exactly its own hops",
     "At every point of a production run each tracked ion is located on a different site that currently holds the "
     "mobile species, and every such site has its ion; executing a hop moves exactly the ion that was on the source "
     "site, adds one to its hop count, and adds to its displacement the shortest periodic vector from the source to "
     "the destination site.",
     ["inputs", "histories", "configurations"],
     "all cells (including skewed ones and hops across periodic boundaries), site mappings and event histories",
     "tests look at one or two hops in a unit cube; identities after many crossing hops, skewed cells and small "
     "supercells are never sampled",
     ["kmcpy/simulator/tracker.py"],
     [("identity bookkeeping", "kmcpy/simulator/tracker.py Tracker._record_mobile_ion_hop"),
      ("minimum image", "kmcpy/simulator/tracker.py Tracker._wrapped_hop_displacement")],
     TR, "exhaustive on small systems in the model; sampled cells, occupations and histories of the real tracker")

prop("C06", "Reported transport metrics are those of the tracked trajectories",
     "The reported mean square displacement, tracer and jump diffusivity, conductivity, Haven ratio and correlation "
     "factor are the textbook functions of the ions' own displacements and hop counts, of the time elapsed since "
     "tracking began, of the supercell volume, the number of mobile ions, temperature, dimension, hop distance and "
     "ion charge, in the documented units; a quantity switched off, or without elapsed time or hops to divide by, is "
     "reported as not-a-number and never as a finite value.",
     ["inputs", "histories", "configurations"],
     "all trajectories, cells, temperatures, dimensions, charges, starting clocks and selections of metrics",
     "tests compare printed numbers of one reference run; a wrong normalisation, unit or reference time passes there "
     "whenever the reference run does not depend on it",
     ["kmcpy/simulator/tracker.py", "kmcpy/simulator/property.py", "kmcpy/units.py"],
     [("metrics", "kmcpy/simulator/property.py"), ("summary", "kmcpy/simulator/tracker.py Tracker._calc_*")],
     TR, "exact rational arithmetic in the specification; sampled trajectories and complete runs of the real code")

prop("C07", "Property callbacks fire exactly on their schedule, in order, with the right arguments",
     "During a production run a property callback is called after exactly those events its own step or time interval "
     "asks for (its own setting overriding the global one field by field, the default being once per pass), with the "
     "state, step and simulation time at that moment and the production event index, callbacks attached earlier "
     "coming first; a schedule started late or an event that jumps over several due times fires once and continues "
     "from there, and a callback detached by another callback is not called any more.",
     ["histories", "inputs", "configurations"],
     "all intervals, attachments, waiting-time sequences, pass lengths and attach/detach histories",
     "the schedule depends on the whole history of event times; tests use one or two fixed intervals",
     ["kmcpy/simulator/tracker.py", "kmcpy/simulator/property.py", "kmcpy/simulator/kmc.py"],
     [("scheduling", "kmcpy/simulator/tracker.py Tracker.update"), ("plan", "kmcpy/simulator/property.py")],
     GEN + "; recorded traces validated", "all schedules of a small scope in the model and replayed; sampled longer histories and real runs")

prop("C08", "Property records keep exactly what was asked for, and runs do not leak into each other",
     "Records of a property are the values returned at the moments it fired, in order, keeping the last N when a "
     "limit is set and none when storing is off; disabled, detached or cleared properties produce nothing more, "
     "invalid or duplicate attachments are refused and leave the plan unchanged, an error in a callback is handled "
     "by the configured policy, and a later run or later attach/detach never changes the results of a finished run.",
     ["histories", "inputs", "configurations"],
     "all sequences of attach, enable, disable, detach, clear and run, all limits and all callback outcomes",
     "leaks between runs and wrong trimming show only for particular sequences of attach/detach/run",
     ["kmcpy/simulator/tracker.py", "kmcpy/simulator/property.py", "kmcpy/simulator/kmc.py", "kmcpy/simulator/results.py"],
     [("records", "kmcpy/simulator/property.py"), ("results", "kmcpy/simulator/results.py"),
      ("plan per run", "kmcpy/simulator/kmc.py KMC.run/attach/detach")],
     GEN + "; recorded traces validated", "all operation sequences of a small scope in the model and replayed; sampled longer histories and real runs")

prop("C09", "Local-barrier rules: the first matching rule decides the barrier",
     "For every configuration and event, a local-barrier model answers with the barrier (or requested property) of "
     "the first rule that matches, where each rule type matches exactly the states, patterns, counts, species and "
     "sites it names; without a match it uses the declared default or fails. Malformed or duplicate rules are "
     "refused without changing the model, a saved and reloaded model answers identically, and the rate is "
     "attempt frequency times exp(-barrier/kT) for a hop that is possible now and zero otherwise.",
     ["inputs", "configurations"],
     "all rule lists, occupations, events and site/species tables",
     "rule interplay (order, gating, selectors, wildcards, count windows) is combinatorial; tests sample single rules",
     ["kmcpy/models/local_barrier_model.py"],
     [("matching", "kmcpy/models/local_barrier_model.py LocalBarrierModel.compute"),
      ("validation", "kmcpy/models/local_barrier_model.py rule parsing")],
     TR, "exhaustive over a small universe of rules in the model; sampled rule lists and queries on the real model")

prop("C10", "Composite barriers are E_KRA plus half the signed site-energy difference",
     "For every occupation and event, a local cluster expansion evaluates to its constant plus the sum over features "
     "of coefficient times the sum over clusters of the product of the sites' basis values, reading the event's "
     "environment sites in the event's order; the composite rate is attempt frequency times "
     "exp(-(E_KRA + dE/2)/kT) for a possible hop and zero otherwise, dE being the energy after minus before the hop, "
     "so that forward and reverse barriers of a hop differ by exactly the energy difference (detailed balance).",
     ["inputs", "configurations", "histories"],
     "all expansions (occupation and multicomponent basis), coefficient sets, occupations, events and directions",
     "a sign, order or factor error keeps every test with a symmetric or single-direction example green",
     ["kmcpy/models/composite_lce_model.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/structure/basis.py"],
     [("rate", "kmcpy/models/composite_lce_model.py CompositeLCEModel.compute_probability"),
      ("evaluation", "kmcpy/models/local_cluster_expansion.py LocalClusterExpansion.compute")],
     TR, "exhaustive on a complete small system in the model; sampled expansions, systems and histories in the real engine")

prop("C11", "External site energies always see the occupation the simulation is in",
     "With an external site-energy model, the cached external occupation, the changes handed to the external code "
     "and any live runtime kept in step through apply_fn always equal the image of the current occupation under the "
     "declared site and state mappings, proposals never modify them, and the energy difference used is that of the "
     "external model between the occupation after and before the hop, in the declared units. Mappings that do not "
     "cover the sites and states of the events, or merge sites, or belong to another site order are refused.",
     ["inputs", "histories", "configurations"],
     "all site and state mappings (per-site, symbolic, fractional), external models, starting occupations and histories",
     "drift between the two occupations builds up over a history and only on sublattices with unlike state codes",
     ["kmcpy/models/site_energy.py", "kmcpy/models/composite_lce_model.py", "kmcpy/simulator/kmc.py"],
     [("mapping", "kmcpy/models/site_energy.py SiteEnergyModel.initialize_state"),
      ("commit", "kmcpy/models/site_energy.py SiteEnergyModel.apply_event")],
     TR, "exhaustive on a complete small system in the model; sampled mappings and histories in the real engine")

prop("C12", "One site order: every index refers to the same physical site everywhere",
     "For every structure, site mapping and supercell, the active-site order assigns each active site exactly one "
     "compact index, in the same increasing order as the full supercell; the primitive, full-supercell and active "
     "index maps are mutually inverse, the exported structures put each site at the position of its primitive site "
     "plus a lattice translation, selecting occupations or filtering structures picks exactly the active sites in "
     "that order, hop codes are positions in the site's own allowed list, and two orders compare as the same index "
     "space exactly when sites, allowed species and supercell agree, also after saving and loading.",
     ["inputs", "configurations"],
     "all primitive cells, fixed/active patterns, allowed-species lists, supercell shapes, and site subsets",
     "an index shifted by one cell or sublattice produces a plausible simulation of the wrong material; tests look "
     "at a few indices of one cell",
     ["kmcpy/structure/active_site_order.py", "kmcpy/event/hop.py"],
     [("index maps", "kmcpy/structure/active_site_order.py ActiveSiteOrder.from_structure_and_mapping"),
      ("selection", "kmcpy/structure/active_site_order.py ActiveSiteOrder.select_sites"),
      ("identity", "kmcpy/structure/active_site_order.py ActiveSiteOrder.validate_index_metadata")],
     TR, "exhaustive over small templates and supercells in the model; sampled cells and mappings on the real class")

prop("C14", "Event libraries keep their events, site index and dependencies through any history",
     "After any sequence of adding events, dependency generation, saving, loading and tagging with a "
     "site order, an event library lists exactly the events given to it, in order and with their data; the lookup of "
     "events by site lists exactly the events that involve the site; the dependency table, when generated, contains "
     "for every event all events whose endpoints or environment include one of its endpoints; and a file or tag that "
     "belongs to another site order, or whose events lie outside it, is refused. "
     "The dependency statistics are those of the table.",
     ["inputs", "histories", "configurations"],
     "all event lists and all sequences of library operations including save and load",
     "tests check one library built in one go; a lookup or table that goes stale after a particular sequence of "
     "operations silently freezes rates",
     ["kmcpy/event/base.py"],
     [("dependencies", "kmcpy/event/base.py EventLib.generate_event_dependencies"),
      ("persistence", "kmcpy/event/base.py EventLib.to/from_dict/from_file"),
      ("identity", "kmcpy/event/base.py EventLib.set_index_metadata")],
     GEN, "all operation sequences to a bounded depth generated by TLC and replayed, plus random longer histories")

prop("C15", "Generated events are exactly the hops of the crystal",
     "For every structure, mapping, supercell, cutoff and choice of hop endpoints, the generated event file lists "
     "each hop between an initial and a target site within the cutoff exactly once per geometry and nothing else, in "
     "the index space of the active-site order; each event's environment is exactly the set of active sites within "
     "the cutoff of its initial site; the same hop in another cell has the translated environment in the same order, "
     "and congruent environments are listed in congruent order (with strict matching, environments of one composition but different shape are refused); the stored dependencies cover all shared sites. "
     "Generation writes the event file and nothing else, unless reference environments are asked for.",
     ["inputs", "configurations"],
     "all cells (also skewed, with sites on cell boundaries), species, labels, site mappings, cutoffs and supercells",
     "tests count the events of one or two known crystals; missing or duplicated hops across periodic boundaries or "
     "with overlapping endpoint selections change rates without any error",
     ["kmcpy/event/generators.py", "kmcpy/structure/local_lattice_structure.py", "kmcpy/structure/cluster.py"],
     [("generation", "kmcpy/event/generators.py EventGenerator.generate_events"),
      ("periodic wrap", "kmcpy/event/generators.py normalize_supercell_tuple"),
      ("environment order", "kmcpy/structure/cluster.py ClusterMatcher.match")],
     TR, "the algorithm is checked exhaustively on small planar lattices; sampled crystals (exact integer geometry) on "
     "the real generator")

prop("C16", "Simulation states survive checkpoints and files exactly",
     "For every history of creating, copying, saving, loading and advancing states, a state read back from a "
     "checkpoint or dictionary has the same occupations, time and step as the one saved, loading a full-supercell "
     "occupation file selects exactly the active sites in order and anything of another length is refused, no state "
     "changes when another state, a caller's list or an exported dictionary is changed, and a simulation resumed from "
     "its checkpoint has the same state and the same rates as one that was never interrupted, for every further step.",
     ["histories", "crash points", "inputs"],
     "all operation sequences on states and state files, all stopping points of a simulation",
     "tests save and load one state; aliasing between copies, lost time or step, and a wrong selection of sites only "
     "show after particular sequences",
     ["kmcpy/simulator/state.py", "kmcpy/simulator/kmc.py"],
     [("checkpoint", "kmcpy/simulator/state.py State.save_checkpoint/load_checkpoint"),
      ("selection", "kmcpy/simulator/state.py State.from_file/from_occupations"),
      ("resume", "kmcpy/simulator/kmc.py KMC.from_config")],
     GEN, "all operation sequences to a bounded depth generated by TLC and replayed, plus random longer histories and "
     "interrupted simulations")

prop("C17", "Configurations are immutable values that mean the same after any change, save or load",
     "For every sequence of building, combining, changing, exporting, saving and loading configurations, each "
     "configuration holds exactly the fields given to it (defaults for the rest, only the changed fields after a "
     "change), never changes afterwards whatever happens to other configurations or to the caller's objects, compares "
     "equal exactly when its fields are equal, reads back equal from JSON, YAML and named YAML sections (loader paths "
     "included when asked for, other sections of the file kept, a file that cannot be read never replaced by a section), "
     "means the same when the file was written by hand, and invalid or unknown fields are always refused.",
     ["inputs", "histories"],
     "all field combinations and all sequences of configuration and file operations",
     "tests round-trip a few fixed configurations; a field lost or reset by one path, or shared between objects, "
     "changes the physics of a run without an error",
     ["kmcpy/simulator/config.py"],
     [("routing and changes", "kmcpy/simulator/config.py Configuration.__init__/with_runtime_changes/with_system_changes"),
      ("files", "kmcpy/simulator/config.py Configuration.to/from_file"),
      ("validation", "kmcpy/simulator/config.py SystemConfig/RuntimeConfig.__post_init__")],
     GEN, "all operation sequences to a bounded depth generated by TLC and replayed, plus random longer histories over "
     "all fields")

prop("C13", "A simulation only starts from inputs that belong together, and starts from exactly the given state",
     "For every combination of configuration, event file, initial occupations and initial-state or checkpoint file, a "
     "simulation starts exactly when the events were generated for the same site order (structure, site mapping, "
     "supercell), all site indices they mention exist and the state has one occupation per active site (or per site "
     "of the supercell); anything else is refused before any rate is computed. A started simulation has exactly the "
     "given occupations of the active sites in the shared order, the time and step of the checkpoint (zero otherwise) "
     "and the rate of every event for that state.",
     ["inputs", "configurations"],
     "all combinations of input files produced for the same or for different structures, mappings and supercells",
     "tests combine matching inputs and one or two mismatches; a file written for another supercell or site mapping "
     "with plausible lengths gives a silently wrong simulation",
     ["kmcpy/simulator/kmc.py", "kmcpy/structure/active_site_order.py", "kmcpy/simulator/state.py", "kmcpy/event/base.py"],
     [("loading", "kmcpy/simulator/kmc.py KMC.from_config"),
      ("identity", "kmcpy/structure/active_site_order.py ActiveSiteOrder"),
      ("state", "kmcpy/simulator/state.py State.from_file/from_occupations")],
     TR, "the decision is checked exhaustively on small site orders; sampled input combinations on the real loader")

prop("C18", "Runs are reproducible through every entry point and leave exactly their results on disk",
     "For every sequence of runs, the trajectory, displacements, hop counts, sampled rows and callback records of a "
     "run depend only on its inputs, seed and starting state: not on the entry point (objects, configuration, file, "
     "command line), on earlier runs in the process, or on the directory; running a simulation again continues from "
     "its last state. The files a run leaves hold exactly its results under the names of its label and number of "
     "passes, no file of a run with another label is touched, and nothing else is written.",
     ["histories", "inputs", "configurations"],
     "all sequences of runs of equal and different simulations, labels, callbacks and entry points in one directory",
     "tests compare one run with a stored result; state leaking between runs, an entry point that drops a setting, or "
     "output of one run overwriting another only show in sequences",
     ["kmcpy/simulator/kmc.py", "kmcpy/simulator/tracker.py", "kmcpy/api.py", "kmcpy/cli/run_kmc.py"],
     [("run", "kmcpy/simulator/kmc.py KMC.run"), ("output", "kmcpy/simulator/tracker.py Tracker.write_results"),
      ("command line", "kmcpy/cli/run_kmc.py")],
     GEN, "all sequences to a bounded depth generated by TLC and replayed in fresh directories, plus random longer ones")

prop("C19", "Models keep their meaning through files, dispatch and parameter changes",
     "For every sequence of building, parameterising, combining, saving, exporting and loading rate and energy models "
     "(local cluster expansion, local barrier, site energy, composite), a model read back from a file or dictionary, by "
     "its own class or by automatic dispatch, gives exactly the same answer for every event and occupation as the one "
     "written (a cluster expansion on its own is stored without its fitted parameters, which have their own file, and "
     "never answers with wrong ones); no model's answers change when another model, file or parameter record does; parameters for another "
     "number of features, site order or environment are refused; and files of unknown or mismatching type are refused "
     "rather than read as something else.",
     ["inputs", "histories"],
     "all sequences of model and file operations over all kinds of model",
     "tests round-trip one model of each kind; a field dropped or reset on one path changes every rate of a later run "
     "without an error",
     ["kmcpy/models"],
     [("files", "kmcpy/models/composite_lce_model.py, local_barrier_model.py, site_energy.py, local_cluster_expansion.py to/from_file"),
      ("dispatch", "kmcpy/models/base.py BaseModel.from_file/from_dict"),
      ("parameters", "kmcpy/models/local_cluster_expansion.py LocalClusterExpansion.set_parameters")],
     GEN, "all operation sequences to a bounded depth generated by TLC and replayed, plus random longer histories; "
     "meaning is compared by answers on sampled events and occupations")

prop("C20", "Fitted parameters and their history are kept exactly, and fits only ever add to it",
     "For every sequence of fits, saves, loads and appends, a parameter record read back from JSON or YAML, by itself or "
     "through a fitter, equals the one written in every field; a history holds exactly the records appended, in order, through any saves and loads; "
     "a fit returns a record bound to its model (same features, site order and environment), repeats exactly on equal "
     "data, writes that record to the parameter file and appends it to the history file keeping everything already "
     "there; data for another number of features is refused and a history file that cannot be read is never replaced.",
     ["inputs", "histories", "crash points"],
     "all sequences of fits and file operations, all record contents",
     "tests fit once and load once; lost history or a field that changes in a file only shows after a sequence",
     ["kmcpy/models/parameters.py", "kmcpy/models/fitting/fitter.py"],
     [("records", "kmcpy/models/parameters.py LCEModelParameters/LCEModelParamHistory"),
      ("fits", "kmcpy/models/fitting/fitter.py LCEFitter.fit")],
     GEN, "all operation sequences to a bounded depth generated by TLC and replayed, plus random longer ones over random "
     "records and fits")

prop("C21", "Cluster-expansion features are those of the local geometry",
     "For every crystal, center, cutoff, site order, basis and cluster cutoff, a local environment lists exactly the "
     "active sites (periodic images included) within the cutoff, in the requested order, with or without the center as "
     "requested; the features of a cluster expansion on it are, for each class of congruent clusters within the cluster "
     "cutoffs and each choice of site functions, the sum over the class of the products of the site functions of the "
     "occupation, so that for two-state sites symmetric occupations have equal features. Features of an atomic "
     "structure are those of the occupation it shows, the value of an event is the fitted coefficients times the features "
     "of that event's own neighbours, an environment is matched to a reference exactly when a congruence exists and in "
     "a congruent order, and features over another ordered environment are refused, as are coefficients that were fitted for another "
     "environment, for other features or for the features in another order.",
     ["inputs", "configurations"],
     "all crystals, centers, cutoffs, orders, site mappings, bases, occupations and reference environments",
     "tests check one published structure and one two-site cell; a missed or doubled cluster, a wrong class or an "
     "unordered environment changes every barrier by a plausible amount",
     ["kmcpy/structure/local_lattice_structure.py", "kmcpy/structure/local_site_order.py", "kmcpy/structure/cluster.py",
      "kmcpy/models/local_cluster_expansion.py"],
     [("environment", "kmcpy/structure/local_lattice_structure.py LocalLatticeStructure"),
      ("congruence", "kmcpy/structure/cluster.py ClusterMatcher"),
      ("features", "kmcpy/models/local_cluster_expansion.py LocalClusterExpansion.build/get_occ_corr_from_structure/compute")],
     TR, "exhaustive on small planar environments in the model; sampled crystals of the real code, judged with exact "
     "integer geometry. Not claimed: symmetry of features on sites with more than two states (they use the site order), "
     "approximate matches, structures listing vacancies as atoms or with every active site empty")

prop("C22", "Occupation vectors and atomic structures say the same about every site",
     "For every template cell, site mapping, basis and (also skewed or repeated) supercell, reading the occupation of "
     "an atomic structure gives each site the state code of the atom on it (its vacancy code when there is none), "
     "whatever the order of the atoms, their periodic images and small displacements within the tolerance; a structure "
     "with a species its site does not allow, two atoms on one site, an atom off every site or another lattice is "
     "refused. Writing the structure of an occupation gives exactly these atoms back, and copies, supercells and "
     "active-only views keep every site together with its own allowed species.",
     ["inputs", "histories", "configurations"],
     "all templates, site mappings, supercell matrices, structures, occupations and sequences of lattice operations",
     "tests convert one template with its own supercell; a permuted site list or a lost allowed-species entry gives a "
     "plausible but wrong starting configuration",
     ["kmcpy/structure/lattice_structure.py", "kmcpy/structure/basis.py"],
     [("reading", "kmcpy/structure/lattice_structure.py LatticeStructure.get_occ_from_structure"),
      ("writing", "kmcpy/structure/lattice_structure.py LatticeStructure.get_structure_from_occ"),
      ("supercells", "kmcpy/structure/lattice_structure.py LatticeStructure.make_supercell")],
     TR, "exhaustive on small planar templates in the model; sampled crystals and operation sequences of the real code, "
     "judged with exact integer geometry. Not claimed: a missing atom where the site has no vacancy, more than two "
     "species in the occupation basis, oxidation states of one element, atoms within the tolerance of two sites")

prop("C23", "Enumerated environments and NEB end points are exactly the ones asked for",
     "For every crystal, site mapping, basis, center (a site or a point), cutoff and request (variable species, named "
     "variable sites, composition, base structure, maximum number, external ordering transformation), the enumeration "
     "returns exactly the distinct assignments of the offered species to the variable sites with the asked composition, "
     "each once (as many as the maximum when that is smaller), with every other site as in the base, its local "
     "occupation read over the sites of the environment in the requested order, and a structure showing exactly that "
     "occupation. The two end points of a hop differ from the environment only at the two hop sites: the mobile species "
     "on the starting site and a vacancy on the other, and the reverse, as occupations and as structures of equal atom "
     "order; impossible requests and hops are refused.",
     ["inputs", "configurations"],
     "all crystals, requests and hops",
     "tests enumerate two tiny cells; a missed, doubled or unfaithful environment biases the fitted barriers without any "
     "error",
     ["kmcpy/structure/local_environment_enumerator.py"],
     [("enumeration", "kmcpy/structure/local_environment_enumerator.py enumerate_local_environments"),
      ("end points", "kmcpy/structure/local_environment_enumerator.py generate_neb_endpoint_pair/enumerate_neb_endpoint_pairs")],
     TR, "exhaustive on small planar crystals in the model; sampled crystals and requests of the real code, judged with "
     "exact integer geometry. Not claimed: a crystal with no atom at all, composition keys with oxidation states, the "
     "order of the results beyond being repeatable")

prop("C24", "Fitting data stay aligned from structures to coefficients, and a fit is the regularised least-squares solution",
     "For every history of adding structures (objects, files, entries, batches; valid or not) to data loaders, the rows of "
     "a loader are, in the order added, the features and occupation the model gives for that structure, its barrier and "
     "its metadata, all over the same features; a refused addition adds nothing but the items before the refused one, and "
     "no addition changes earlier rows or another loader. The files written hold exactly these rows with one weight each, "
     "and refused writes leave the files alone. A fit of such files gives coefficients that minimise the weighted squared "
     "error plus the penalty on the (if asked, normalised) coefficients, predictions and RMSE of these coefficients, and "
     "the leave-one-out error of the fits without each row, for any number of features.",
     ["inputs", "histories", "configurations"],
     "all sequences of additions and writes, all structures, models, weights, penalties and data shapes",
     "tests add one or two structures and fit one published data set; a shifted row, a stale weight file or an ignored "
     "weight gives plausible but wrong barriers",
     ["kmcpy/io/neb/data.py", "kmcpy/models/fitting/fitter.py"],
     [("loader", "kmcpy/io/neb/data.py NEBDataLoader.add/add_structures/write_fitting_inputs"),
      ("fit", "kmcpy/models/fitting/fitter.py LCEFitter.fit")],
     TR, "exhaustive on short histories and small one-feature fits in the model; sampled histories of the real code; "
     "optimality of fits within the solver's tolerance (1% of the data's spread). Not claimed: which model a loader goes on "
     "with after a different one was passed, fits of fewer than three rows")

prop("C25", "A crystal file becomes exactly its sites, and supercells and neighbour lists keep their identities",
     "For every CIF with explicit symmetry operations, fully or partially occupied atoms and several species on one site "
     "(listed at any equivalent position), loading gives one site for every position the operations generate from the "
     "listed atoms and no other, with the listed label(s) and occupancies, numbered in the order of the file (atoms, then "
     "operations); loading again gives the same, and the symmetrised form groups exactly the equivalent sites. A "
     "supercell has for every site and every cell of the scaling matrix exactly one copy, which lies where its recorded "
     "site number and cell say; the site index and site lookups return exactly the site asked for, or refuse when there is "
     "none; neighbour lists contain exactly the periodic copies in the distance window of the pair of species, with the "
     "identity of the site they are copies of.",
     ["inputs", "configurations"],
     "all symmetry groups, atom lists, scaling matrices (diagonal or not), lookups and cutoff tables",
     "tests load one published file and one diagonal supercell",
     ["kmcpy/io/cif.py", "kmcpy/structure/sites.py", "kmcpy/structure/neighbors.py"],
     [("loading", "kmcpy/io/cif.py _LabeledCifParser._get_labeled_structure, load_labeled_structure_from_cif"),
      ("supercell", "kmcpy/structure/sites.py make_kmc_supercell, build_site_index, find_site_by_*"),
      ("neighbours", "kmcpy/structure/neighbors.py get_cutoff_neighbor_info, get_range_cutoff_neighbor_info")],
     TR, "exhaustive on small planar groups with short atom lists in the model; sampled files with groups of up to 24 operations, "
     "coordinates on a grid of 1/20, supercells of up to 48 sites. Not claimed: primitive=True, magnetic files, occupancies "
     "that sum to more than one, left-handed scaling matrices, distances exactly on a cutoff")

prop("C26", "Occupation vectors are values: always valid, independent of each other, and faithful across bases",
     "For every history of creating, assigning, flipping, copying, slicing, converting and comparing occupation vectors "
     "over the built-in and custom registered bases, each vector holds exactly the values the history gives it and only "
     "values of its basis: invalid values are refused and change nothing; only assignment and in-place flips change a "
     "vector, and only the one they are applied to (never copies, slices, conversions, source arrays or returned data); "
     "conversion keeps which sites match, copies are equal, vectors are equal exactly when basis and values are, "
     "equivalent exactly when the same sites match; counts and index lists are those of the values. Seeded random vectors "
     "are reproducible and leave other random streams alone. A basis restored from its dictionary is the same basis, and "
     "Chebyshev site functions are T_1..T_(n-1) at n equally spaced points.",
     ["inputs", "histories", "configurations"],
     "all operation histories, bases, vector lengths and values, including invalid ones",
     "tests check single calls on two-state vectors; aliasing, refused assignments and third states only show in histories",
     ["kmcpy/structure/basis.py"],
     [("vectors", "kmcpy/structure/basis.py Occupation"), ("bases", "kmcpy/structure/basis.py BasisFunction, ChebyshevBasis, OccupationBasis, register_basis")],
     GEN, "exhaustive short histories over two-site vectors, replayed into the code; longer sampled histories. Not claimed: flips "
     "of third states, conversion to a basis of the same kind with fewer states, one class registered under two names")

prop("C27", "Command-line setup never costs a user a file, and templates and arguments mean exactly the documented settings",
     "For every history of `kmcpy init`, its module entry point and write_template among a user's own files and "
     "directories, a template is written exactly to the asked path (creating the directories above it, expanding ~), a "
     "path that exists is refused and left untouched unless force is given, a directory or a path below a file is refused "
     "either way, and nothing else in the tree changes. A written template always loads as a configuration of the "
     "documented defaults with placeholders for the three input files, whatever was there before; editing an entry of it "
     "changes that field of the loaded configuration and no other, and removing one means its default. The run command sets "
     "up the simulation with exactly what its input file says or, without one, the defaults with the arguments given, and "
     "refuses invalid ones.",
     ["histories", "configurations", "inputs"],
     "all orders of templates, edits, removals and user files over paths at any depth, and every entry point",
     "tests write one template to an empty directory; overwriting, nested paths and the meaning of every entry need histories",
     ["kmcpy/cli/init.py", "kmcpy/cli/main.py", "kmcpy/cli/run_kmc.py", "kmcpy/simulator/config.py"],
     [("template", "kmcpy/cli/init.py build_template, write_template"), ("commands", "kmcpy/cli/main.py main; kmcpy/cli/init.py main; kmcpy/cli/run_kmc.py main"),
      ("loading", "kmcpy/simulator/config.py Configuration.from_file")],
     GEN, "exhaustive short histories over a small tree, replayed into the code in a scratch directory; longer sampled histories. "
     "Not claimed: comments of the template, symbolic links, permissions")

NOT_APPLICABLE = []

if __name__ == "__main__":
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(p["rec"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash harness/setup.sh",
        "checks": [
            {"property": p["rec"]["id"],
             "quick_cmd": "python3 harness/run.py %s quick" % p["rec"]["id"],
             "thorough_cmd": "python3 harness/run.py %s thorough" % p["rec"]["id"],
             "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
            for p in PROPS if p["technique"]
        ],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
