"""Which stages decide which property."""


def model(module, cfg=None, **kw):
    return dict(kind="model", module=module, cfg=cfg or module + ".cfg", **kw)


def negative(module, cfg, **kw):
    return dict(kind="negative", module=module, cfg=cfg, thorough_only=True, **kw)


def trace(driver, tr, mode="", n=50, **kw):
    return dict(kind="trace", driver=driver, trace=tr, mode=mode, n=n, **kw)


SAMPLING = [model("MCSampling", cfg_thorough="MCSampling_thorough.cfg"),
            trace("sampling", "SamplingTrace", "tracker", 200),
            trace("sampling", "SamplingTrace", "gen", gen="MCSampling", gen_cfg="GenSampling.cfg",
                  gen_cfg_thorough="GenSampling_thorough.cfg", cap_quick=1200, cap_thorough=20000),
            trace("sampling", "SamplingTrace", "kmc", 100)]
ENGINE = [model("MCKMC")]

CHECKS = {
    "C01": dict(stages=ENGINE + [trace("kmc_engine", "KMCTrace", "plain", 120), trace("kmc_engine", "KMCTrace", "run", 60)]),
    "C02": dict(stages=ENGINE + [trace("kmc_engine", "KMCTrace", "plain", 120), trace("kmc_engine", "KMCTrace", "nonlocal", 80),
                                 trace("kmc_engine", "KMCTrace", "nodeps", 30), trace("kmc_engine", "KMCTrace", "run", 30),
                                 trace("composite", "LCETrace", "ext", 60), trace("composite", "LCETrace", "lce", 40)]),
    "C03": dict(stages=[model("MCSelection", cfg_thorough="MCSelection_thorough.cfg"),
                        trace("selection", "SelectionTrace", "static", 24, shards=2),
                        trace("selection", "SelectionTrace", "run", 12)]),
    "C04": dict(stages=ENGINE + [trace("kmc_engine", "KMCTrace", "run", 80), trace("kmc_engine", "KMCTrace", "plain", 40)]),
    "C06": dict(stages=[model("MCTransport", cfg_thorough="MCTransport_thorough.cfg"),
                        trace("transport", "TransportTrace", "func", 150),
                        trace("transport", "TransportTrace", "run", 60)]),
    "C07": dict(stages=SAMPLING), "C08": dict(stages=SAMPLING),
    "C09": dict(stages=[model("MCBarrier", cfg_thorough="MCBarrier_thorough.cfg"),
                        trace("barrier", "BarrierTrace", "", 300, shards=2)]),
    "C10": dict(stages=[model("MCLCE", "MCLCE_none.cfg"), model("MCLCE", "MCLCE_lce.cfg"), model("MCLCE", "MCLCE_ext.cfg"),
                        negative("MCLCE", "MCLCE_neg.cfg"), trace("composite", "LCETrace", "lce", 150)]),
    "C11": dict(stages=[model("MCLCE", "MCLCE_ext.cfg"), trace("composite", "LCETrace", "ext", 200, shards=2)]),
    "C12": dict(stages=[model("MCIndexMap", cfg_thorough="MCIndexMap_thorough.cfg"), trace("index", "IndexMapTrace", "", 200, shards=2)]),
    "C13": dict(stages=[model("MCStart", cfg_thorough="MCStart_thorough.cfg"), negative("MCStart", "MCStart_neg.cfg"),
                        trace("start", "StartTrace", "", 300, shards=3)]),
    "C14": dict(stages=[model("MCEventLib", cfg_thorough="MCEventLib_thorough.cfg"), trace("eventlib", "EventLibTrace", "", 120),
                        trace("eventlib", "EventLibTrace", "gen", gen="MCEventLib", gen_cfg="GenEventLib.cfg",
                              gen_cfg_thorough="GenEventLib_thorough.cfg", cap_quick=1000, cap_thorough=15000)]),
    "C15": dict(stages=[model("MCEventGen", cfg_thorough="MCEventGen_thorough.cfg"), negative("MCEventGen", "MCEventGen_neg.cfg"),
                        trace("eventgen", "EventGenTrace", "", 200, shards=4, chunk=60)]),
    "C16": dict(stages=[model("MCStateStore", cfg_thorough="MCStateStore_thorough.cfg"), trace("states", "StateStoreTrace", "", 200),
                        trace("states", "StateStoreTrace", "resume", 50, shards=2),
                        trace("states", "StateStoreTrace", "gen", gen="MCStateStore", gen_cfg="GenStateStore.cfg",
                              gen_cfg_thorough="GenStateStore_thorough.cfg", cap_quick=1000, cap_thorough=15000)]),
    "C17": dict(stages=[model("MCConfig", cfg_thorough="MCConfig_thorough.cfg"), trace("configs", "ConfigTrace", "", 250, shards=2),
                        trace("configs", "ConfigTrace", "gen", gen="MCConfig", gen_cfg="GenConfig.cfg",
                              gen_cfg_thorough="GenConfig_thorough.cfg", cap_quick=1000, cap_thorough=15000)]),
    "C18": dict(stages=[model("MCRuns", cfg_thorough="MCRuns_thorough.cfg"), negative("MCRuns", "MCRuns_neg.cfg"),
                        trace("runs", "RunsTrace", "", 40, shards=4),
                        trace("runs", "RunsTrace", "gen", gen="MCRuns", gen_cfg="GenRuns.cfg",
                              gen_cfg_thorough="GenRuns_thorough.cfg", cap_quick=300, cap_thorough=3000)]),
    "C22": dict(stages=[model("MCSiteLattice", cfg_thorough="MCSiteLattice_thorough.cfg"), negative("MCSiteLattice", "MCSiteLattice_neg.cfg"),
                        trace("lattice", "SiteLatticeTrace", "", 240, shards=4)]),
    "C21": dict(stages=[model("MCClusterExp", cfg_thorough="MCClusterExp_thorough.cfg"), negative("MCClusterExp", "MCClusterExp_neg.cfg"),
                        trace("clusterexp", "ClusterExpTrace", "", 200, shards=8)]),
    "C23": dict(stages=[model("MCEnumerate", cfg_thorough="MCEnumerate_thorough.cfg"), negative("MCEnumerate", "MCEnumerate_neg.cfg"),
                        trace("enumerate_env", "EnumerateTrace", "", 160, shards=6)]),
    "C24": dict(stages=[model("MCFitData", cfg_thorough="MCFitData_thorough.cfg"), negative("MCFitData", "MCFitData_neg.cfg"),
                        trace("fitdata", "FitDataTrace", "loader", 120, shards=4), trace("fitdata", "FitDataTrace", "fit", 80, shards=2)]),
    "C25": dict(stages=[model("MCCif", cfg_thorough="MCCif_thorough.cfg"), negative("MCCif", "MCCif_neg.cfg"),
                        trace("cif", "CifTrace", "", 160, shards=6)]),
    "C26": dict(stages=[model("MCOcc", cfg_thorough="MCOcc_thorough.cfg"), negative("MCOcc", "MCOcc_neg.cfg"),
                        trace("occ", "OccTrace", "gen", gen="MCOcc", gen_cfg="GenOcc.cfg", gen_cfg_thorough="GenOcc_thorough.cfg",
                              cap_quick=3000, cap_thorough=30000),
                        trace("occ", "OccTrace", "", 400, shards=3)]),
    "C27": dict(stages=[model("MCScaffold", cfg_thorough="MCScaffold_thorough.cfg"), negative("MCScaffold", "MCScaffold_neg.cfg"),
                        trace("scaffold", "ScaffoldTrace", "gen", gen="MCScaffold", gen_cfg="GenScaffold.cfg",
                              gen_cfg_thorough="GenScaffold_thorough.cfg", cap_quick=600, cap_thorough=6000),
                        trace("scaffold", "ScaffoldTrace", "", 150, shards=3)]),
    "C19": dict(stages=[model("MCModelStore", cfg_thorough="MCModelStore_thorough.cfg"), negative("MCModelStore", "MCModelStore_neg.cfg"),
                        trace("models", "ModelStoreTrace", "gen", gen="MCModelStore", gen_cfg="GenModelStore.cfg",
                              gen_cfg_thorough="GenModelStore_thorough.cfg", cap_quick=600, cap_thorough=6000),
                        trace("models", "ModelStoreTrace", "", 60, shards=4)]),
    "C20": dict(stages=[model("MCParamStore", cfg_thorough="MCParamStore_thorough.cfg"), negative("MCParamStore", "MCParamStore_neg.cfg"),
                        trace("params", "ParamStoreTrace", "gen", gen="MCParamStore", gen_cfg="GenParamStore.cfg",
                              gen_cfg_thorough="GenParamStore_thorough.cfg", cap_quick=600, cap_thorough=8000),
                        trace("params", "ParamStoreTrace", "", 120, shards=3)]),
    "C05": dict(stages=ENGINE + [trace("kmc_engine", "KMCTrace", "plain", 120), trace("kmc_engine", "KMCTrace", "run", 60)]),
}
