"""Writes /verif/MANIFEST.json from the checks present in harness/props."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("TLA+ run model (PMC.tla): TLC validates traces of real runs; MC_Population (record algebra) exhaustive", "every field of every recorded particle of pairwise-covering run scenarios, recomputed in TLA+ from the stored x"),
 "C02": ("TLA+ run model (PMC.tla): TLC validates traces of real runs; MC_Population (support guard) exhaustive", "every likelihood evaluation and every stored particle judged against the TLA+ support predicate"),
 "C03": ("TLA+ run model (PMC.tla): TLC validates traces of real runs; MC_Ladder (bisection and stopping) exhaustive", "each iteration's temperature and target judged by the TLA+ sample-size rule on the recorded history"),
 "C04": ("TLA+ weights model (Weights.tla): TLC validates traces of helper calls and real runs", "weights and evidences recomputed in IEEE doubles inside TLC for arbitrary histories and runs"),
 "C05": ("TLA+ run model (MC_Lineage exhaustive, PMC.tla): TLC validates traces of real runs", "stopping rule and append-only history for run/continue/read sequences"),
 "C06": ("TLA+ run model (MC_Lineage exhaustive, PMC.tla): TLC validates traces of real runs", "recorded calls compared with the user function's own log at every save point"),
 "C07": ("TLA+ Metropolis-Hastings model (MC_MH exhaustive, Kernel.tla): TLC validates single-step traces of the real kernels", "acceptance probability and move of every walker recomputed in TLA+"),
 "C08": ("TLA+ resampling model (MC_Systematic exhaustive, Resample.tla): TLC behaviours replayed into the code and traces validated", "all small weight vectors and offsets exhaustively, random ones and in-run ancestors"),
 "C09": ("TLA+ trimming model (MC_Trim exhaustive, Trim.tla): TLC behaviours replayed into the code and traces validated", "all small weight vectors exhaustively, random ones beyond"),
 "C10": ("TLA+ checkpoint/crash model (MC_Checkpoint exhaustive, Checkpoint.tla): TLC validates recorded file-system traces; crash points enumerated on the real code", "every file-system operation of a save is a crash/fault point"),
 "C11": ("TLA+ run/save/resume model (MC_Lineage exhaustive): resume behaviours replayed into the code, traces validated by TLC", "every save point of covering scenarios resumed and compared with the uninterrupted run"),
 "C12": ("TLA+ posterior model (PMC.tla): TLC validates traces of posterior() calls", "all option combinations on recorded histories"),
 "C13": ("TLA+ evaluation model (MC_Dist exhaustive, Dist.tla): TLC validates twin-run traces", "evaluation modes and completion orders compared run against run"),
 "C14": ("TLA+ protocol model (MC_MPIPool exhaustive, MPIPool.tla): every schedule of small worlds driven through the real pool, recorded interleavings validated by TLC", "all interleavings for small worker/task numbers"),
 "C15": ("TLA+ reparameterisation model (MC_Fold exhaustive, Reparam.tla): TLC behaviours replayed and traces validated", "boundary folding exhaustively on a lattice; transforms and Jacobians recomputed in doubles"),
 "C16": ("TLA+ prior model (Prior.tla): TLC validates traces of Prior calls", "column-wise densities, bounds and distribution of draws"),
 "C17": ("TLA+ flow-identity model (Flow.tla): TLC validates traces of flow calls", "inverse, determinant and density identities"),
 "C18": ("TLA+ early-stopping model (MC_FlowTrain exhaustive, FlowTrain.tla): TLC behaviours replayed into Flow.fit and traces validated", "all short loss sequences exhaustively"),
 "C19": ("TLA+ evidence model (MC_Evidence exhaustive, Evidence.tla): TLC validates traces of evidence estimation", "estimate recomputed from the draws of a recording flow"),
 "C20": ("TLA+ configuration model (MC_Config exhaustive, Config.tla): TLC enumerates configurations, replayed into the constructor", "all combinations of the enumerated argument values"),
 "C21": ("TLA+ geometry model (Geometry.tla): TLC validates traces of geometry fits", "weighted moments and fixed-point equations recomputed in doubles"),
 "C23": ("TLA+ interruption model (MC_Interrupt exhaustive) and run model (PMC.tla): TLC validates traces of runs whose user code fails", "user code fails at random points of pairwise-covering run scenarios; the continued run is judged by the whole run model"),
 "C24": ("TLA+ observation model (MC_Observe exhaustive, Observe.tla): its command sequences replayed into the code, traces validated by TLC", "every sequence of three commands in the model; sampled sequences of run calls and looks replayed on covering scenarios against one plain run"),
 "C25": ("TLA+ isolation model (MC_Isolate exhaustive, Isolate.tla): its interleavings replayed into two real samplers, traces validated by TLC", "every interleaving of seven operations in the model; sampled ones replayed on pairs of covering scenarios against each sampler alone"),
}
NA = {"C22": "A limit statement about probability distributions over continuous state spaces: no finite state space or finite set of traces decides it; its finite per-step ingredients are claimed as C03, C04, C07, C08, C19."}
have = {os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, "harness/props/C*.py"))}
checks = [dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="VERIF_TIER=thorough bin/check " + p, technique=t, level="model_checking",
               level_note=n + ". Assumes IEEE doubles, TLC, and the recorder (public API only, no hooks in /repo); bounded by the scenarios listed in the evidence.")
          for p, (t, n) in TECH.items() if p in have]
na = [dict(property=p, reason=r) for p, r in NA.items()] + [dict(property=p, reason="check not built yet") for p in TECH if p not in have]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; see DESIGN.md. Known and repaired defects: known_findings.txt."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
