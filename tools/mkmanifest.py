"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = "seeded deterministic simulation: "
T = {}
for c, t in {
 "C01": "schedules of simulated worker processes with stalls, entropy and global-generator perturbation; result compared with a solo fresh-process run",
 "C02": "worker schedules with a recording model; history checked for exactly-once resamples and the summary recomputed from it",
 "C03": "worker schedules and entropy with a recording model; history searched for repeated draws and uneven frequencies",
 "C04": "worker kills, failed starts, exceptions, unpicklable results, stalls and interrupts; bounded progress and fault-free-or-raise outcome",
 "C05": "worker schedules, stalls, concurrent callers, simulated shared memory; refinement against the serial function",
 "C06": "worker, shared-memory and manager faults and interrupts; complete-or-raise and bounded progress",
 "C07": "sequences of faulty parallel calls; worker and shared-memory registry invariants after each call",
 "C08": "worker schedules and faults in the parallel phase; refinement against one processor",
 "C09": "preemptive interleavings of caller threads at line/call granularity; refinement against solo fresh-process calls",
 "C10": "preemptive interleavings of caller threads at line/call granularity; refinement against solo fresh-process calls",
 "C11": "preemptive interleavings of caller threads at line/call granularity; refinement against solo fresh-process calls",
 "C12": "preemptive interleavings of caller threads at line/call granularity; refinement against solo fresh-process calls",
 "C13": "interleavings with global-generator users, entropy and generator-state perturbation; refinement against solo runs and a predicted global stream",
 "C14": "faults and interrupts injected at seeded execution points, then recovery calls; inputs, process state and results compared with fresh-process references",
 "C15": "faults and interrupts injected at seeded execution points, then recovery calls; inputs, process state and results compared with fresh-process references",
 "C16": "faults and interrupts injected at seeded execution points, then recovery calls; inputs, process state and results compared with fresh-process references",
 "C17": "seeded histories of near-identical, failing and interrupted calls; each refined against the first call of a fresh process",
 "C18": "seeded histories with overwritten results and inputs; kept results re-checked and calls refined against fresh-process references",
 "C19": "seeded step histories on latent-density objects with faults and thread interleavings; all-or-nothing and moment invariants",
 "C20": "random words delivered by the simulator, extremes included; history frequencies tested against an independent model",
 "C21": "random words delivered by the simulator, extremes included; history frequencies tested against an independent model",
 "C22": "random words delivered by the simulator drive starts and restarts; algebraic invariants and criterion checked per call",
 "C23": "calls made at seeded points inside other calls of the same thread; refinement of inner and outer calls against solo fresh-process calls",
 "C24": "simulated caller processes forked or spawned at seeded points of other threads' calls; refinement against solo fresh-process calls",
 "C25": "threads, forked and spawned processes, clock and entropy faults decided by the simulator; recorded draws tested pairwise for relation",
 "C26": "seeded rounds of calls with faults and simulated worker processes; memory and resource conservation invariants between rounds",
 "C27": "simulated runs of calls with hostile inputs and persistently failing libraries under a work bound counted by the simulator; repeatability, conservation of inputs and process state, refinement of later calls",
 "C28": "simulated environments (clock, CPUs, ids, streams, folders, collection points, other interpreters) around seeded histories of calls; refinement against the standard environment and absence of outside effects",
}.items():
    T[c] = SEARCH + t
NOTE = {
 "par": "Real GIRTH code runs in every caller and worker; worker processes, pools, shared memory, manager, clock and entropy are simulated after CPython 3.12 (POSIX). Sampled schedules and faults, not all of them. Trusts the simulator's model of pools and the solo reference run of the same tree.",
 "thr": "Sampled interleavings at GIRTH source lines and calls; numpy/scipy internals are atomic. Trusts the solo fresh-process run of the same tree as reference: a result that is wrong in every run is not this property.",
 "flt": "Sampled fault points at GIRTH source lines, calls made by GIRTH and the caller's density; numpy/scipy internals are atomic. Reference is the undisturbed call in a fresh process of the same tree.",
 "hist": "Sampled histories of up to a dozen calls over all public functions; reference is the same call first in a fresh process of the same tree.",
 "rnd": "Sampled parameter sets and streams; statistical rejection below 1e-9 to 1e-12 per comparison, so small deviations of probability (below a few percent) can pass.",
}
KIND = {}
for c in ("C01","C02","C03","C04","C05","C06","C07","C08"): KIND[c] = "par"
for c in ("C09","C10","C11","C12","C13"): KIND[c] = "thr"
for c in ("C14","C15","C16","C19"): KIND[c] = "flt"
for c in ("C17","C18"): KIND[c] = "hist"
for c in ("C20","C21","C22"): KIND[c] = "rnd"
KIND.update(C23="nest", C24="par", C25="par", C26="grow", C27="hostile", C28="env")
NOTE["nest"] = "Sampled nestings at GIRTH source lines, calls made by GIRTH and the caller's density; numpy/scipy internals are atomic. Reference is the same call alone in a fresh process of the same tree."
NOTE["grow"] = "Sampled rounds of 9 to 900 calls; memory is what tracemalloc accounts for, bounded caches that fill during the warm-up are allowed. Memory lost inside numpy/scipy is not GIRTH's."
NOTE["hostile"] = "Sampled hostile inputs and failures. Work is counted in executed GIRTH lines and calls; time inside one numpy/scipy call is only bounded by the wall clock. Says nothing about the values a hostile input leads to."
NOTE["env"] = "Sampled environments; the numeric libraries are kept at one code path and one thread. Outside effects are seen through audit events and the standard streams."
PURE = ("a pure function of its arguments: no schedule, clock, I/O, randomness or fault the property depends on, so "
        "simulation has nothing to decide; ")
NA = {
 "C30": PURE + "needs an input generator and a likelihood oracle",
 "C31": PURE + "needs metamorphic input testing",
 "C32": PURE + "needs an input generator and a posterior oracle",
 "C33": PURE + "needs an independent recomputation over inputs",
 "C34": PURE + "needs linear-algebra oracles over inputs",
 "C35": PURE + "needs input testing or symbolic execution of the recoding helpers",
 "C36": PURE + "needs enumeration of option dictionaries",
 "C37": PURE + "needs definitional oracles over inputs",
 "C38": PURE + "needs metamorphic input testing",
}
doc = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": c, "quick_cmd": f"./run.sh check {c} --tier quick",
                   "thorough_cmd": f"./run.sh check {c} --tier thorough",
                   "technique": T[c], "level": "exploration", "level_note": NOTE[KIND[c]]} for c in T],
       "not_applicable": [{"property": c, "reason": r} for c, r in NA.items()],
       "notes": "No hooks in /repo: every seam (pools, shared memory, threads, clock, entropy, bit generators) is "
                "reached by replacing standard-library modules in the simulator's process and by sys.monitoring. "
                "Replay: ./run.sh replay <file>."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
