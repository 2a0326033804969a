#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the one table below, so that they stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "src/tfc/utils/TFCUtils.py"
BF = "src/tfc/utils/BF.cc"
BP = "src/tfc/utils/BF_Py.py"
U, M = "src/tfc/utfc.py", "src/tfc/mtfc.py"
MP = "src/tfc/utils/MakePlot.py"
PL = "src/tfc/utils/PlotlyMakePlot.py"
HT = "src/tfc/utils/Html.py"
CE = "src/tfc/utils/CeSolver.py"
LX = "src/tfc/utils/Latex.py"


def P(id, title, statement, over, qtext, why, files, mech, observe):
    return dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None},
    )


CLAIMED = [
    P(
        "S01", "A basis evaluation is determined by its own problem object alone",
        "Evaluating the basis functions or their derivatives of a univariate or multivariate problem object returns the matrix that the object's own definition, weights and points determine, whatever other objects were created, failed to be created, evaluated, compiled, dropped or collected before or meanwhile, in whichever thread. This holds for plain calls, compiled calls (including functions compiled earlier), automatic derivatives and partially evaluated functions, with either backend.",
        ["histories", "schedules", "configurations", "fault_sequences"],
        "for all histories of creating (also failing and interrupted), evaluating, compiling, dropping and collecting several problem objects of any basis, dimension and backend, and all interleavings of threads doing so",
        "Tests build one object, evaluate it at once and stop; no test keeps several live objects, reuses a function compiled earlier, drops objects or uses threads.",
        [U, M, BF, BP, T],
        [("process-wide registry of native basis objects addressed by identifier", BF), ("one foreign-function target name per object and per basis class", U + ", " + M), ("primitive lookup by object", BP)],
        ["H, Hx, ..., dH", "jax.jit of them", "egrad / jacfwd of them", "pe / pejit", "z, x"],
    ),
    P(
        "S02", "Compiled evaluations are safe against everything other threads do",
        "While compiled code evaluates basis functions on runtime threads, the program may create further objects, run other compiled evaluations, read or assign random-feature weights and drop objects; nothing then reads or writes freed or foreign memory, crashes or deadlocks. Every evaluation returns the matrix for its own object, with weights that are entirely those before or entirely those after a concurrent assignment.",
        ["schedules", "histories"],
        "for all interleavings, at the granularity of single memory accesses, of native evaluations with creation, evaluation, weight assignment and reads, and drops",
        "Tests are single threaded and the window of each race is a few instructions wide; a test run practically never lands in it.",
        [BF, "src/tfc/utils/BF.h"],
        [("registry guarded against growth during evaluation", BF), ("weights guarded during evaluation", BF)],
        ["result bytes of compiled calls", "memory accesses of the extension", "termination"],
    ),
    P(
        "S03", "A failed memory allocation surfaces as an error and harms nothing else",
        "When memory runs out while a problem object is created, its basis functions are evaluated directly, or its weights are assigned or read, the call raises a memory error to its caller instead of crashing, hanging or returning a wrong result. Objects that already existed keep evaluating correctly, the object concerned keeps its former weights or the new ones entirely, and repeating the call once memory is available succeeds.",
        ["fault_sequences", "histories"],
        "for every single allocation of the native extension made by those calls, failing once or repeatedly, in all histories of such calls",
        "No test injects an allocation failure; every error path that depends on one is unexecuted.",
        [BF, "src/tfc/utils/BF.h"],
        [("allocation checks and ownership of partly built objects", BF)],
        ["exception type", "later evaluations of all objects", "memory accesses of the extension"],
    ),
    P(
        "S04", "Random-feature weights and biases are exactly what was last assigned",
        "Reading the weights or biases of a random-feature problem object returns the values last successfully assigned, and every later evaluation, compiled earlier or not, uses them, for arrays of every memory layout and element type. Changing the assigned or the returned array afterwards, or touching other objects, changes nothing; an assignment that is rejected because of its size, interrupted or out of memory leaves the process alive and the weights as entirely the old or entirely the new ones.",
        ["histories", "inputs", "fault_sequences", "crash_points"],
        "for all histories of assignments (all layouts, types and sizes), reads, aliasing changes, evaluations and failing or interrupted assignments over several objects and both backends",
        "Tests assign weights once from a fresh contiguous array of the right size and never touch the array again.",
        [BF, BP, U, M],
        [("setter copies the values in logical order and checks the size", BF + ", " + BP), ("setter of the problem object", U + ", " + M)],
        ["w, b of the basis object", "evaluations"],
    ),
    P(
        "S05", "A solve depends only on the problem handed to it",
        "A linear or nonlinear least-squares solve, by function or by a reusable solver object, returns the solution of the residual, initial guess and options it was given, whatever solves ran, failed or were interrupted before or run meanwhile in other threads. It never modifies the caller's guess, arguments or option lists, and a reusable solver or partially evaluated function used again with new arguments behaves like a fresh one; constant arguments may be listed in any order.",
        ["histories", "inputs", "schedules", "fault_sequences"],
        "for all histories of solves with shared residuals, option lists and guesses, with failing and interrupted solves in between, and all interleavings of caller threads",
        "Tests run each solver once with fresh arguments; none reuses option lists, mixes failing solves in, or runs solvers side by side.",
        [T],
        [("constant argument handling", T + " pe, pejit, LS, LsClass, NLLS, NllsClass"), ("compiled solver kept by solver objects", T + " LsClass, NllsClass")],
        ["returned unknowns", "returned iteration count", "caller's arrays, dictionaries and lists after the call"],
    ),
    P(
        "S06", "Timing a solve does not change it, and the time reported is the solve's",
        "A timed solve returns the same solution and number of iterations as the same solve untimed. The time it reports is the difference of the clock the caller selected between starting and completing the solve proper: compilation and preparation are not counted, work still outstanding is, and no other clock matters.",
        ["schedules", "configurations", "inputs", "fault_sequences"],
        "for all selectable clocks running at any rate, stalling or jumping, all delays between starting and finishing compiled work, all solver variants, repeated runs with unchanged argument shapes, and failing or interrupted timed runs before",
        "Tests ignore the reported time because real clocks and real asynchronous execution are not reproducible.",
        [T],
        [("warm-up run, clock reads and waiting for the result", T + " LS, LsClass, NLLS, NllsClass")],
        ["returned time", "returned unknowns and iteration count", "reads of the simulated clocks"],
    ),
    P(
        "S07", "Nonlinear iterations obey the stopping rule and are reported truthfully",
        "A nonlinear solve stops at the first iterate that satisfies its stopping rule (the tolerance or the caller's own condition) or at the iteration limit, and returns that iterate and the number of iterations made. When reporting is on, each iteration is reported exactly once, in order, with its own number and residual figure and the requested line ending, and nothing is reported when it is off; a report that cannot be written makes the solve fail instead of being dropped silently.",
        ["histories", "configurations", "fault_sequences", "schedules"],
        "for all residuals, unknown containers, tolerances, limits, conditions and line endings, timed or not, all histories of solver reuse, and slow, failing or interrupted output",
        "Tests look at the final solution only; iteration reports come from asynchronous host callbacks that no test captures.",
        [T],
        [("loop condition and iteration body", T + " NLLS, NllsClass"), ("host callback that prints", T + " nlls_id_print")],
        ["bytes written to standard output", "returned iterate and iteration count"],
    ),
    P(
        "S08", "A plot save that returns has written complete, faithful files",
        "When saving a plot (image, vector, pickled or web page; one or several formats at once) returns normally, each file named exists completely and shows the figure as it was at that moment; when the disk refuses, shortens or fails a write, the call raises. A failed or interrupted save leaves the plot usable: saving it again once the fault is gone succeeds and yields the same content as if nothing had happened.",
        ["fault_sequences", "crash_points", "histories"],
        "for every disk operation of a save failing with any disk error, shortened writes, a full disk, and all histories of changing, saving and re-saving figures",
        "The tests never save a plot under a disk fault, and mostly do not save plots at all.",
        [MP, PL],
        [("save, savePickle, saveAll", MP), ("save", PL)],
        ["files on the simulated disk", "exceptions", "later saves"],
    ),
    P(
        "S09", "An animation shows and saves every frame once, in order",
        "Animating a figure advances the caller's generator to its end, whatever it yields, and saves exactly one image per frame, consecutively numbered from zero, each showing the figure as of that frame; when displaying instead it waits the requested delay between frames. A frame that cannot be written, or a generator that fails, makes the call raise, with all earlier frames complete.",
        ["fault_sequences", "crash_points", "histories", "schedules"],
        "for all generators (lengths, yielded values, failures), output folders (absent, nested, present, created meanwhile by somebody else), and disk faults at any point",
        "No test exercises animations.",
        [MP, PL, "src/tfc/utils/MayaviMakePlot.py"],
        [("animate", MP)],
        ["files on the simulated disk", "simulated clock", "generator progress"],
    ),
    P(
        "S10", "A constraint-graph report is complete or the call raises",
        "When writing the report of all constraint graphs to a folder returns normally, the folder holds a main page that links to one page per graph, the right number of them, each showing its graph's image, and every file is complete. If the folder cannot be made, a file cannot be written or the graph-drawing program is missing or fails, the call raises; repeating it once the fault is gone produces the complete report.",
        ["fault_sequences", "crash_points", "histories", "schedules"],
        "for all constraint sets, folders (absent, nested, present, created meanwhile by somebody else), disk faults at any operation, and failures of the drawing program",
        "No test writes a report; failures of the drawing program or the disk are never injected.",
        [T, HT],
        [("SaveGraphs", T + " ComponentConstraintGraph"), ("HTML.GenFile / GenPage", HT)],
        ["files in the folder", "exceptions"],
    ),
    P(
        "S11", "A symbolic constrained expression always matches the current inputs",
        "The symbolic solver for constrained expressions returns switching functions and a constrained expression that belong to the constraint operators, constraint values, support functions and free function currently set (or to the switching functions or expression the caller set after them); those it computes satisfy every current constraint. This holds after any history of setting and reading them, in any order, including operators that fail or are interrupted and support functions that have no solution. A failed computation raises and is not remembered: later reads raise again or return the right result, and printing expressions as code leaves other users of the printing system unaffected.",
        ["histories", "fault_sequences", "crash_points"],
        "for all sequences of setting and reading the inputs and outputs, with failing, interrupted and singular computations at any point",
        "Tests set every input once and read the results once.",
        [CE, LX],
        [("cached results and their invalidation", CE), ("printer tables", CE + " TfcPrinter")],
        ["phi, ce, print methods", "sympy code generation elsewhere"],
    ),
    P(
        "S12", "Unknown dictionaries behave like one vector through any history",
        "A dictionary of unknowns always equals the concatenation of its entries in order: converting to a flat array and back, adding or subtracting dictionaries or flat arrays (in place or not), and automatic differentiation through it agree with plain vector arithmetic, after any history of assigning, resizing, deleting, merging and copying entries. No operation except the one that names it as target changes a dictionary or the arrays it was built from; a rejected operation leaves its target unchanged and an interrupted one leaves every entry entirely old or entirely new. Waiting for a dictionary waits for all its entries, and threads may read one at the same time.",
        ["histories", "inputs", "fault_sequences", "schedules"],
        "for all histories of mutations and arithmetic over several dictionaries of numpy and jax arrays of any sizes and shapes, including rejected and interrupted operations, and all interleavings of threads that only read a shared dictionary",
        "Tests use dictionaries that are never changed after construction and hold jax arrays only.",
        [T],
        [("TFCDict bookkeeping and arithmetic", T + " TFCDict"), ("TFCDictRobust", T + " TFCDictRobust")],
        ["toArray, toDict, +, -, +=, -=, keys, jax transformations"],
    ),
    P(
        "S13", "A checkpoint request dumps exactly this process into exactly the folder named",
        "Requesting a checkpoint asks the checkpoint program exactly once to dump the calling process, and no other, into exactly the folder named, leaving it running, with or without root rights as selected, and prints a command that restores from that folder. This holds for folder names of any characters, relative to the working directory at the time of the call, absent (also nested), present or made by somebody else meanwhile, and for requests of several threads or of a process forked since; when the folder cannot be made or the message cannot be printed the call raises, and nothing is dumped without its folder.",
        ["inputs", "histories", "schedules", "fault_sequences"],
        "for all folder names and states, working directories, process numbers, start delays and failures of the checkpoint program, disk faults, output faults and interrupts, and all interleavings of threads requesting checkpoints",
        "No test requests a checkpoint: it needs the checkpoint program, root rights and a process to freeze.",
        [T],
        [("folder creation, shell command and message", T + " criuCheckpoint")],
        ["arguments the checkpoint program receives", "folder", "printed command", "exceptions"],
    ),
    P(
        "S14", "Random features are drawn once each from the generator the caller seeds",
        "Creating a random-feature object draws its weights and biases, each within its range, from the process-wide generator of its backend (the C library's or numpy's), taking the next numbers of that generator and each of them once. So after seeding the generator the same creations give the same weights, successive objects and other seeds give different ones, and no evaluation, assignment, other object, finished failure or other thread draws from the generators, seeds them or makes two objects share a draw.",
        ["histories", "schedules", "fault_sequences", "configurations"],
        "for all seeds, all histories of creating, failing, interrupted and dropped objects, evaluations, the caller's own draws and new seedings, and all interleavings of threads creating objects",
        "Tests never look at drawn weights: they overwrite them or do not seed the generators.",
        [BF, BP],
        [("weights drawn by the constructors", BF + " ELM, nELM; " + BP + " ELM, nELM")],
        ["w, b of new objects", "the caller's own random numbers"],
    ),
]

NA = [
    (
        P(
            "N01", "Basis functions and their derivatives have the right values",
            "Every basis matrix and derivative of any order equals the mathematical definition of its family at the given points, in one and several dimensions, and both backends agree.",
            ["inputs", "configurations"], "for all points, degrees, orders, families and dimensions", "Tests sample a few degrees and points.",
            [BF, BP], [("recurrences and derivative formulas", BF)], ["H, dH"],
        ),
        "A pure function of its arguments: no schedule, clock, I/O, randomness or fault changes it, so simulation would only be input sampling. (S01 does compare with an independent reference, but only to tell one object's result from another's.)",
    ),
    (
        P(
            "N02", "Constrained expressions satisfy their constraints for any free function",
            "A constrained expression built with the library satisfies its constraints for every choice of the unknown coefficients.",
            ["inputs"], "for all coefficients, constraints and free functions", "Tests sample a few boundary-value problems.",
            [U, M], [("removal of dependent basis terms, domain mapping", U + ", " + M)], ["residual at the constraints"],
        ),
        "Algebra over inputs only; nothing a simulator can schedule or fail takes part. The symbolic counterpart under histories is S11.",
    ),
    (
        P(
            "N03", "Collocation points and domain mapping are right for every domain",
            "Collocation points lie in the domain, include its end points where promised, are ordered, and mapping to the basis domain and back is the identity.",
            ["inputs", "configurations"], "for all domains, numbers of points and bases", "Tests use a handful of domains.",
            [U, M], [("collocation and mapping", U + ", " + M)], ["x, z, c"],
        ),
        "Deterministic function of constructor arguments; no nondeterminism to control.",
    ),
    (
        P(
            "N04", "Automatic derivatives of basis evaluations equal the analytic ones",
            "Differentiating a basis evaluation automatically, to any order and in any mode the library supports, gives the analytic derivative matrix.",
            ["inputs", "programs"], "for all programs differentiating basis evaluations", "Tests sample orders and modes.",
            [U, M, BP], [("derivative rules of the primitives", U + ", " + M)], ["egrad, jacfwd, jvp"],
        ),
        "Differentiation rules are pure program transformations; the only stateful part (which object a rule refers to) is claimed under S01.",
    ),
    (
        P(
            "N05", "Least-squares solutions minimise the residual",
            "The linear solvers return the least-squares minimiser and the nonlinear solvers converge to a stationary point when Newton's method does, with either factorisation and any differentiation method.",
            ["inputs"], "for all residuals", "Tests sample a few differential equations.",
            [T], [("LS, NLLS", T)], ["solution"],
        ),
        "Numerical accuracy over inputs; S05 and S07 claim the parts that depend on history, schedule and faults.",
    ),
    (
        P(
            "N06", "Constraint-graph search finds every valid tree and no other",
            "The graph search over component constraints lists all consistent source/target assignments and no inconsistent one.",
            ["inputs"], "for all constraint sets", "Tests sample one constraint set.",
            [T], [("ComponentConstraintGraph", T)], ["goodTrees, G"],
        ),
        "Combinatorial enumeration of a pure input; S10 claims the I/O part.",
    ),
    (
        P(
            "N07", "Symbolic table and code output is correct text",
            "Generated LaTeX tables and printed code denote the values they were given.",
            ["inputs"], "for all tables and expressions", "Tests sample one table and expression.",
            [LX, CE], [("table and printer", LX)], ["returned text"],
        ),
        "String formatting of pure inputs, without I/O or state beyond what S11 claims.",
    ),
    (
        P(
            "N08", "Invalid problem definitions are rejected with an error",
            "Constructor arguments that define no valid problem are rejected with an error and never produce an object.",
            ["inputs"], "for all constructor arguments", "Tests sample a few invalid arguments.",
            [U, M, T], [("argument checks", U + ", " + M)], ["exceptions"],
        ),
        "Input validation of a pure constructor; what a rejected construction does to other objects is part of S01 and S03.",
    ),
]

LEVELS = {"S03": "fault_enumeration"}
NOTE = {}
NOTES_DEFAULT = "Seeded search over simulated histories, schedules and faults against a reference model; passing means no violation in the runs reported in the evidence file, not a proof."
TECH = "deterministic simulation with fault injection: "
TECHS = {
    "S01": "seeded histories over problem objects, simulated caller threads, interrupted/failed constructions; every result compared with an independent numpy model",
    "S02": "extension recompiled so that every memory access is a scheduling point of a seeded native scheduler; simulated locks and heap with red zones and quarantine",
    "S03": "every native allocation of each call failed in turn by the simulated allocator",
    "S04": "seeded assignment histories with interrupts at arbitrary lines, failing allocations and seeded random generators against a value model",
    "S05": "seeded solve histories with failing/interrupted solves and simulated caller threads against a numpy solver",
    "S06": "all clocks simulated and driven by the work done, asynchronous completion delayed, jumps and stalls injected",
    "S07": "simulated output stream with write faults and interrupts; reports compared with a numpy iteration model",
    "S08": "simulated disk (errors, short writes, full disk, interrupts) under seeded save histories against a no-fault twin",
    "S09": "simulated disk, clock and generators; frames compared with rendering each frame by itself",
    "S10": "simulated disk and drawing program with faults at every operation; report parsed and compared with the graph",
    "S11": "seeded set/read histories with failing and interrupted operators against a fresh solver",
    "S12": "seeded mutation histories with rejected and interrupted operations against a vector model",
    "S13": "stand-in checkpoint program, process numbers, disk, output and caller threads under a seeded plan; the program's arguments compared with the request",
    "S14": "process random generators modelled as streams; seeded histories, interrupted creations and simulated threads must take every number once",
}


def main():
    have = [p for p in CLAIMED if os.path.exists(os.path.join(HERE, "sim/props", p["id"] + ".py"))]
    props = have + [p for p, _ in NA]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python check.py --setup",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": TECH + TECHS[p["id"]],
                "level": LEVELS.get(p["id"], "exploration"),
                "level_note": NOTE.get(p["id"], NOTES_DEFAULT),
            }
            for p in have
        ],
        "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
        "notes": "No hooks were added to /repo: the simulator uses seams that exist (clocks, files, streams, callbacks, allocator, thread scheduling) or are introduced at build time in a private copy of the extension. Known findings and repaired defects: KNOWN_FINDINGS.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
