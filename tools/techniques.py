"""Write techniques.json: how each property is decided."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
HIST = "all bounded call histories and configurations of the real code, " \
       "compared call by call with a reference state machine"
GRID = "all points of a bounded configuration space, executed on the real " \
       "code and compared with an independent closed form"
REL = "all bounded executions of the real code in pairs that must be related"
INV = "all bounded executions of the real code, checked against invariants"
T = {
    "P01": HIST, "P02": HIST, "P03": HIST,
    "P04": "all assignments of the step variants to the steps of an execution "
           "and all bounded arguments of the step functions, run on the real "
           "code; the variants must agree",
    "P05": "all bounded executions with one event (goal change, disturbance, "
           "...) at every step of the real code, checked for convergence",
    "P06": REL, "P07": REL,
    "P08": "all bounded call histories before a reset of the real code, "
           "compared bit by bit with a fresh object",
    "P09": "all bounded call histories of the real code; the rollout is "
           "compared with stepping a copy, the state with a twin",
    "P10": GRID, "P11": HIST,
    "P12": "all bounded call histories of the real code with saving and "
           "loading in every format at every position",
    "P13": GRID, "P14": GRID, "P15": GRID, "P16": GRID,
    "P17": HIST, "P18": INV, "P19": GRID, "P20": HIST, "P21": INV,
    "P22": HIST, "P23": HIST,
    "P24": "all bounded calls of the real code with every argument watched "
           "for changes and every result overwritten",
    "P25": "all schedules of two programs on the real code under a "
           "controlled scheduler (at callbacks and at source lines), compared "
           "with running each alone",
    "P26": "all positions of invalid calls in bounded call histories of the "
           "real code, compared with the history without them",
    "P27": GRID,
    "P28": "all bounded configurations, crash points and schedules of cached "
           "computations of the real code, compared with a closed form",
    "P29": GRID, "P30": GRID,
    "P31": "all subsets of the optional arguments, executed on the real code "
           "with omitted and with documented values",
    "P32": "all bounded plots and key event histories of the real code, "
           "compared with a model of what must be drawn",
    "P33": "all crash points and interleavings of downloads of the real code "
           "against a model of the data directory",
    "P34": "all bounded command histories of simulated robots of the real "
           "code, compared with a model of their joints",
    "P35": "all assignments of storage forms to arguments of the real code, "
           "compared with contiguous floats",
}
with open(os.path.join(HERE, "techniques.json"), "w") as f:
    json.dump({k: {"technique": "model checking: " + v}
               for k, v in T.items()}, f, indent=1)
    f.write("\n")
