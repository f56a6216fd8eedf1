# coding=utf-8
"""The campaigns: which module of the specification generates behaviours, with which constants, and how many.

A campaign is a dictionary
  module     generator module in spec/
  defs       definitions of the constants that are sequences (TLA+ text)
  consts     the other constants
  inv        invariants of the design checked while generating
  props      action properties of the design checked while generating
  mode       ("sim", depth) random behaviours, or ("all",) every behaviour
"""


def seq(words):
    return "<<" + ", ".join('"%s"' % w for w in words.split()) + ">>"


ALLNODES = ("task userTask serviceTask manualTask subProcess subProcess dataObject inclusiveGateway exclusiveGateway "
            "parallelGateway eventBasedGateway complexGateway startEvent endEvent intermediateCatchEvent "
            "intermediateThrowEvent boundaryEvent")
ALLKINDS = ALLNODES + " task task task exclusiveGateway exclusiveGateway startEvent endEvent"
GRAPHNODES = ("task task task subProcess inclusiveGateway exclusiveGateway exclusiveGateway parallelGateway "
              "eventBasedGateway complexGateway startEvent endEvent intermediateCatchEvent intermediateThrowEvent")


def system(kinds, objs='{"a", "b"}', maxlen=22, depth=None, cap=9):
    return {"module": "System", "defs": {"KINDS": seq(kinds)},
            "consts": {"RANDOM": "TRUE", "OBJS": objs, "MAXLEN": maxlen, "DOCS": 0, "CAP": cap},
            "inv": ["Consistent", "Emit"], "props": ["RefusedUntouched", "OthersUntouched", "NewIsEmpty", "OneMore"],
            "mode": ("sim", depth or maxlen + 5)}


def histories(objs='{"a"}', length=4):
    """every history of building calls of this length over the operations of EnumOps"""
    camp = system("new", objs, length)
    return dict(camp, consts=dict(camp["consts"], RANDOM="FALSE"), mode=("all",))


def model(camp):
    """the same state space, checked without printing the behaviours"""
    return dict(camp, inv=[i for i in camp["inv"] if i != "Emit"], mode=("all",))


def parts(camp):
    """an exhaustive campaign cut in slices: every chunk replays its share"""
    return lambda c, n: dict(camp, slice=(c, n))


def xml(plan, types=ALLNODES, procs=3, nodes=12, flows=12, lanes=5, parts=4, msgs=4, steps=30):
    return {"module": "GenXml", "defs": {"TYPES": seq(types), "PLAN": seq(plan)},
            "consts": {"MAXPROCS": procs, "MAXNODES": nodes, "MAXFLOWS": flows, "MAXLANES": lanes, "MAXPARTS": parts,
                       "MAXMSGS": msgs, "STEPS": steps, "CHECKED": "TRUE"},
            "inv": ["WellFormed", "Sound", "Faithful", "Emit"], "props": [], "mode": ("sim", steps + 5)}


def graph(ops, kinds=GRAPHNODES, maxn=9, maxe=14, routes=0):
    return {"module": "GenGraph", "defs": {"KINDSEQ": seq(kinds), "OPS": seq(ops)},
            "consts": {"EXHAUSTIVE": "FALSE", "N": 3, "FROM": 0, "UPTO": 0, "MAXN": maxn, "MAXE": maxe,
                       "ROUTES": routes},
            "inv": ["AtMostOne", "Emit"], "props": [], "mode": ("sim", maxe + 10)}


def graphs(ops, n, lo, hi, kinds="task exclusiveGateway"):
    return {"module": "GenGraph", "defs": {"KINDSEQ": seq(kinds), "OPS": seq(ops)},
            "consts": {"EXHAUSTIVE": "TRUE", "N": n, "FROM": lo, "UPTO": hi, "MAXN": n, "MAXE": 0, "ROUTES": 0},
            "inv": ["AtMostOne", "Emit"], "props": [], "mode": ("all",)}


def sheet(plan, want="good", rows=14, depth=3, branch=4, gotos="TRUE", runs="FALSE", nest="FALSE"):
    return {"module": "GenCsv", "defs": {"PLAN": seq(plan)},
            "consts": {"RANDOM": "TRUE", "MAXROWS": rows, "MAXDEPTH": depth, "MAXBRANCH": branch, "GOTOS": gotos, "RUNS": runs, "NEST": nest,
                       "WANT": '"%s"' % want},
            "inv": ["Meaningful", "Emit"], "props": [], "mode": ("sim", 170)}


def sheets(plan, want="good", rows=6, depth=2, branch=3, gotos="TRUE", runs="FALSE", nest="FALSE"):
    """every layout of rows of at most this size (texts, conditions and goto targets drawn)"""
    return {"module": "GenCsv", "defs": {"PLAN": seq(plan)},
            "consts": {"RANDOM": "FALSE", "MAXROWS": rows, "MAXDEPTH": depth, "MAXBRANCH": branch, "GOTOS": gotos, "RUNS": runs, "NEST": nest,
                       "WANT": '"%s"' % want},
            "inv": ["Meaningful", "Emit"], "props": [], "mode": ("all",)}


BUILD = "new process task task subprocess start end exclusive inclusive parallel flow flow flow badflow"


def block(ways="block doc", rows=12, depth=3, branch=4):
    return {"module": "GenBlock", "defs": {"WAYS": seq(ways)},
            "consts": {"MAXROWS": rows, "MAXDEPTH": depth, "MAXBRANCH": branch},
            "inv": ["Shaped", "OneRowEach", "Emit"], "props": [], "mode": ("sim", 260)}


def elements(sweep=False, maxlen=40):
    return {"module": "GenElements", "defs": {}, "consts": {"SWEEP": "TRUE" if sweep else "FALSE", "MAXLEN": maxlen},
            "inv": ["Typed", "Emit"], "props": ["OneField"], "mode": ("all",) if sweep else ("sim", maxlen + 5)}


def pairs(grid, lo, hi, stretch=1, scale=1):
    return {"module": "GenPairs", "defs": {}, "consts": {"G": grid, "FROM": lo + 1, "UPTO": hi + 1, "STRETCH": stretch, "SCALE": scale},
            "inv": ["SameNotion", "Symmetric", "Emit"], "props": [], "mode": ("all",)}
