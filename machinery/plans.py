# coding=utf-8
"""Which campaigns and which models decide which property, in the quick and in the thorough tier.

sizes: tier -> (behaviours per chunk, chunks); a tier that is not there leaves the campaign out"""
from campaigns import *


def size(q, qc, t, tc):
    return {"quick": (q, qc), "thorough": (t, tc)}


def only(t, tc):
    return {"thorough": (t, tc)}


def every(make, family):
    """the c-th of n parts of an exhaustive family"""
    def part(c, n):
        lo, hi = family * c // n, family * (c + 1) // n - 1
        return make(lo, hi)
    return part


BOTH = ("quick", "thorough")
NOPOOL = dict(parts=0, msgs=0)
POOLS = dict(procs=4, nodes=10, flows=5, lanes=9, parts=5, msgs=6, steps=40)
BIG = dict(procs=4, nodes=30, flows=40, lanes=10, parts=5, msgs=8, steps=90)
HUGE = dict(procs=6, nodes=90, flows=110, lanes=20, parts=6, msgs=12, steps=320)
NEST = "subProcess subProcess task exclusiveGateway startEvent endEvent boundaryEvent"
LAYKINDS = BUILD + " layout layout layout"

MODEL_SYSTEM = ("system", model(histories('{"a"}', 5)), BOTH)
MODEL_TWO = ("two objects", model(histories('{"a", "b"}', 4)), BOTH)
MODEL_DEEP = ("system, deeper", model(histories('{"a"}', 6)), ("thorough",))
MODEL_TWODEEP = ("two objects, deeper", model(histories('{"a", "b"}', 5)), ("thorough",))
MODEL_SHEETS = ("spreadsheets", model(sheets("load", rows=6)), BOTH)
MODEL_SHEETS7 = ("larger spreadsheets", dict(model(sheets("load", rows=7)), timeout=800), ("thorough",))

COORD = "coordinates are integers or multiples of a power of 1/2, on which floating point arithmetic is exact"
PAIR = "at most one flow per ordered pair of nodes (the library keeps one, see KNOWN_FINDINGS.txt)"

WITNESSES = {
    "built-twice": {"ops": [{"op": "new", "o": "a", "name": "A"},
                            {"op": "process", "o": "a"},
                            {"op": "task", "o": "a", "p": "@2", "name": "A", "id": "n1"},
                            {"op": "task", "o": "a", "p": "@2", "name": "B", "id": "n2"},
                            {"op": "flow", "o": "a", "p": "@2", "src": "n1", "tgt": "n2", "name": "first"},
                            {"op": "flow", "o": "a", "p": "@2", "src": "n1", "tgt": "n2", "name": "second"}],
                    "fails": [6]},
}

def files(kind):
    return ("files of the repository", {"files": kind}, size(0, 1, 0, 1))


PLANS = {
    "C01": {"campaigns": [
                ("calls", system(BUILD + " crossflow"), size(110, 8, 1500, 24)),
                ("long", system(BUILD + " crossflow", '{"a"}', 60, cap=24), size(20, 2, 250, 8)),
                ("three objects", system(BUILD, '{"a", "b", "c"}', 30), size(60, 3, 800, 8)),
                ("on loaded diagrams", xml("mixed"), size(60, 3, 800, 8)),
                ("all short histories", parts(histories()), size(0, 3, 0, 8))],
            "models": [MODEL_SYSTEM, MODEL_DEEP]},
    "C02": {"campaigns": [
                files("load"),
                ("calls", system(BUILD + " flow flow flow flow crossflow crossflow layout"), size(100, 6, 1500, 16)),
                ("long", system(BUILD + " flow flow flow flow crossflow crossflow layout", '{"a"}', 60, cap=24), size(20, 2, 250, 8)),
                ("documents", xml("load styled"), size(60, 3, 1000, 8)),
                ("on loaded diagrams", xml("mixed"), size(40, 2, 800, 8)),
                ("drawn in part", xml("bare"), size(30, 1, 500, 8)),
                ("spreadsheets", sheet("load", nest="TRUE"), size(50, 3, 1000, 8)),
                ("all short histories", parts(histories()), size(0, 3, 0, 8)),
                ("all small graphs", every(lambda a, b: graphs("queries", 3, a, b), 512), size(0, 2, 0, 4))],
            "models": [MODEL_SYSTEM, MODEL_DEEP], "assumptions": [PAIR]},
    "C03": {"campaigns": [
                ("calls", system(BUILD + " crossflow badflow badflow badflow exclusive inclusive parallel without"), size(110, 8, 1500, 24)),
                ("long", system(BUILD + " crossflow badflow badflow badflow exclusive inclusive parallel without", '{"a"}', 60, cap=24), size(20, 2, 250, 8)),
                ("on loaded diagrams", xml("mixed undone"), size(60, 3, 800, 8)),
                ("all short histories", parts(histories()), size(0, 3, 0, 8))],
            "models": [MODEL_SYSTEM, MODEL_DEEP]},
    "C04": {"campaigns": [
                ("calls", system(BUILD + " crossflow queries queries queries layout"), size(90, 6, 1200, 16)),
                ("long", system(BUILD + " crossflow queries layout", '{"a"}', 60, cap=24), size(20, 2, 250, 8)),
                ("documents", xml("load mixed share styled"), size(60, 4, 1000, 12)),
                ("laid out", xml("laid laid barelaid", GRAPHNODES, **NOPOOL), size(40, 2, 800, 8)),
                ("drawn in part", xml("bare"), size(30, 1, 500, 8)),
                ("spreadsheets", sheet("wide two", nest="TRUE"), size(30, 4, 500, 8))],
            "models": [MODEL_SYSTEM]},
    "C05": {"campaigns": [
                ("calls", system(BUILD + " new new stray stray layout export reload", '{"a", "b", "c"}', 30), size(60, 8, 1000, 16)),
                ("documents", xml("share twin twin style cycle"), size(40, 4, 600, 12)),
                ("spreadsheets", sheet("two twin round", nest="TRUE"), size(30, 4, 500, 8))],
            "models": [MODEL_TWO, MODEL_TWODEEP]},
    "C06": {"campaigns": [
                files("reads"),
                ("calls", system(BUILD + " layout reads reads reads queries metrics paths nodi export csvrefused"), size(45, 6, 800, 16)),
                ("documents", xml("reads"), size(40, 4, 600, 12)),
                ("spreadsheets", sheet("reads", nest="TRUE"), size(20, 4, 300, 8)),
                ("processes", block("reads"), size(20, 2, 300, 8))]},
    "C07": {"campaigns": [
                ("very large", xml("load", **HUGE), size(2, 1, 12, 8)),
                files("load"),
                ("documents", xml("load load styled twin"), size(110, 8, 1500, 16)),
                ("nested", xml("load", NEST, nodes=16), size(50, 2, 800, 8)),
                ("large", xml("load", **BIG), size(20, 2, 300, 8)),
                ("drawn in part", xml("bare"), size(60, 2, 800, 8))]},
    "C08": {"campaigns": [
                ("documents", xml("style"), size(45, 8, 800, 16)),
                ("large", xml("style", **BIG), size(8, 2, 100, 8)),
                ("pools", xml("style", **POOLS), size(25, 3, 400, 8)),
                ("drawn in part", xml("bare"), size(40, 2, 600, 8))]},
    "C09": {"campaigns": [
                ("very large", xml("cycle", **HUGE), size(1, 1, 8, 8)),
                files("cycle"),
                ("documents", xml("cycle grown styled"), size(40, 6, 600, 16)),
                ("pools", xml("cycle", **POOLS), size(25, 2, 400, 8)),
                ("laid out", xml("laid laid barelaid", GRAPHNODES, **NOPOOL), size(40, 2, 600, 8)),
                ("calls", system(BUILD + " layout export export reload"), size(60, 4, 1000, 12)),
                ("spreadsheets", sheet("wide straight", nest="TRUE"), size(30, 2, 400, 8)),
                ("drawn in part", xml("bare"), size(20, 2, 300, 8)),
                ("pools drawn in part", xml("bare", **POOLS), size(20, 1, 300, 8))]},
    "C10": {"campaigns": [
                ("very large", xml("cycle", **HUGE), size(1, 1, 8, 8)),
                files("cycle"),
                ("documents", xml("cycle grown styled"), size(40, 6, 600, 16)),
                ("pools", xml("cycle", **POOLS), size(25, 2, 400, 8)),
                ("laid out", xml("laid laid barelaid", GRAPHNODES, **NOPOOL), size(40, 2, 600, 8)),
                ("calls", system(BUILD + " layout export export reload"), size(60, 4, 1000, 12)),
                ("spreadsheets", sheet("wide straight", nest="TRUE"), size(30, 2, 400, 8)),
                ("drawn in part", xml("bare"), size(20, 2, 300, 8)),
                ("pools drawn in part", xml("bare", **POOLS), size(20, 1, 300, 8))]},
    "C11": {"campaigns": [
                files("cycle"),
                ("documents", xml("nodi mixed"), size(50, 6, 800, 16)),
                ("nested", xml("nodi", NEST, nodes=16), size(50, 2, 600, 8)),
                ("pools", xml("nodi", **POOLS), size(40, 2, 400, 8)),
                ("drawn in part", xml("bare"), size(30, 1, 500, 8)),
                ("calls", system(BUILD + " layout nodi nodi"), size(60, 4, 1000, 12))]},
    "C12": {"campaigns": [
                ("very large", xml("cycle", **HUGE), size(1, 1, 8, 8)),
                files("cycle"),
                ("pools", xml("cycle", **POOLS), size(30, 8, 500, 16)),
                ("documents", xml("cycle load styled"), size(40, 4, 600, 8)),
                ("large", xml("cycle", **BIG), size(8, 2, 100, 8)),
                ("drawn in part", xml("bare", **POOLS), size(30, 2, 400, 8))]},
    "C13": {"campaigns": [
                ("very large graphs", graph("layout", maxn=60, maxe=90), size(20, 1, 200, 8)),
                files("laid"),
                ("graphs", graph("layout"), size(300, 6, 4000, 24)),
                ("large graphs", graph("layout", maxn=22, maxe=34), size(60, 2, 1000, 8)),
                ("all small graphs", every(lambda a, b: graphs("layout", 3, a, b), 512), size(0, 2, 0, 4)),
                ("all graphs of four nodes", every(lambda a, b: graphs("layout", 4, a, b), 65536), only(0, 48)),
                ("calls", system(LAYKINDS), size(50, 2, 800, 8)),
                ("spreadsheets", sheet("wide", nest="TRUE"), size(25, 2, 300, 8)),
                ("documents", xml("laid laid barelaid", GRAPHNODES, **NOPOOL), size(40, 2, 600, 8))],
            "assumptions": [PAIR, "no black-box pools or data objects in the diagram"]},
    "C14": {"campaigns": [
                ("very large graphs", graph("layout", maxn=60, maxe=90), size(20, 1, 200, 8)),
                files("laid"),
                ("graphs", graph("layout"), size(300, 6, 4000, 24)),
                ("large graphs", graph("layout", maxn=22, maxe=34), size(60, 2, 1000, 8)),
                ("all small graphs", every(lambda a, b: graphs("layout", 3, a, b), 512), size(0, 2, 0, 4)),
                ("all graphs of four nodes", every(lambda a, b: graphs("layout", 4, a, b), 65536), only(0, 48)),
                ("calls", system(LAYKINDS), size(50, 2, 800, 8)),
                ("spreadsheets", sheet("wide", nest="TRUE"), size(25, 2, 300, 8)),
                ("documents", xml("laid laid barelaid", GRAPHNODES, **NOPOOL), size(40, 2, 600, 8))],
            "assumptions": [PAIR, "no black-box pools or data objects in the diagram"]},
    "C15": {"campaigns": [
                ("very large graphs", graph("metrics", maxn=90, maxe=130), size(20, 1, 200, 8)),
                files("load"),
                ("graphs", graph("metrics", ALLKINDS, maxn=24, maxe=16), size(250, 6, 4000, 16)),
                ("calls", system(BUILD + " metrics metrics metrics layout"), size(60, 4, 1000, 8)),
                ("documents", xml("count mixed"), size(60, 4, 1000, 8)),
                ("spreadsheets", sheet("wide", nest="TRUE"), size(15, 2, 300, 8))]},
    "C16": {"campaigns": [
                ("very large graphs", graph("metrics", maxn=90, maxe=130), size(20, 1, 200, 8)),
                files("load"),
                ("graphs", graph("metrics", ALLKINDS, maxn=24, maxe=30), size(250, 6, 4000, 16)),
                ("few kinds", graph("metrics", "task subProcess exclusiveGateway", maxn=20, maxe=24), size(200, 2, 3000, 8)),
                ("all small graphs", every(lambda a, b: graphs("metrics", 3, a, b), 512), size(0, 2, 0, 4)),
                ("calls", system(BUILD + " metrics metrics metrics layout"), size(60, 3, 1000, 8)),
                ("documents", xml("count"), size(60, 3, 1000, 8))]},
    "C17": {"campaigns": [
                ("all pairs of segments, grid 3", every(lambda a, b: pairs(3, a, b), 81), size(0, 1, 0, 2)),
                ("all pairs of segments, grid 4", every(lambda a, b: pairs(4, a, b), 256), size(0, 5, 0, 8)),
                ("all pairs of segments, stretched", every(lambda a, b: pairs(3, a, b, 997), 81), size(0, 1, 0, 2)),
                ("all pairs of segments, tiny", every(lambda a, b: pairs(3, a, b, 1, 65536), 81), size(0, 1, 0, 2)),
                ("all pairs of segments, grid 5", every(lambda a, b: pairs(5, a, b), 625), only(0, 24)),
                ("routes", graph("cross", maxn=6, maxe=8, routes=6), size(200, 4, 3000, 12)),
                ("laid out", graph("layout cross"), size(100, 2, 2000, 8)),
                ("documents", xml("count"), size(60, 2, 1000, 8))],
            "assumptions": [COORD]},
    "C18": {"campaigns": [
                ("graphs", graph("paths"), size(300, 6, 3000, 16)),
                ("larger graphs", graph("paths", maxn=13, maxe=18), size(60, 4, 800, 8)),
                ("long chains", graph("paths", maxn=60, maxe=0), size(15, 2, 200, 8)),
                ("all small graphs", every(lambda a, b: graphs("paths", 3, a, b), 512), size(0, 2, 0, 4)),
                ("all graphs of four nodes", every(lambda a, b: graphs("paths", 4, a, b), 65536), only(0, 48)),
                ("calls", system(BUILD + " paths paths paths"), size(50, 2, 800, 8)),
                ("documents", xml("paths"), size(80, 2, 1000, 8)),
                ("spreadsheets", sheet("wide", nest="TRUE"), size(15, 2, 300, 8))],
            "assumptions": [PAIR]},
    "C19": {"campaigns": [
                ("spreadsheets", sheet("load", nest="TRUE"), size(70, 6, 1200, 16)),
                ("free rows", sheet("load"), size(150, 2, 2000, 8)),
                ("deep", sheet("load", rows=26, depth=5, nest="TRUE"), size(25, 4, 400, 8)),
                ("many branches", sheet("load", rows=40, depth=1, branch=26, nest="TRUE"), size(15, 2, 250, 8)),
                ("long numbers", sheet("load", rows=15, depth=2, runs="TRUE", nest="TRUE"), size(20, 3, 300, 8)),
                ("all small spreadsheets", parts(sheets("load", rows=5)), size(0, 2, 0, 2)),
                ("all spreadsheets of six rows", parts(sheets("load", rows=6)), only(0, 16))],
            "models": [MODEL_SHEETS, MODEL_SHEETS7]},
    "C20": {"campaigns": [
                ("spreadsheets", sheet("load", nest="TRUE"), size(70, 6, 1200, 16)),
                ("free rows", sheet("load"), size(150, 2, 2000, 8)),
                ("deep", sheet("load", rows=26, depth=5, nest="TRUE"), size(25, 4, 400, 8)),
                ("many branches", sheet("load", rows=40, depth=1, branch=26, nest="TRUE"), size(15, 2, 250, 8)),
                ("long numbers", sheet("load", rows=15, depth=2, runs="TRUE", nest="TRUE"), size(20, 3, 300, 8)),
                ("all small spreadsheets", parts(sheets("load", rows=5)), size(0, 2, 0, 2)),
                ("all spreadsheets of six rows", parts(sheets("load", rows=6)), only(0, 16))],
            "models": [MODEL_SHEETS, MODEL_SHEETS7]},
    "C21": {"campaigns": [
                ("processes", block("block doc laid"), size(60, 8, 1000, 16)),
                ("small processes", block("block doc", rows=6, depth=2), size(100, 4, 1500, 8)),
                ("many branches", block("block", rows=32, depth=1, branch=26), size(25, 2, 400, 8)),
                ("deep", block("block", rows=24, depth=5), size(20, 3, 300, 8))]},
    "C22": {"campaigns": [
                ("spreadsheets", sheet("round", "round", nest="TRUE"), size(60, 6, 1000, 16)),
                ("free rows", sheet("round", "round"), size(250, 2, 3000, 8)),
                ("deep", sheet("round", "round", rows=26, depth=5, nest="TRUE"), size(12, 4, 300, 8)),
                ("many branches", sheet("round", "round", rows=40, depth=1, branch=26, nest="TRUE"), size(15, 2, 250, 8)),
                ("long numbers", sheet("round", "round", rows=15, depth=2, runs="TRUE", nest="TRUE"), size(20, 3, 300, 8)),
                ("all small spreadsheets", parts(sheets("round", "round", rows=6)), size(0, 3, 0, 4)),
                ("all spreadsheets of seven rows", parts(sheets("round", "round", rows=7)), only(0, 4))]},
    "C23": {"campaigns": [
                ("dead ends", sheet("load", "dead", nest="TRUE"), size(80, 4, 1200, 16)),
                ("free rows", sheet("load", "dead"), size(150, 2, 2000, 8)),
                ("all small spreadsheets", parts(sheets("load", "dead", rows=5)), size(0, 3, 0, 2)),
                ("good spreadsheets", sheet("load", nest="TRUE"), size(50, 2, 800, 4)),
                ("long numbers", sheet("load", "dead", rows=15, depth=2, runs="TRUE", nest="TRUE"), size(20, 2, 300, 4)),
                ("graphs", graph("csvrefused"), size(150, 3, 3000, 8)),
                ("calls", system(BUILD + " csvrefused csvrefused csvrefused"), size(60, 2, 1000, 8)),
                ("documents", xml("refuse"), size(60, 2, 800, 8))],
            "models": [MODEL_SHEETS]},
    "C24": {"campaigns": [
                ("calls", system(BUILD + " dot png draw layout"), size(50, 5, 800, 16)),
                ("documents", xml("draw"), size(50, 4, 800, 8)),
                ("spreadsheets", sheet("draw", nest="TRUE"), size(20, 3, 300, 8))]},
    "C25": {"campaigns": [
                ("every field and value", parts(elements(True)), size(0, 4, 0, 4)),
                ("histories", elements(), size(150, 6, 3000, 16))]},
}
