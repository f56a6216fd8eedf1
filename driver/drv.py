# coding=utf-8
"""Runs scenarios (sequences of operations of the specification) on the real bpmn_python code and records, after every
operation, its outcome and the projected state of every diagram object.

usage: drv.py SCENARIOS.json TRACES.json SCRATCH_DIR"""
import csv
import decimal
import io
import json
import math
import os
import shutil
import signal
import sys
import time
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proj
import xmlio
from proj import ABSENT, tok, text

import bpmn_python.bpmn_diagram_rep as rep
import bpmn_python.bpmn_diagram_exception as exc
import bpmn_python.bpmn_diagram_layouter as layouter
import bpmn_python.bpmn_diagram_metrics as metrics
import bpmn_python.diagram_layout_metrics as lmetrics

LIMIT = 20.0
DEF = "@def"


class Timeout(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


def num(v):
    """canonical text of a number"""
    f = float(v)
    return str(int(f)) if f == int(f) else repr(f)


def frac(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)) or math.isnan(v) or math.isinf(v):
        return [-1, 0]
    fr = Fraction(v).limit_denominator(1000)
    if abs(float(fr) - v) > 1e-9:
        return [-2, 0]
    return [fr.numerator, fr.denominator]


def cnt(v):
    """a count: an int, anything else is encoded as -1"""
    return v if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2 ** 31 else -1


BAD = -2000000000


def whole(v, scale=1):
    """a coordinate as an integer number of 1/scale, BAD if it is none"""
    try:
        f = float(v) * scale
    except (TypeError, ValueError):
        return BAD
    return int(f) if abs(f) < 10 ** 6 and f == int(f) else BAD


def route(v, scale):
    return [[whole(p[0], scale), whole(p[1], scale)] for p in (v or [])]


def quot(v, scale, way=0):
    """coordinate v/scale as a text a document could have"""
    if v % scale:
        return format(decimal.Decimal(v) / scale, "f")
    return str(v // scale) + (".0" if way % 3 == 0 else "")


DECOY_XML = b"""<?xml version="1.0" encoding="UTF-8"?>
<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" xmlns:bpmndi="http://www.omg.org/spec/BPMN/20100524/DI">
<collaboration id="decoy_c"><participant id="decoy_q" name="decoy" processRef="decoy_p"/></collaboration>
<process id="decoy_p" name="decoy" isClosed="true" isExecutable="true" processType="Public">
<laneSet id="decoy_s"><lane id="decoy_l" name="decoy"><flowNodeRef>decoy_1</flowNodeRef></lane></laneSet>
<task id="decoy_1" name="decoy"/><task id="n1" name="decoy"/><sequenceFlow id="f1" name="decoy" sourceRef="decoy_1" targetRef="n1"/>
</process><bpmndi:BPMNDiagram id="decoy_d" name="decoy"><bpmndi:BPMNPlane id="decoy_e" bpmnElement="decoy_p"/>
</bpmndi:BPMNDiagram></definitions>"""
DECOY_CSV = b"""Order,Activity,Condition,Who,Subprocess,Terminated
0,decoy,,,,
1a,decoy,yes,,,
1b,decoy,no,,,
2,decoy,,,,
3,decoy,,,,yes
"""


class Run(object):
    def __init__(self, scenario, scratch):
        self.sc, self.scratch = scenario, scratch + "/"
        self.nm, self.scale = proj.Names(), 1
        self.objs, self.ghosts, self.made, self.files = {}, {}, {}, {}
        self.states, self.index, self.events, self.raws = [], {}, [], {}
        for op in scenario["ops"]:
            for key in ("o", "o2"):
                if key in op:
                    self.objs.setdefault(op[key], rep.BpmnDiagramGraph())

    # ---------------------------------------------------------------- log
    def snapshot(self):
        """per object: the number of its projected state and of everything it holds"""
        post, raw = {}, {}
        held = {name: proj.grab(d) for name, d in self.objs.items()}
        held.update(self.ghosts)
        for name, parts in held.items():
            post[name] = self.intern(proj.project(self.nm, *parts))
            raw[name] = self.raws.setdefault(proj.raw(*parts), len(self.raws) + 1)
        return post, raw

    def intern(self, state):
        key = json.dumps(state, sort_keys=True)
        if key not in self.index:
            self.states.append(state)
            self.index[key] = len(self.states)
        return self.index[key]

    def run(self):
        post, raw = self.snapshot()
        self.events.append({"op": "init", "o": "", "res": "ok", "ret": {}, "args": {}, "post": post, "raw": raw,
                            "broken": "no"})
        for k, op in enumerate(self.sc["ops"], 1):
            self.k = k
            args = {key: self.arg(key, value) for key, value in op.items()}
            ret, res = {}, "ok"
            signal.setitimer(signal.ITIMER_REAL, LIMIT)
            try:
                ret = getattr(self, "op_" + op["op"])(op)
            except Timeout:
                res = "timeout"
            except exc.BpmnPythonError:
                res = "refused"
            except RecursionError:
                res = "raise:RecursionError"
            except Exception as e:
                res = "raise:" + type(e).__name__
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            broken = "no"
            try:
                post, raw = self.snapshot()
            except Exception:
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
                post, raw, broken = self.events[-1]["post"], self.events[-1]["raw"], "yes"
            self.events.append({"op": op["op"], "o": op.get("o", ""), "res": res, "ret": ret or {}, "args": args,
                                "post": post, "raw": raw, "broken": broken})
            if res == "timeout" or broken == "yes":
                break
        return {"events": self.events, "states": self.states, "docs": self.sc.get("docs", []),
                "csvs": self.sc.get("csvs", [])}

    def arg(self, key, value):
        if isinstance(value, str) and key in ("p", "src", "tgt", "id", "dflt"):
            return self.nm.ident(self.real(value))
        return value

    def real(self, ident):
        """'@k' is the id made by operation k"""
        if isinstance(ident, str) and ident.startswith("@") and ident[1:].isdigit():
            return self.made.get(int(ident[1:]), ident)
        return ident

    def obj(self, op):
        return self.objs[op["o"]]

    def op_without(self, op):
        """the same calls once more without those that were refused: what differs"""
        made = {"task", "subprocess", "start", "end", "exclusive", "inclusive", "parallel", "flow", "process", "new"}
        refused = {k for k, e in enumerate(self.events) if e["op"] in made and e["res"] != "ok"}
        ops = self.sc["ops"][:self.k - 1]
        again = Run(dict(self.sc, ops=[{"op": "nothing", "o": x["o"]} if k in refused else x for k, x in enumerate(ops, 1)]),
                    self.scratch[:-1])
        out = again.run()
        differ = [e["op"] + str(k) for k, e in enumerate(self.events)
                  if k not in refused and (e["res"], e["ret"] if e["op"] in made else "")
                  != (out["events"][k]["res"], out["events"][k]["ret"] if e["op"] in made else "")]
        for name in sorted(self.objs):
            if self.states[self.events[-1]["post"][name] - 1] != out["states"][out["events"][-1]["post"][name] - 1]:
                differ.append(name)
        return {"differ": differ}

    def op_nothing(self, op):
        pass

    # ----------------------------------------------------------- building
    def op_new(self, op):
        d = self.obj(op)
        if d.diagram_graph._node or d.process_elements or d.diagram_attributes:
            self.ghosts["%s@%d" % (op["o"], self.k)] = proj.grab(d)
        if op["name"] == DEF:
            d.create_new_diagram_graph()
        else:
            d.create_new_diagram_graph(diagram_name=tok(op["name"]))

    def keyword(self, op, table, **kw):
        for field, (arg, kind) in table.items():
            value = op.get(field, DEF)
            if value == DEF:
                continue
            if kind == "bool":
                value = value == "true"
            elif kind == "id":
                value = None if value == ABSENT else self.real(value)
            elif kind == "opt":
                value = None if value == ABSENT else value
            elif kind == "text":
                value = tok(value)
            kw[arg] = value
        return kw

    def call(self, method, op, head, table):
        """head: the arguments that have to be given, table: the options, both in the documented order; some calls
        name their arguments, some give as many as possible by position"""
        kw, args = self.keyword(op, table), [v for _, v in head]
        if self.k % 3 == 0:
            return method(**dict(head, **kw))
        if self.k % 3 == 1:
            for arg, _ in table.values():
                if arg not in kw:
                    break
                args.append(kw.pop(arg))
        return method(*args, **kw)

    def owner(self, op):
        return [("process_id", self.real(op["p"]))]

    def op_process(self, op):
        pid = self.call(self.obj(op).add_process_to_diagram, op, [],
                        {"name": ("process_name", "text"), "closed": ("process_is_closed", "bool"),
                         "executable": ("process_is_executable", "bool"), "ptype": ("process_type", "raw")})
        self.made[self.k] = pid
        return {"id": self.nm.ident(pid)}

    def node_ret(self, ret):
        node_id, data = ret
        self.made[self.k] = node_id
        return {"id": self.nm.ident(node_id), "rec": proj.node(self.nm, data)}

    def op_task(self, op):
        return self.node_ret(self.call(self.obj(op).add_task_to_diagram, op, self.owner(op),
                                       {"name": ("task_name", "text"), "id": ("node_id", "id")}))

    def op_subprocess(self, op):
        return self.node_ret(self.call(self.obj(op).add_subprocess_to_diagram, op, self.owner(op) + [("subprocess_name", tok(op["name"]))],
                                       {"expanded": ("is_expanded", "bool"), "triggered": ("triggered_by_event", "bool"),
                                        "id": ("node_id", "id")}))

    def op_start(self, op):
        return self.node_ret(self.call(self.obj(op).add_start_event_to_diagram, op, self.owner(op),
                                       {"name": ("start_event_name", "text"), "def": ("start_event_definition", "opt"),
                                        "multiple": ("parallel_multiple", "bool"),
                                        "interrupting": ("is_interrupting", "bool"), "id": ("node_id", "id")}))

    def op_end(self, op):
        return self.node_ret(self.call(self.obj(op).add_end_event_to_diagram, op, self.owner(op),
                                       {"name": ("end_event_name", "text"), "def": ("end_event_definition", "opt"),
                                        "id": ("node_id", "id")}))

    def op_exclusive(self, op):
        return self.node_ret(self.call(self.obj(op).add_exclusive_gateway_to_diagram, op, self.owner(op),
                                       {"name": ("gateway_name", "text"), "dir": ("gateway_direction", "raw"),
                                        "dflt": ("default", "id"), "id": ("node_id", "id")}))

    def op_inclusive(self, op):
        return self.node_ret(self.call(self.obj(op).add_inclusive_gateway_to_diagram, op, self.owner(op),
                                       {"name": ("gateway_name", "text"), "dir": ("gateway_direction", "raw"),
                                        "dflt": ("default", "id"), "id": ("node_id", "id")}))

    def op_parallel(self, op):
        return self.node_ret(self.call(self.obj(op).add_parallel_gateway_to_diagram, op, self.owner(op),
                                       {"name": ("gateway_name", "text"), "dir": ("gateway_direction", "raw"),
                                        "id": ("node_id", "id")}))

    def op_flow(self, op):
        src, tgt = self.real(op["src"]), self.real(op["tgt"])
        flow_id, data = self.call(self.obj(op).add_sequence_flow_to_diagram, op,
                                  self.owner(op) + [("source_ref_id", src), ("target_ref_id", tgt)],
                                  {"name": ("sequence_flow_name", "text")})
        self.made[self.k] = flow_id
        return {"id": self.nm.ident(flow_id), "rec": proj.flow(self.nm, src, tgt, data)}

    def op_graph(self, op):
        """a whole diagram at once: nodes is a list of kinds, edges a list of index pairs"""
        d = self.obj(op)
        d.create_new_diagram_graph(diagram_name="graph")
        p = d.add_process_to_diagram()
        ids = []
        for i, kind in enumerate(op["nodes"], 1):
            nid = "n%d" % i
            if kind == "task":
                d.add_task_to_diagram(p, task_name="T%d" % i, node_id=nid)
            elif kind == "subProcess":
                d.add_subprocess_to_diagram(p, "S%d" % i, node_id=nid)
            elif kind == "startEvent":
                d.add_start_event_to_diagram(p, start_event_name="B%d" % i, node_id=nid)
            elif kind == "endEvent":
                d.add_end_event_to_diagram(p, end_event_name="E%d" % i, node_id=nid)
            elif kind == "exclusiveGateway":
                d.add_exclusive_gateway_to_diagram(p, gateway_name="X%d" % i, node_id=nid)
            elif kind == "inclusiveGateway":
                d.add_inclusive_gateway_to_diagram(p, gateway_name="O%d" % i, node_id=nid)
            elif kind == "parallelGateway":
                d.add_parallel_gateway_to_diagram(p, gateway_name="P%d" % i, node_id=nid)
            else:  # kinds without a building method of their own
                d.add_flow_node_to_diagram(p, kind, "N%d" % i, nid)
                d.diagram_graph.node[nid]["event_definitions"] = []
            ids.append(nid)
        for j, (a, b) in enumerate(op["edges"], 1):
            d.add_sequence_flow_to_diagram(p, ids[a - 1], ids[b - 1], "f%d" % j)

    def op_block(self, op):
        """a whole process at once: nodes with id, kind, name, event definition; flows with name, condition, default"""
        d = self.obj(op)
        d.create_new_diagram_graph(diagram_name="block")
        p = d.add_process_to_diagram()
        for n in op["nodes"]:
            kind, nid, name = n["kind"], n["id"], tok(n["name"])
            if kind == "task":
                d.add_task_to_diagram(p, task_name=name, node_id=nid)
            elif kind == "subProcess":
                d.add_subprocess_to_diagram(p, name, node_id=nid)
            elif kind == "startEvent":
                d.add_start_event_to_diagram(p, start_event_name=name, start_event_definition=n["def"] or None,
                                             node_id=nid)
            elif kind == "endEvent":
                d.add_end_event_to_diagram(p, end_event_name=name, end_event_definition=n["def"] or None, node_id=nid)
            elif kind == "exclusiveGateway":
                d.add_exclusive_gateway_to_diagram(p, gateway_name=name, node_id=nid)
            elif kind == "inclusiveGateway":
                d.add_inclusive_gateway_to_diagram(p, gateway_name=name, node_id=nid)
            else:
                d.add_parallel_gateway_to_diagram(p, gateway_name=name, node_id=nid)
        for f in op["flows"]:
            fid, data = d.add_sequence_flow_to_diagram(p, f["src"], f["tgt"], tok(f["name"]))
            if f["cond"]:
                d.diagram_graph[f["src"]][f["tgt"]]["conditionExpression"] = {"id": fid + "_c",
                                                                                  "conditionExpression": tok(f["cond"])}
            if f["dflt"] == "yes":
                d.diagram_graph._node[f["src"]]["default"] = fid

    # ------------------------------------------------------------ queries
    def op_queries(self, op):
        first, second = self.queries(op), self.queries(op)
        return dict(first, again="yes" if first == second else "no")

    def queries(self, op):
        d, nm = self.obj(op), self.nm

        def items(lst):
            return [[nm.ident(n[0]), proj.node(nm, n[1])] for n in lst]

        def fitems(lst):
            return [[nm.ident(f[0]), nm.ident(f[1]), proj.flow(nm, f[0], f[1], f[2])] for f in lst]
        types = sorted({str(n.get("type")) for n in d.diagram_graph._node.values()} | {"task", "nosuchType"})
        procs = sorted({str(n.get("process")) for n in d.diagram_graph._node.values()} |
                       set(d.process_elements) | {"nosuch"})
        ids = list(d.diagram_graph._node) + ["nosuch"]
        flow_ids = [str(f.get("id")) for _, _, f in d.diagram_graph.edges(data=True)] + list(d.sequence_flows) + \
            ["nosuch"]
        byid = []
        for i in ids:
            got = d.get_node_by_id(i)
            byid.append({"k": nm.ident(i), "items": [] if got is None else items([got])})
        fbyid = []
        for i in sorted(set(flow_ids)):
            got = d.get_flow_by_id(i)
            fbyid.append({"k": nm.ident(i), "items": [] if got is None else fitems([got])})
        # black-box pools have no position before they get a shape
        placed = all("x" in n and "y" in n for n in d.diagram_graph._node.values())
        pos = [[nm.ident(k), num(v[0]), num(v[1])] for k, v in d.get_nodes_positions().items()] if placed else []
        procs.sort(key=nm.ident)  # generated identifiers sort differently every time
        fbyid.sort(key=lambda x: x["k"])
        return {"all": items(d.get_nodes()),
                "bytype": [{"k": t, "items": items(d.get_nodes(t))} for t in types],
                "ids": [{"k": t, "items": [nm.ident(i) for i in d.get_nodes_id_list_by_type(t)]} for t in types],
                "byproc": [{"k": nm.ident(p), "items": items(d.get_nodes_list_by_process_id(p))} for p in procs],
                "byid": byid, "flows": fitems(d.get_flows()), "fbyid": fbyid,
                "fbyproc": [{"k": nm.ident(p), "items": fitems(d.get_flows_list_by_process_id(p))} for p in procs],
                "pos": pos, "placed": "yes" if placed else "no"}

    # -------------------------------------------------------------- reads
    def op_reads(self, op):
        d = self.obj(op)
        out = []
        for name in op["which"]:
            answers = []
            for i in (1, 2):
                try:
                    answers.append(getattr(self, "read_" + name)(d, i))
                except Timeout:
                    raise
                except Exception as e:
                    answers.append("raise:" + type(e).__name__)
            out.append({"r": name, "res": "raise" if str(answers[0]).startswith("raise:") else "ok",
                        "again": "yes" if answers[0] == answers[1] else "no"})
        return {"reads": out}

    def path(self, name):
        return os.path.join(self.scratch, name)

    def content(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def read_queries(self, d, i):
        return repr([self.queries({"o": k}) for k, v in self.objs.items() if v is d])

    def read_counts(self, d, i):
        return repr(self.metrics(d))

    def read_paths(self, d, i):
        return repr(self.paths(d))

    def read_cross(self, d, i):
        return repr((lmetrics.count_segments(d), lmetrics.count_crossing_points(d)))

    def read_xml(self, d, i):
        d.export_xml_file(self.scratch, "r%d.bpmn" % i)
        return self.content("r%d.bpmn" % i)

    def read_nodi(self, d, i):
        d.export_xml_file_no_di(self.scratch, "r%d.bpmn" % i)
        return self.content("r%d.bpmn" % i)

    def read_csv(self, d, i):
        d.export_csv_file(self.scratch, "r%d.csv" % i)
        return self.content("r%d.csv" % i)

    def read_dot(self, d, i):
        import bpmn_python.bpmn_diagram_visualizer as visualizer
        visualizer.bpmn_diagram_to_dot_file(d, self.path("r%d" % i))
        return self.content("r%d.dot" % i)

    def read_png(self, d, i):
        import draw
        return repr(draw.png(d, self.path("r%d" % i), self.nm))

    def read_draw(self, d, i):
        import draw
        return repr(draw.show(d))

    # ------------------------------------------------------------- layout
    def op_layout(self, op):
        d = self.obj(op)
        layouter.generate_layout(d)
        return {"pos": {self.nm.ident(n): [whole(v.get("x")), whole(v.get("y"))]
                        for n, v in d.diagram_graph._node.items()},
                "routes": {self.nm.ident(f.get("id")): route(f.get("waypoints"), 1)
                           for _, _, f in d.diagram_graph.edges(data=True)}}

    def op_metrics(self, op):
        return self.metrics(self.obj(op))

    def metrics(self, d):
        m = metrics
        types = xmlio.NODE_TYPES | {"participant"}
        g, e, a = m.get_gateway_counts(d), m.get_events_counts(d), m.get_activities_counts(d)

        def table(t):
            return [[str(k), cnt(v)] for k, v in sorted(t.items())]

        def ratio(f):
            try:
                return frac(f(d))
            except ZeroDivisionError:
                return [0, 0]
        return {"count": cnt(m.get_nodes_count(d)),
                "counts": [[t, cnt(m.get_nodes_count(d, t))] for t in sorted(types)],
                "gateways": sorted(self.nm.ident(n[0]) for n in m.get_all_gateways(d)),
                "gw": table(g), "ev": table(e), "act": table(a),
                "allact": cnt(m.all_activities_count(d)), "allgw": cnt(m.all_gateways_count(d)),
                "allcf": cnt(m.all_control_flow_elements_count(d)), "allev": cnt(m.all_events_count(d)),
                "TNSE": cnt(m.TNSE_metric(d)), "TNIE": cnt(m.TNIE_metric(d)), "TNEE": cnt(m.TNEE_metric(d)),
                "TNE": cnt(m.TNE_metric(d)), "NOA": cnt(m.NOA_metric(d)), "NOAC": cnt(m.NOAC_metric(d)),
                "NOAJS": cnt(m.NOAJS_metric(d)), "NON": cnt(m.NumberOfNodes_metric(d)),
                "GH": cnt(m.GatewayHeterogenity_metric(d)),
                "CNC": ratio(m.CoefficientOfNetworkComplexity_metric), "AGD": ratio(m.AverageGatewayDegree_metric),
                "DSM": cnt(m.DurfeeSquare_metric(d)), "PSM": cnt(m.PerfectSquare_metric(d))}

    def op_paths(self, op):
        return self.paths(self.obj(op))

    def paths(self, d):
        path, length = lmetrics.compute_longest_path(d)
        tpath, tlength = lmetrics.compute_longest_path_tasks(d)
        return {"path": [self.nm.ident(n[0]) for n in path], "len": cnt(length),
                "tpath": [self.nm.ident(n[0]) for n in tpath], "tlen": cnt(tlength)}

    def op_setwps(self, op):
        d = self.obj(op)
        for src, tgt, wps in op["wps"]:
            self.scale = op["scale"]
            d.diagram_graph["n%d" % src]["n%d" % tgt]["waypoints"] = \
                [(quot(x, op["scale"], src + j), quot(y, op["scale"], tgt + j)) for j, (x, y) in enumerate(wps)]

    def op_cross(self, op):
        d = self.obj(op)
        routes = [route(f.get("waypoints"), max(4, self.scale)) for _, _, f in d.diagram_graph.edges(data=True)]
        return {"segs": cnt(lmetrics.count_segments(d)), "cross": cnt(lmetrics.count_crossing_points(d)),
                "routes": routes}

    def op_pairs(self, op):
        """crossing count of many pairs of segments, each as the routes of two flows of one diagram"""
        d = self.obj(op)
        out = []
        for s, t in op["pairs"]:
            d.diagram_graph["n1"]["n2"]["waypoints"] = [(quot(x, op["scale"]), quot(y, op["scale"])) for x, y in s]
            d.diagram_graph["n3"]["n4"]["waypoints"] = [(quot(x, op["scale"]), quot(y, op["scale"])) for x, y in t]
            out.append([s, t, cnt(lmetrics.count_crossing_points(d))])
        return {"pairs": out}

    # ---------------------------------------------------------------- XML
    def decoy(self, name, content):
        """sometimes another file of that name has been loaded before, by another object"""
        if self.k % 3 == self.sc.get("sid", 0) % 3:
            with open(self.path(name), "wb") as f:
                f.write(content)
            other = rep.BpmnDiagramGraph()
            if name.endswith(".csv"):
                other.load_diagram_from_csv_file(self.path(name))
            else:
                other.load_diagram_from_xml_file(self.path(name))
            os.remove(self.path(name))

    def op_load(self, op):
        name = "doc%d.bpmn" % self.k
        self.decoy(name, DECOY_XML)
        with open(self.path(name), "wb") as f:
            if "file" in op:  # a file of the repository that is this document
                with open(op["file"], "rb") as given:
                    f.write(given.read())
            else:
                f.write(xmlio.write(self.sc["docs"][op["doc"] - 1], op["style"]))
        self.obj(op).load_diagram_from_xml_file(self.path(name))

    def target(self, ext):
        """where an export goes: a new file, an existing longer one, or a folder that is not there yet"""
        name, where = "exp%d.%s" % (self.k, ext), ""
        if self.k % 3 == 1:
            where = "made%d/deep/" % self.k
        elif self.k % 3 == 2:
            with open(self.path(name), "w") as f:
                f.write("what was there before\n" * 5000)
        return self.scratch + where, name, where + name

    def op_export(self, op):
        directory, name, path = self.target("bpmn")
        self.obj(op).export_xml_file(directory, name)
        self.files[self.k] = name = path
        return {"doc": xmlio.read(self.content(name), self.nm)}

    def op_nodi(self, op):
        directory, name, path = self.target("bpmn")
        full = []  # the full export to compare with, if there is one
        try:
            self.obj(op).export_xml_file(self.scratch, "full.bpmn")
            full = [xmlio.read(self.content("full.bpmn"), self.nm)]
        except Timeout:
            raise
        except Exception:
            pass
        self.obj(op).export_xml_file_no_di(directory, name)
        self.files[self.k] = name = path
        return {"doc": xmlio.read(self.content(name), self.nm), "full": full}

    def op_reload(self, op):
        self.obj(op).load_diagram_from_xml_file(self.again(op, DECOY_XML))

    def again(self, op, content):
        """an exported file, where it was written or moved to where another file was"""
        name = self.files[op["file"]]
        ext = name.rsplit(".", 1)[1]
        if self.k % 2 == 0:
            self.decoy("moved%d.%s" % (self.k, ext), content)
            shutil.copy(self.path(name), self.path("moved%d.%s" % (self.k, ext)))
            name = "moved%d.%s" % (self.k, ext)
        return self.path(name)

    # ---------------------------------------------------------------- CSV
    def op_loadcsv(self, op):
        name = "sheet%d.csv" % self.k
        self.decoy(name, DECOY_CSV)
        write_csv(self.path(name), self.sc["csvs"][op["csv"] - 1], op.get("style", "plain"))
        self.obj(op).load_diagram_from_csv_file(self.path(name))

    def op_csvexport(self, op):
        directory, name, path = self.target("csv")
        self.obj(op).export_csv_file(directory, name)
        self.files[self.k] = name = path
        rows = list(csv.reader(io.StringIO(self.content(name).decode("utf-8"), newline="")))
        return {"header": rows[0] if rows else [], "rows": [r[:1] + [text(c) for c in r[1:]] for r in rows[1:]]}

    def op_csvrefused(self, op):
        """CSV export that has to be refused: the outcome and what happened to the file of that name"""
        name = "ref%d.csv" % self.k
        if op.get("pre") == "yes":
            with open(self.path(name), "w") as f:
                f.write("sentinel\n")
        outcome = "ok"
        try:
            self.obj(op).export_csv_file(self.scratch, name)
        except exc.BpmnPythonError:
            outcome = "refused"
        except Exception as e:
            outcome = "raise:" + type(e).__name__
        state = "none"
        if os.path.exists(self.path(name)):
            state = "old" if self.content(name) == b"sentinel\n" else "new"
        return {"outcome": outcome, "file": state}

    def op_reloadcsv(self, op):
        self.obj(op).load_diagram_from_csv_file(self.again(op, DECOY_CSV))

    # ------------------------------------------------------------ drawing
    def op_dot(self, op):
        import draw
        return draw.dot(self.obj(op), self.path("d%d" % self.k), self.nm)

    def op_png(self, op):
        import draw
        return draw.png(self.obj(op), self.path("d%d" % self.k), self.nm)

    def op_draw(self, op):
        import draw
        return draw.show(self.obj(op), self.nm)

    # ----------------------------------------------------------- elements
    def op_emake(self, op):
        import elements
        if not hasattr(self, "table"):
            self.table = elements.Table()
        return self.table.do(op)

    op_eset = op_eappend = op_emake


def hash_of(s):
    return sum((i + 7) * ord(c) for i, c in enumerate(s)) * 2654435761 % 1009


def write_csv(path, rows, style):
    head = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]
    with open(path, "w", encoding="utf-8", newline="") as f:
        w = csv.writer(f, lineterminator="\r\n" if style == "crlf" else "\n",
                       quoting=csv.QUOTE_ALL if style == "quoted" else csv.QUOTE_MINIMAL)
        w.writerow(head)
        if style == "reversed":
            rows = rows[::-1]
        elif style == "shuffled":
            rows = sorted(rows, key=lambda r: (hash_of(r["order"])))
        for r in rows:
            order = r["order"]
            if style == "spaces":
                order = " " + order + " "
            w.writerow([order, tok(r["activity"]), tok(r["cond"]), tok(r["who"]), r["sub"], r["term"]])


def main():
    src, dst, scratch = sys.argv[1:4]
    signal.signal(signal.SIGALRM, on_alarm)
    scenarios = json.load(open(src))
    out = []
    begun = time.time()
    late = 0
    for i, sc in enumerate(scenarios):
        if late >= 3 or time.time() - begun > 400:
            break
        where = os.path.join(scratch, "s%d" % i)
        os.makedirs(where)
        r = Run(sc, where).run()
        r["sid"] = sc.get("sid", i)
        out.append(r)
        late += r["events"][-1]["res"] == "timeout"
        shutil.rmtree(where)
    with open(dst, "w") as f:
        json.dump(out, f, ensure_ascii=True)


if __name__ == "__main__":
    main()
