# coding=utf-8
"""Projection of a BpmnDiagramGraph object to the state record of spec/Bpmn.tla.

Only the public attributes of the object are read (never the query methods, which are themselves under test)."""
import re

ABSENT = "@absent"
ATTRS = ["default", "gatewayDirection", "instantiate", "eventGatewayType", "triggeredByEvent", "isExpanded",
         "parallelMultiple", "isInterrupting", "cancelActivity", "attachedToRef", "isCollection"]
UUID = re.compile(r"id[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")

# tokens of the specification and the texts they stand for
TOKENS = {
    "~1": "a<b> & \"c\" 'd'",
    "~2": u"za\u017c\u00f3\u0142\u0107 \u2603 \U0001F600",
    "~3": "first line\nsecond line\ttab",
    "~4": "  lead, comma; and trail ",
    "~5": "{n} %s %d \\ / $x ]]> <!-- -->",
    "~6": "true",
    "~7": "None",
    "~8": "x > 10 && y <= \"z\"",
    "~9": "0",
    "~10": "x" * 300 + u" \u00a0 end",
    "~11": "two  blanks",
}
UNTOK = {v: k for k, v in TOKENS.items()}


def tok(s):
    """token -> text"""
    return TOKENS.get(s, s)


class Names(object):
    """Maps generated ids to '#k' in the order in which they are first seen."""

    def __init__(self):
        self.ids = {}

    def ident(self, s):
        if not isinstance(s, str):
            return scalar(s)
        return UUID.sub(lambda m: self.ids.setdefault(m.group(0), "#%d" % (len(self.ids) + 1)), s)


def scalar(v):
    if v is None:
        return "!None"
    if isinstance(v, str):
        return v
    return "!%s:%r" % (type(v).__name__, v)


def text(v):
    """a name or a condition: back to the token, if it is one"""
    if isinstance(v, str):
        return UNTOK.get(v, v)
    return scalar(v)


def opt(d, key):
    """attribute of a dictionary, ABSENT if there is none"""
    if not hasattr(d, "get"):
        return "!notadict"
    return ABSENT if key not in d else scalar(d[key])


def topt(d, key):
    return ABSENT if key not in d else text(d[key])


def optid(nm, d, key):
    return ABSENT if key not in d else nm.ident(d[key])


def idlist(nm, v):
    if v is None or v == ABSENT:
        return []
    return [nm.ident(x) for x in v]


def put(table, key, value):
    while key in table:
        key += "@dup"
    table[key] = value


def node(nm, data):
    attrs = {}
    for key in ATTRS:
        value = optid(nm, data, key)
        if value == "!None":
            value = ABSENT
        attrs[key] = value
    defs = []
    for definition in (data.get("event_definitions") or []):
        defs.append({"t": opt(definition, "definition_type"), "id": optid(nm, definition, "id")})
    defs.sort(key=lambda r: (r["t"], r["id"]))
    return {"id": optid(nm, data, "id"), "type": opt(data, "type"), "name": topt(data, "node_name"),
            "process": optid(nm, data, "process"), "inc": idlist(nm, data.get("incoming")),
            "out": idlist(nm, data.get("outgoing")), "x": opt(data, "x"), "y": opt(data, "y"),
            "w": opt(data, "width"), "h": opt(data, "height"), "a": attrs, "defs": defs,
            "nids": idlist(nm, data.get("node_ids"))}


def flow(nm, src, tgt, data):
    cond = {"has": "no", "id": ABSENT, "text": ABSENT}
    if "conditionExpression" in data:
        c = data["conditionExpression"]
        cond = {"has": "yes", "id": optid(nm, c, "id"), "text": topt(c, "conditionExpression")}
    s, t = optid(nm, data, "sourceRef"), optid(nm, data, "targetRef")
    if s != nm.ident(src) or t != nm.ident(tgt):
        # the edge and its own record contradict each other
        s, t = "!%s/%s" % (nm.ident(src), s), "!%s/%s" % (nm.ident(tgt), t)
    return {"id": optid(nm, data, "id"), "name": topt(data, "name"), "process": optid(nm, data, "process"),
            "src": s, "tgt": t, "wps": waypoints(data.get("waypoints")), "cond": cond}


def waypoints(v):
    if v is None:
        return []
    return [[scalar(p[0]), scalar(p[1])] for p in v]


def lanes(nm, out, process, parent, lane_set):
    set_id = optid(nm, lane_set, "id")
    for lane_id, lane in (lane_set.get("lanes") or {}).items():
        rec = {"id": optid(nm, lane, "id"), "process": process, "parent": parent, "setId": set_id,
               "name": topt(lane, "name"), "horiz": opt(lane, "isHorizontal"), "x": opt(lane, "x"),
               "y": opt(lane, "y"), "w": opt(lane, "width"), "h": opt(lane, "height"),
               "refs": idlist(nm, lane.get("flowNodeRefs"))}
        put(out, nm.ident(lane_id), rec)
        child = lane.get("childLaneSet")
        if child:
            lanes(nm, out, process, nm.ident(lane_id), child)


def key(nm, ident, rec):
    """the id under which a record is kept; the record may say it, too, and must not contradict it"""
    if "id" in rec and rec["id"] != ident:
        return "!%s/%s" % (nm.ident(ident), optid(nm, rec, "id"))
    return nm.ident(ident)


def project(nm, graph, sequence_flows, process_elements, diagram_attributes, plane_attributes, collaboration):
    nodes, flows, seq, procs, lns, parts, msgs = {}, {}, {}, {}, {}, {}, {}
    for node_id, data in graph._node.items():
        put(nodes, nm.ident(node_id), node(nm, data))
    for src, targets in graph._adj.items():
        for tgt, data in targets.items():
            if not hasattr(graph, "_succ") and str(tgt) < str(src) and tgt in graph._adj:
                continue  # an undirected graph keeps every edge twice
            rec = flow(nm, src, tgt, data)
            put(flows, rec["id"], rec)
    for flow_id, row in sequence_flows.items():
        put(seq, key(nm, flow_id, row), {"name": topt(row, "name"), "src": optid(nm, row, "sourceRef"),
                                     "tgt": optid(nm, row, "targetRef")})
    for process_id, attrs in process_elements.items():
        lane_set = attrs.get("laneSet")
        pid = key(nm, process_id, attrs)
        put(procs, pid, {"name": topt(attrs, "name"), "isClosed": opt(attrs, "isClosed"),
                         "isExecutable": opt(attrs, "isExecutable"), "processType": opt(attrs, "processType"),
                         "laneSet": optid(nm, lane_set, "id") if lane_set is not None else ABSENT,
                         "nids": idlist(nm, attrs.get("node_ids"))})
        if lane_set is not None:
            lanes(nm, lns, pid, ABSENT, lane_set)
    collab = {"present": "yes" if collaboration else "no", "id": optid(nm, collaboration or {}, "id")}
    for part_id, part in ((collaboration or {}).get("participants") or {}).items():
        put(parts, key(nm, part_id, part), {"name": topt(part, "name"), "ref": optid(nm, part, "processRef"),
                                       "horiz": opt(part, "isHorizontal"), "x": opt(part, "x"), "y": opt(part, "y"),
                                       "w": opt(part, "width"), "h": opt(part, "height")})
    for msg_id, row in ((collaboration or {}).get("messageFlows") or {}).items():
        put(msgs, key(nm, msg_id, row), {"name": topt(row, "name"), "src": optid(nm, row, "sourceRef"),
                                     "tgt": optid(nm, row, "targetRef")})
    return {"nodes": nodes, "flows": flows, "seq": seq, "procs": procs, "lanes": lns, "collab": collab,
            "parts": parts, "msgs": msgs,
            "diag": {"id": optid(nm, diagram_attributes, "id"), "name": topt(diagram_attributes, "name")},
            "plane": {"id": optid(nm, plane_attributes, "id"), "el": optid(nm, plane_attributes, "bpmnElement")}}


def grab(d):
    """the containers an object holds at this moment (kept by others who were handed the diagram)"""
    return (d.diagram_graph, d.sequence_flows, d.process_elements, d.diagram_attributes, d.plane_attributes,
            d.collaboration)


def plain(v):
    """a value without identity and without the order of dictionaries"""
    if isinstance(v, dict) or hasattr(v, "items"):
        return ("d",) + tuple(sorted((repr(k), plain(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(plain(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted(repr(plain(x)) for x in v))
    return ("v", type(v).__name__, repr(v))


def raw(graph, *tables):
    """everything an object holds, as one text"""
    return repr((plain(graph._node), plain(graph._adj), [plain(t) for t in tables]))
