# coding=utf-8
"""Typed elements: objects of the classes in bpmn_python/graph/classes, their fields read with the getters."""
import importlib
import os
import sys

import bpmn_python

ROOT = os.path.dirname(os.path.abspath(bpmn_python.__file__))
WHERE = {
    "BaseElement": "base_element_type", "ConditionExpression": "condition_expression_type",
    "FlowElement": "flow_element_type", "FlowNode": "flow_node_type", "LaneSet": "lane_set_type", "Lane": "lane_type",
    "MessageFlow": "message_flow_type", "Participant": "participant_type", "SequenceFlow": "sequence_flow_type",
    "Activity": "activities.activity_type", "SubProcess": "activities.subprocess_type", "Task": "activities.task_type",
    "Event": "events.event_type", "CatchEvent": "events.catch_event_type", "ThrowEvent": "events.throw_event_type",
    "EndEvent": "events.end_event_type", "IntermediateThrowEvent": "events.intermediate_throw_event_type",
    "IntermediateCatchEvent": "events.intermediate_catch_event_type", "StartEvent": "events.start_event_type",
    "Gateway": "gateways.gateway_type", "ExclusiveGateway": "gateways.exclusive_gateway_type",
    "InclusiveGateway": "gateways.inclusive_gateway_type", "ParallelGateway": "gateways.parallel_gateway_type",
    "RootElement": "root_element.root_element_type", "CallableElement": "root_element.callable_element_type",
    "EventDefinition": "root_element.event_definition_type", "Process": "root_element.process_type"}


def cls(name):
    if ROOT not in sys.path:
        sys.path.append(ROOT)
    return getattr(importlib.import_module("graph.classes." + WHERE[name]), name)


def make(name, *ends):
    if name in ("SequenceFlow", "MessageFlow"):
        return cls(name)(*(ends or ("s", "t")))
    return cls(name)()


def word(w):
    if w == "none":
        return None
    kind, rest = w.split(":", 1)
    if kind == "s":
        return rest
    if kind == "b":
        return rest == "true"
    if kind == "i":
        return int(rest)
    if kind == "f":
        return float(rest)
    if kind == "y":
        return rest.encode()
    return make(rest)


def value(v):
    if v[0] == "atom":
        return word(v[1])
    items = [word(w) for w in v[1:]]
    if v[0] == "tuple":
        return tuple(items)
    if v[0] == "set":
        return set(items)
    if v[0] == "dict":
        return dict((i, i) for i in items)
    return items


def name_word(x):
    if x is None:
        return "none"
    if isinstance(x, bool):
        return "b:true" if x else "b:false"
    if isinstance(x, str):
        return "s:" + x
    if isinstance(x, int):
        return "i:%d" % x
    if isinstance(x, float):
        return "f:%r" % x
    if isinstance(x, bytes):
        return "y:" + x.decode("latin-1")
    return "o:" + type(x).__name__


def name_value(x):
    for kind, t in (("list", list), ("tuple", tuple), ("set", (set, frozenset)), ("dict", dict)):
        if isinstance(x, t):
            return [kind] + [name_word(i) for i in x]
    return ["atom", name_word(x)]


def getter(obj, field):
    for name in ("get_" + field, field):
        if hasattr(obj, name):
            return getattr(obj, name)
    raise LookupError(field)


class Table(object):
    """the objects of one history"""

    def __init__(self):
        self.objs = {}

    def fields(self, obj):
        names = [n[4:] for n in dir(obj) if n.startswith("set_")]
        return {f: name_value(getter(obj, f)()) for f in names}

    def snapshot(self):
        return {n: {"cls": type(o).__name__, "f": self.fields(o)} for n, o in sorted(self.objs.items())}

    def do(self, op):
        outcome, given = "ok", "yes"
        try:
            if op["op"] == "emake":
                self.objs[op["n"]] = make(op["cls"], value(op["src"]), value(op["tgt"]))
            elif op["op"] == "eset":
                v = value(op["v"])
                obj = self.objs[op["n"]]
                getattr(obj, "set_" + op["f"])(v)
                got = getter(obj, op["f"])()
                given = "yes" if got is v or (type(got) is type(v) and got == v) else "no"
            else:
                getter(self.objs[op["n"]], op["f"])().append(word(op["w"]))
        except (TypeError, ValueError) as e:
            outcome = "refused"
        except Exception as e:
            outcome = "raise:" + type(e).__name__
        return {"outcome": outcome, "given": given, "objs": self.snapshot()}
