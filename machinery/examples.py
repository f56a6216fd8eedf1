# coding=utf-8
"""The example files of the repository as scenarios: each file as it is, read by the independent reader into a
document of spec/Xml.tla, and a plan of operations on it."""
import glob
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "driver"))
import xmlio  # noqa: E402


def load(o, path):
    return {"op": "load", "o": o, "doc": 1, "style": {"prefix": ""}, "file": path}


def on(op, o):
    return {"op": op, "o": o}


def reload(o, k):
    return {"op": "reload", "o": o, "file": k}


def plan(kind, path):
    a = load("a", path)
    if kind == "load":
        return [a, on("metrics", "a"), load("b", path), on("metrics", "b")]
    if kind == "cycle":
        return [a, on("queries", "a"), on("metrics", "a"), on("nodi", "a"), on("export", "a"), reload("b", 5), on("queries", "b"),
                on("export", "b"), on("nodi", "b"), load("c", path), on("export", "c")]
    if kind == "laid":
        return [a, on("layout", "a"), on("queries", "a"), on("cross", "a"), on("export", "a"), reload("b", 5), on("layout", "b")]
    if kind == "reads":
        return [a, {"op": "reads", "o": "a", "which": ["queries", "counts", "cross", "xml", "nodi", "dot"]}, on("export", "a")]
    raise ValueError(kind)


def scenarios(repo, kind):
    """pools are outside the layouter's domain, and a process with an empty id cannot be written properly"""
    found = []
    for path in sorted(glob.glob(os.path.join(repo, "tests", "examples", "*", "*"))):
        if path.endswith((".bpmn", ".xml")):
            with open(path, "rb") as f:
                doc = xmlio.source(f.read())
            if kind == "load" or all(p["id"] for p in doc["procs"]) and (kind != "laid" or not doc["parts"]):
                found.append({"docs": [doc], "csvs": [], "ops": plan(kind, path)})
    return found
