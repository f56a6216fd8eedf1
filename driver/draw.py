# coding=utf-8
"""What the drawings of a diagram show: the DOT file, the graph handed to Graphviz for the picture, and the calls that
draw on the screen.  Graphviz is replaced by a program that records what it is given."""
import os
import re
import stat

import proj
from proj import text

TOKEN = re.compile(r'"((?:[^"\\]|\\.)*)"|(<[^<>]*>)|(->|--|[\[\]{}=,;:])|([^\s\[\]{}=,;:"<>-]+(?:-(?![->])[^\s\[\]{}=,;:"<>-]*)*)|(\s+)|(.)',
                   re.S)


def unquote(s):
    return re.sub(r'\\(["n])', lambda m: "\n" if m.group(1) == "n" else '"', s)


def tokens(src):
    out = []
    for m in TOKEN.finditer(src):
        if m.group(1) is not None:
            out.append(("id", unquote(m.group(1))))
        elif m.group(2) is not None:
            out.append(("id", m.group(2)))
        elif m.group(3) is not None:
            out.append((m.group(3), m.group(3)))
        elif m.group(4) is not None:
            out.append(("id", m.group(4)))
        elif m.group(6) is not None:
            out.append(("id", m.group(6)))
    return out


def parse(src):
    """statements of a DOT text: (directed?, [(node, attributes)], [(source, target, attributes)], [anything else])"""
    toks = tokens(src)
    at = next(i for i, t in enumerate(toks) if t[0] == "{")
    directed = any(t == ("id", "digraph") for t in toks[:at])
    nodes, edges, other = [], [], []
    i = at + 1
    while i < len(toks) and toks[i][0] != "}":
        if toks[i][0] == ";":
            i += 1
            continue
        ends = [toks[i][1]]
        kind = toks[i][0]
        i += 1
        while i < len(toks) and toks[i][0] == ":":   # a port
            ends[-1] += ":" + toks[i + 1][1]
            i += 2
        while i < len(toks) and toks[i][0] in ("->", "--"):
            ends.append(toks[i + 1][1])
            i += 2
        attrs = {}
        if i < len(toks) and toks[i][0] == "=" and len(ends) == 1:
            i += 2      # an attribute of the graph
            continue
        while i < len(toks) and toks[i][0] == "[":
            i += 1
            while toks[i][0] != "]":
                if toks[i][0] in (",", ";"):
                    i += 1
                elif toks[i + 1][0] == "=":
                    attrs[toks[i][1]] = toks[i + 2][1]
                    i += 3
                else:
                    attrs[toks[i][1]] = "true"
                    i += 1
            i += 1
        if kind != "id":
            other.append(ends[0])
        elif len(ends) > 1:
            edges += [(a, b, attrs) for a, b in zip(ends, ends[1:])]
        elif ends[0] not in ("graph", "node", "edge"):
            nodes.append((ends[0], attrs))
    return directed, nodes, edges, other


def answer(nm, src, name_of, label_of):
    directed, nodes, edges, other = parse(src)
    return {"directed": "yes" if directed else "no",
            "nodes": [{"id": nm.ident(n), "name": text(a[name_of]) if name_of in a else "",
                       "shape": a.get("shape", ""), "style": a.get("style", "")} for n, a in nodes],
            "edges": [{"src": nm.ident(s), "tgt": nm.ident(t), "name": text(a[label_of]) if label_of in a else ""}
                      for s, t, a in edges], "other": other}


def num(v):
    f = float(v)
    return str(int(f)) if f == int(f) else repr(f)


def dot(d, path, nm):
    import bpmn_python.bpmn_diagram_visualizer as visualizer
    visualizer.bpmn_diagram_to_dot_file(d, path)
    with open(path + ".dot", encoding="utf-8") as f:
        return answer(nm, f.read(), "node_name", "name")


FAKE = """#!/bin/sh
out=
in=
for a in "$@"; do
  case "$a" in
    -o) ;;
    -o*) out="${a#-o}";;
    -*) ;;
    *) in="$a";;
  esac
done
if [ -n "$in" ]; then cat "$in" > "$VERIF_DOT_INPUT"; else cat > "$VERIF_DOT_INPUT"; fi
printf 'PICTURE'
"""


def png(d, path, nm):
    import bpmn_python.bpmn_diagram_visualizer as visualizer
    where = path + "-bin"
    os.makedirs(where)
    fake = os.path.join(where, "dot")
    with open(fake, "w") as f:
        f.write(FAKE)
    os.chmod(fake, stat.S_IRWXU)
    old = os.environ["PATH"]
    os.environ["PATH"] = where + os.pathsep + old
    os.environ["VERIF_DOT_INPUT"] = path + ".input"
    try:
        visualizer.bpmn_diagram_to_png(d, path)
        with open(path + ".input", encoding="utf-8") as f:
            ans = answer(nm, f.read(), "label", "label")
        ans["file"] = "yes" if os.path.exists(path + ".png") else "no"
        return ans
    finally:
        os.environ["PATH"] = old
        os.remove(fake)
        os.rmdir(where)


def show(d, nm=None):
    """the calls that draw on the screen"""
    import bpmn_python.bpmn_diagram_visualizer as visualizer
    import matplotlib.pyplot as plt
    import networkx as nx
    seen = {"nodes": [], "labels": [], "edges": [], "elabels": [], "shown": 0}

    def place(pos, n):
        try:
            p = pos[n]
            return [num(p[0]), num(p[1])]
        except Exception:
            return ["?", "?"]

    def nodes(g, pos, nodelist=None, node_shape="o", **_):
        for n in (list(g) if nodelist is None else nodelist):
            seen["nodes"].append([n, str(node_shape)] + place(pos, n))

    def labels(g, pos, labels=None, **_):
        labels = dict((n, n) for n in g) if labels is None else labels
        for n, v in labels.items():
            seen["labels"].append([n, v] + place(pos, n))

    def edges(g, pos, edgelist=None, **_):
        for e in (list(g.edges()) if edgelist is None else edgelist):
            seen["edges"].append([e[0], e[1], place(pos, e[0]) + place(pos, e[1])])

    def elabels(g, pos, edge_labels=None, **_):
        for e, v in (edge_labels or {}).items():
            seen["elabels"].append([e[0], e[1], v, place(pos, e[0]) + place(pos, e[1])])

    def everything(g, pos=None, **kw):
        nodes(g, pos, **{k: v for k, v in kw.items() if k in ("nodelist", "node_shape")})
        edges(g, pos)
        if kw.get("with_labels", True):
            labels(g, pos, kw.get("labels"))
    new = {"draw_networkx_nodes": nodes, "draw_networkx_labels": labels, "draw_networkx_edges": edges,
           "draw_networkx_edge_labels": elabels, "draw_networkx": everything, "draw": everything}
    kept = {k: getattr(nx, k) for k in new}
    old_show = plt.show
    try:
        for k, v in new.items():
            setattr(nx, k, v)

        def on_show(*_, **__):
            seen["shown"] += 1
        plt.show = on_show
        visualizer.visualize_diagram(d)
    finally:
        for k, v in kept.items():
            setattr(nx, k, v)
        plt.show = old_show
        plt.close("all")
    if nm is None:
        return seen

    def lab(v):
        return "" if v is None else text(v)
    return {"nodes": [[nm.ident(n), s, x, y] for n, s, x, y in seen["nodes"]],
            "labels": [[nm.ident(n), lab(v), x, y] for n, v, x, y in seen["labels"]],
            "edges": [[nm.ident(a), nm.ident(b), p] for a, b, p in seen["edges"]],
            "elabels": [[nm.ident(a), nm.ident(b), lab(v), p] for a, b, v, p in seen["elabels"]],
            "shown": seen["shown"]}
