# coding=utf-8
"""Writes the documents of spec/Xml.tla as BPMN 2.0 XML files in a given style, and reads exported files back.
Independent of bpmn_python and of the XML library it uses for importing."""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from proj import ABSENT, Names, tok, text

MODEL = "http://www.omg.org/spec/BPMN/20100524/MODEL"
DI = "http://www.omg.org/spec/BPMN/20100524/DI"
DC = "http://www.omg.org/spec/DD/20100524/DC"
DD = "http://www.omg.org/spec/DD/20100524/DI"

CANONICAL = {"prefix": "", "di": "bpmndi", "comments": "no", "pis": "no", "ext": "no", "order": "nf", "place": "last",
             "shapes": "asc", "lists": "asdoc", "omit": "no", "cdata": "no", "textws": "no", "labels": "no",
             "indent": "yes", "art": "no", "dc": "dc", "attrs": "asc",
             "quote": "double", "enc": "utf-8", "eol": "lf", "empty": "short", "local": "no", "decl": "yes"}

DEFAULTS = {"isClosed": "false", "isExecutable": "false", "processType": "None", "name": "",
            "gatewayDirection": "Unspecified", "instantiate": "false", "eventGatewayType": "Exclusive",
            "triggeredByEvent": "false", "isExpanded": "false", "parallelMultiple": "false", "isInterrupting": "true",
            "cancelActivity": "true", "isCollection": "false"}


class Writer(object):
    def __init__(self, doc, style):
        self.doc, self.st = doc, dict(CANONICAL, **style)
        self.out, self.n = [], 0
        # an empty prefix stands for the default namespace, declared again where the diagram section begins
        self.di = self.st["di"] + ":" if self.st["di"] else ""
        self.dd = "d" + self.st["dc"] + ":"

    # -- low level
    def noise(self):
        self.n += 1
        if self.st["comments"] == "yes" and self.n % 2:
            self.out.append("<!-- c%d <task id=\"x\"/> -->" % self.n)
        if self.st["pis"] == "yes" and self.n % 3 == 0:
            self.out.append("<?tool data=\"%d\"?>" % self.n)
        if self.st["indent"] == "yes":
            self.out.append("\n  ")

    def attrs(self, pairs):
        res = ""
        for key, value in (pairs if self.st["attrs"] == "asc" else reversed(pairs)):
            if value == ABSENT:
                continue
            if self.st["omit"] == "yes" and DEFAULTS.get(key) == value:
                continue
            extra = {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"}
            if self.st["quote"] == "single":
                res += "\n %s = '%s'" % (key, escape(value, dict(extra, **{"'": "&apos;"})))
            else:
                res += " %s=%s" % (key, quoteattr(value, extra))
        return res

    def open(self, tag, pairs):
        self.noise()
        self.out.append("<%s%s>" % (tag, self.attrs(pairs)))

    def close(self, tag):
        self.noise()
        self.out.append("</%s>" % tag)

    def plain(self, content):
        """can the encoding write the text without references?"""
        return content.encode(self.st["enc"], "ignore").decode(self.st["enc"]) == content

    def leaf(self, tag, pairs, content=None, ident=False):
        self.noise()
        if content is None:
            self.out.append(("<%s%s/>" if self.st["empty"] == "short" else "<%s%s></{}>".format(tag)) % (tag, self.attrs(pairs)))
            return
        if self.st["cdata"] == "yes" and "]]>" not in content and self.plain(content):
            body = "<![CDATA[%s]]>" % content
        else:
            body = escape(content)
        if ident and self.st["textws"] == "yes":
            body = "\n    %s  " % body
        if self.st["comments"] == "yes" and len(content) > 1 and self.st["cdata"] != "yes":
            body = escape(content[:1]) + "<!-- in text -->" + escape(content[1:]) if not ident else \
                body + "<!-- in text -->"
        self.out.append("<%s%s>%s</%s>" % (tag, self.attrs(pairs), body, tag))

    def ext(self):
        if self.st["ext"] == "yes":
            p = self.st["prefix"]
            self.leaf(p + "documentation", [("id", "doc%d" % self.n)], "free text & more")
            self.open(p + "extensionElements", [])
            self.leaf("x:meta", [("id", "meta%d" % self.n), ("name", "n"), ("bpmnElement", "b")], "v")
            self.close(p + "extensionElements")

    def art(self, key):
        """Elements the library has no notion of: annotations, associations, data references."""
        if self.st["art"] == "yes":
            p = self.st["prefix"]
            self.open(p + "textAnnotation", [("id", "ann_" + key)])
            self.leaf(p + "text", [], "a note about task n1")
            self.close(p + "textAnnotation")
            self.leaf(p + "association", [("id", "ass_" + key), ("sourceRef", "ann_" + key), ("targetRef", key)])
            self.leaf(p + "dataStoreReference", [("id", "dsr_" + key), ("name", "store")])
            self.open(p + "group", [("id", "grp_" + key)])
            self.close(p + "group")

    def inner(self, kind):
        """Parts of flow nodes the library does not keep."""
        p = self.st["prefix"]
        if self.st["art"] == "yes":
            if kind == "task":
                self.open(p + "ioSpecification", [("id", "io%d" % self.n)])
                self.leaf(p + "dataInput", [("id", "din%d" % self.n), ("name", "in"), ("isCollection", "true")])
                self.close(p + "ioSpecification")
                self.leaf(p + "standardLoopCharacteristics", [("id", "lc%d" % self.n)])
            elif kind == "def":
                self.leaf(p + "timeDuration", [("id", "td%d" % self.n)], "PT1H")
                self.leaf(p + "condition", [], "x > 1")

    # -- content
    def foreign(self):
        """attributes of other vocabularies"""
        return [("x:id", "foreign"), ("x:name", "foreign"), ("x:default", "f1"), ("x:isClosed", "true")] if self.st["ext"] == "yes" else []

    def node(self, n):
        doc, p = self.doc, self.st["prefix"]
        pairs = self.foreign() + [("id", n["id"]), ("name", tok(n["name"]))]
        for key, value in sorted(n["a"].items()):
            if key != "isExpanded":
                pairs.append((key, value))
        tag = p + n["type"]
        self.open(tag, pairs)
        self.ext()
        own_in = [f["id"] for f in doc["flows"] if f["tgt"] == n["id"]]
        own_out = [f["id"] for f in doc["flows"] if f["src"] == n["id"]]
        mode = self.st["lists"]
        if mode == "asdoc":
            inc, out = n["inc"], n["out"]
        elif mode == "full":
            inc, out = own_in, own_out
        elif mode == "half":
            inc, out = own_in[:len(own_in) // 2], own_out[len(own_out) // 2:]
        else:
            inc, out = [], []
        if n["type"] != "dataObject":
            for f in inc:
                self.leaf(p + "incoming", [], f, True)
            for f in out:
                self.leaf(p + "outgoing", [], f, True)
        if n["type"] in ("task", "userTask", "serviceTask", "manualTask"):
            self.inner("task")
        for d in n["defs"]:
            if self.st["art"] == "yes":
                self.open(p + d["t"], [("id", d["id"])])
                self.inner("def")
                self.close(p + d["t"])
            else:
                self.leaf(p + d["t"], [("id", d["id"])])
        if n["type"] == "subProcess":
            self.container(n["id"])
        self.close(tag)

    def flow(self, f):
        p = self.st["prefix"]
        pairs = self.foreign() + [("id", f["id"]), ("name", tok(f["name"])), ("sourceRef", f["src"]), ("targetRef", f["tgt"])]
        if f["cond"]["has"] == "yes" or self.st["ext"] == "yes":
            self.open(p + "sequenceFlow", pairs)
            self.ext()
            if f["cond"]["has"] == "yes":
                self.leaf(p + "conditionExpression", [("id", f["cond"]["id"])], tok(f["cond"]["text"]))
            self.close(p + "sequenceFlow")
        else:
            self.leaf(p + "sequenceFlow", pairs)

    def container(self, cid):
        nodes = [("n", n) for n in self.doc["nodes"] if n["parent"] == cid]
        flows = [("f", f) for f in self.doc["flows"] if f["parent"] == cid]
        order = self.st["order"]
        if order == "nf":
            items = nodes + flows
        elif order == "ff":
            items = flows + nodes
        elif order == "rev":
            items = list(reversed(nodes)) + flows
        else:
            items = []
            a, b = list(flows), list(nodes)
            while a or b:
                if a:
                    items.append(a.pop(0))
                if b:
                    items.append(b.pop(0))
        if order in ("ff", "mix"):
            self.art(cid)
        for kind, it in items:
            if kind == "n":
                self.node(it)
            else:
                self.flow(it)
        if order in ("nf", "rev"):
            self.art(cid)

    def lane(self, ln):
        p = self.st["prefix"]
        self.open(p + "lane", [("id", ln["id"]), ("name", tok(ln["name"]))])
        self.ext()
        child = [x for x in self.doc["lanes"] if x["parent"] == ln["id"]]

        def refs():
            for r in ln["refs"]:
                self.leaf(p + "flowNodeRef", [], r, True)

        def sub():
            if child:
                self.open(p + "childLaneSet", [("id", child[0]["setId"] or ABSENT)])
                for x in child:
                    self.lane(x)
                self.close(p + "childLaneSet")
        if self.st["order"] == "ff":
            sub()
            refs()
        else:
            refs()
            sub()
        self.close(p + "lane")

    def process(self, pr):
        whole, p = self.st["prefix"], "loc:" if self.st["local"] == "yes" else self.st["prefix"]
        self.st["prefix"] = p
        self.open(p + "process", ([("xmlns:loc", MODEL)] if self.st["local"] == "yes" else []) + self.foreign() + [("id", pr["id"]), ("name", tok(pr["name"])), ("isClosed", pr["isClosed"]),
                                  ("isExecutable", pr["isExecutable"]), ("processType", pr["processType"])])
        self.ext()

        def lane_set():
            if pr["laneSet"] != ABSENT:
                self.open(p + "laneSet", [("id", pr["laneSet"] or ABSENT)])
                for ln in self.doc["lanes"]:
                    if ln["process"] == pr["id"] and ln["parent"] == ABSENT:
                        self.lane(ln)
                self.close(p + "laneSet")
        if self.st["order"] in ("rev", "mix"):
            self.container(pr["id"])
            lane_set()
        else:
            lane_set()
            self.container(pr["id"])
        self.close(p + "process")
        self.st["prefix"] = whole

    def collaboration(self):
        doc, p = self.doc, self.st["prefix"]
        if doc["collab"]["present"] != "yes":
            return
        self.open(p + "collaboration", [("id", doc["collab"]["id"])])
        self.ext()
        parts = [("participant", [("id", part["id"]), ("name", tok(part["name"])), ("processRef", part["ref"])]) for part in doc["parts"]]
        msgs = [("messageFlow", [("id", m["id"]), ("name", tok(m["name"])), ("sourceRef", m["src"]), ("targetRef", m["tgt"])])
                for m in doc["msgs"]]
        for tag, pairs in (msgs + parts if self.st["order"] in ("ff", "mix") else parts + msgs):
            self.leaf(p + tag, pairs + self.foreign())
        self.close(p + "collaboration")

    def diagram(self):
        doc, di = self.doc, self.di
        self.open(di + "BPMNDiagram", ([("xmlns", DI)] if not di else [])
                  + [("id", doc["diag"]["id"]), ("name", tok(doc["diag"]["name"]))])
        self.open(di + "BPMNPlane", [("id", doc["plane"]["id"]), ("bpmnElement", doc["plane"]["el"])])
        shapes = [("s", s) for s in doc["shapes"]]
        edges = [("e", e) for e in doc["edges"]]
        items = shapes + edges
        if self.st["shapes"] == "desc":
            items = list(reversed(items))
        elif self.st["shapes"] == "edges":
            items = edges + shapes
        if self.st["art"] == "yes":
            for pr in self.doc["procs"]:
                self.open(di + "BPMNShape", [("id", "ann_%s_di" % pr["id"]), ("bpmnElement", "ann_" + pr["id"])])
                self.leaf(self.st["dc"] + ":Bounds", [("x", "5"), ("y", "6"), ("width", "7"), ("height", "8")])
                self.close(di + "BPMNShape")
                self.open(di + "BPMNEdge", [("id", "ass_%s_di" % pr["id"]), ("bpmnElement", "ass_" + pr["id"])])
                self.leaf(self.dd + "waypoint", [("x", "5"), ("y", "6")])
                self.leaf(self.dd + "waypoint", [("x", "7"), ("y", "8")])
                self.close(di + "BPMNEdge")
        for kind, it in items:
            if kind == "s":
                self.open(di + "BPMNShape", [("id", it["el"] + "_di"), ("bpmnElement", it["el"]),
                                              ("isHorizontal", it["horiz"]), ("isExpanded", it["expanded"])])
                self.leaf(self.st["dc"] + ":Bounds", [("x", it["x"]), ("y", it["y"]), ("width", it["w"]), ("height", it["h"])])
                if self.st["labels"] == "yes":
                    self.open(di + "BPMNLabel", [])
                    self.leaf(self.st["dc"] + ":Bounds", [("x", "1"), ("y", "2"), ("width", "3"), ("height", "4")])
                    self.close(di + "BPMNLabel")
                self.close(di + "BPMNShape")
            else:
                self.open(di + "BPMNEdge", [("id", it["el"] + "_di"), ("bpmnElement", it["el"])])
                for w in it["wps"]:
                    self.leaf(self.dd + "waypoint", [("x", w[0]), ("y", w[1])])
                if self.st["labels"] == "yes":
                    self.open(di + "BPMNLabel", [])
                    self.leaf(self.st["dc"] + ":Bounds", [("x", "1"), ("y", "2"), ("width", "3"), ("height", "4")])
                    self.close(di + "BPMNLabel")
                self.close(di + "BPMNEdge")
        self.close(di + "BPMNPlane")
        self.close(di + "BPMNDiagram")

    def write(self):
        p, enc = self.st["prefix"], self.st["enc"]
        if self.st["decl"] in ("yes", "bom") or enc != "utf-8":
            self.out.append('<?xml version="1.0" encoding="%s"?>' % enc)
            self.noise()
        self.out.append("<%sdefinitions%s>" % (p, self.attrs(
            [("xmlns" + (":" + p[:-1] if p else ""), MODEL)] + ([("xmlns:" + self.di[:-1], DI)] if self.di else [])
            + [("xmlns:" + self.st["dc"], DC), ("xmlns:" + self.dd[:-1], DD), ("xmlns:x", "urn:x"),
               ("id", "definitions"), ("targetNamespace", "urn:t")])))
        if self.st["art"] == "yes":
            self.leaf(p + "message", [("id", "msg_1"), ("name", "order")])
            self.leaf(p + "signal", [("id", "sig_1"), ("name", "go")])
            self.leaf(p + "error", [("id", "err_1"), ("name", "oops"), ("errorCode", "7")])
        if self.st["place"] == "first":
            self.diagram()
            for pr in self.doc["procs"]:
                self.process(pr)
            self.collaboration()
        else:
            self.collaboration()
            for pr in self.doc["procs"]:
                self.process(pr)
            self.diagram()
        self.close(p + "definitions")
        data = "".join(self.out)
        if self.st["eol"] == "crlf":
            data = data.replace("\n", "\r\n")
        return (b"\xef\xbb\xbf" if self.st["decl"] == "bom" and enc == "utf-8" else b"") + data.encode(enc, "xmlcharrefreplace")


def write(doc, style):
    return Writer(doc, style).write()


NODE_TYPES = {"task", "userTask", "serviceTask", "manualTask", "subProcess", "dataObject", "boundaryEvent",
              "inclusiveGateway", "exclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway",
              "startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent"}
ATTRS = ["default", "gatewayDirection", "instantiate", "eventGatewayType", "triggeredByEvent", "parallelMultiple",
         "isInterrupting", "cancelActivity", "attachedToRef", "isCollection"]


class Reader(object):
    def __init__(self, nm):
        self.nm = nm
        self.doc = {"procs": [], "nodes": [], "flows": [], "lanes": [], "collab": [], "parts": [], "msgs": [],
                    "shapes": [], "edges": [], "diag": [], "plane": [], "extra": []}

    def extra(self, what):
        self.doc["extra"].append(what)

    def tag(self, el, ns):
        name = el.tag
        if name.startswith("{"):
            uri, name = name[1:].split("}")
        else:
            uri = ""
        if uri != ns:
            self.extra("namespace of " + name)
        return name

    def take(self, el, idkeys=(), namekeys=(), others=()):
        rec, known = {}, set(idkeys) | set(namekeys) | set(others)
        for key in idkeys:
            rec[key] = self.nm.ident(el.get(key)) if el.get(key) is not None else ABSENT
        for key in namekeys:
            rec[key] = text(el.get(key)) if el.get(key) is not None else ABSENT
        for key in others:
            rec[key] = el.get(key) if el.get(key) is not None else ABSENT
        for key in el.keys():
            if key not in known:
                self.extra("attribute %s of %s" % (key, el.tag.split("}")[-1]))
        if len(el) and (el.text or "").strip():
            self.extra("text in " + el.tag.split("}")[-1])
        return rec

    def node(self, el, tag, parent):
        rec = self.take(el, ["id", "default", "attachedToRef"], ["name"],
                        [a for a in ATTRS if a not in ("default", "attachedToRef")])
        attrs = {a: rec.pop(a) for a in ATTRS}
        rec.update(type=tag, parent=parent, inc=[], out=[], defs=[], a=attrs)
        self.doc["nodes"].append(rec)
        for ch in el:
            t = self.tag(ch, MODEL)
            if t == "incoming":
                rec["inc"].append(self.nm.ident(ch.text or ""))
            elif t == "outgoing":
                rec["out"].append(self.nm.ident(ch.text or ""))
            elif t.endswith("EventDefinition"):
                rec["defs"].append({"t": t, "id": self.take(ch, ["id"])["id"]})
            elif tag == "subProcess":
                self.content(ch, t, rec["id"])
            else:
                self.extra("%s in %s" % (t, tag))
        rec["defs"].sort(key=lambda r: (r["t"], r["id"]))

    def content(self, el, tag, parent):
        if tag in NODE_TYPES:
            self.node(el, tag, parent)
        elif tag == "sequenceFlow":
            rec = self.take(el, ["id", "sourceRef", "targetRef"], ["name"])
            cond = {"has": "no", "id": ABSENT, "text": ABSENT}
            for ch in el:
                if self.tag(ch, MODEL) == "conditionExpression" and cond["has"] == "no":
                    cond = {"has": "yes", "id": self.take(ch, ["id"])["id"], "text": text(ch.text or "")}
                else:
                    self.extra("child of sequenceFlow")
            self.doc["flows"].append({"id": rec["id"], "parent": parent, "name": rec["name"],
                                      "src": rec["sourceRef"], "tgt": rec["targetRef"], "cond": cond})
        else:
            self.extra("%s in container" % tag)

    def lane_set(self, el, process, parent):
        set_id = self.take(el, ["id"])["id"]
        set_id = "" if set_id == ABSENT else set_id
        for ln in el:
            if self.tag(ln, MODEL) != "lane":
                self.extra("child of laneSet")
                continue
            rec = self.take(ln, ["id"], ["name"])
            rec.update(process=process, parent=parent, setId=set_id, refs=[])
            self.doc["lanes"].append(rec)
            for ch in ln:
                t = self.tag(ch, MODEL)
                if t == "flowNodeRef":
                    rec["refs"].append(self.nm.ident(ch.text or ""))
                elif t == "childLaneSet":
                    self.lane_set(ch, process, rec["id"])
                else:
                    self.extra("child of lane")
        return set_id

    def read(self, data):
        try:
            data.decode("utf-8")
        except UnicodeDecodeError:
            self.extra("not UTF-8")
        root = ET.fromstring(data)
        if self.tag(root, MODEL) != "definitions":
            self.extra("root")
        if not root.get("targetNamespace"):
            self.extra("no target namespace")
        seen = set()
        for el in root.iter():
            own = el.get("id")
            if own is not None:
                if own == "" or own in seen:
                    self.extra("%s id of %s" % ("repeated" if own else "empty", el.tag.split("}")[-1]))
                seen.add(own)
        for el in root:
            t = el.tag.split("}")[-1]
            if t == "process":
                self.tag(el, MODEL)
                rec = self.take(el, ["id"], ["name"], ["isClosed", "isExecutable", "processType"])
                rec["laneSet"] = ABSENT
                self.doc["procs"].append(rec)
                for ch in el:
                    ct = self.tag(ch, MODEL)
                    if ct == "laneSet":
                        if rec["laneSet"] != ABSENT:
                            self.extra("second laneSet")
                        rec["laneSet"] = self.lane_set(ch, rec["id"], ABSENT)
                    else:
                        self.content(ch, ct, rec["id"])
            elif t == "collaboration":
                self.tag(el, MODEL)
                self.doc["collab"].append(self.take(el, ["id"]))
                for ch in el:
                    ct = self.tag(ch, MODEL)
                    if ct == "participant":
                        r = self.take(ch, ["id", "processRef"], ["name"])
                        self.doc["parts"].append({"id": r["id"], "name": r["name"], "ref": r["processRef"]})
                    elif ct == "messageFlow":
                        r = self.take(ch, ["id", "sourceRef", "targetRef"], ["name"])
                        self.doc["msgs"].append({"id": r["id"], "name": r["name"], "src": r["sourceRef"],
                                                 "tgt": r["targetRef"]})
                    else:
                        self.extra("%s in collaboration" % ct)
            elif t == "BPMNDiagram":
                self.tag(el, DI)
                self.doc["diag"].append(self.take(el, ["id"], ["name"]))
                for pl in el:
                    if self.tag(pl, DI) != "BPMNPlane":
                        self.extra("child of BPMNDiagram")
                        continue
                    r = self.take(pl, ["id", "bpmnElement"])
                    self.doc["plane"].append({"id": r["id"], "el": r["bpmnElement"]})
                    for ch in pl:
                        self.di(ch)
            else:
                self.extra("%s in definitions" % t)
        return self.doc

    def di(self, el):
        t = self.tag(el, DI)
        if t == "BPMNShape":
            r = self.take(el, ["id", "bpmnElement"], [], ["isHorizontal", "isExpanded"])
            bounds = [c for c in el if self.tag(c, DC) == "Bounds"]
            if len(bounds) != 1 or len(el) != 1:
                self.extra("bounds of shape")
                b = dict(x=ABSENT, y=ABSENT, width=ABSENT, height=ABSENT)
            else:
                b = self.take(bounds[0], [], [], ["x", "y", "width", "height"])
            self.doc["shapes"].append({"el": r["bpmnElement"], "x": b["x"], "y": b["y"], "w": b["width"],
                                       "h": b["height"], "horiz": r["isHorizontal"], "expanded": r["isExpanded"]})
        elif t == "BPMNEdge":
            r = self.take(el, ["id", "bpmnElement"])
            wps = []
            for c in el:
                if self.tag(c, DD) != "waypoint":
                    self.extra("child of edge")
                w = self.take(c, [], [], ["x", "y"])
                wps.append([w["x"], w["y"]])
            self.doc["edges"].append({"el": r["bpmnElement"], "wps": wps})
        else:
            self.extra("%s in plane" % t)


def read(data, nm):
    return Reader(nm).read(data)


class Source(Reader):
    """a document of some editor: only what bpmn_python is meant to read, the rest is passed over"""

    def di(self, el):
        t = el.tag.split("}")[-1]
        if t not in ("BPMNShape", "BPMNEdge"):
            return
        keep = ET.Element(el.tag, el.attrib)
        keep.extend([c for c in el if c.tag in ("{%s}Bounds" % DC, "{%s}waypoint" % DD)])
        Reader.di(self, keep)


def source(data):
    doc = Source(Names()).read(data)
    doc["collab"] = {"present": "yes", "id": doc["collab"][0]["id"]} if doc["collab"] else {"present": "no", "id": ABSENT}
    doc["diag"], doc["plane"], doc["suf"] = doc["diag"][0], doc["plane"][0], ""
    del doc["extra"]
    return doc
