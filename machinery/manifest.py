#!/usr/bin/env python3
# coding=utf-8
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARTS = {
    "C01": "System.tla (calls as actions, exhaustive short histories and random long ones)",
    "C02": "Bpmn.tla consistency invariant over System, GenXml, GenCsv and GenGraph behaviours",
    "C03": "System.tla refused actions",
    "C04": "Judge.tla answers of queries computed from the state",
    "C05": "System.tla over several objects (OthersUntouched, NewIsEmpty)",
    "C06": "Judge.tla stuttering of read operations, answers compared",
    "C07": "Xml.tla denotation of documents",
    "C08": "Xml.tla denotation, the same document written in many styles",
    "C09": "Xml.tla document expected for a state",
    "C10": "Xml.tla export and reload as one action",
    "C11": "Xml.tla document without layout part",
    "C12": "Xml.tla collaboration, participants, lanes and message flows",
    "C13": "Layout.tla grid invariants, all graphs of three (thorough: four) nodes and random larger ones",
    "C14": "Layout.tla routes and frame condition",
    "C15": "Metrics.tla counts",
    "C16": "Metrics.tla indices",
    "C17": "Geometry.tla exact segment intersection, all pairs of segments on small grids",
    "C18": "Metrics.tla longest paths, all graphs of three (thorough: four) nodes and random larger ones",
    "C19": "Csv.tla denotation of spreadsheets, all small spreadsheets and random larger ones",
    "C20": "Csv.tla kinds, conditions and gotos of the denotation",
    "C21": "GenBlock.tla process trees and their rows",
    "C22": "Csv.tla and GenCsv.tla round trips",
    "C23": "Csv.tla dead ends and refused exports",
    "C24": "Draw.tla content of drawings",
    "C25": "Elements.tla fields, domains and defaults of the element classes",
}
NOTE = ("TLC checks the design in the stated bounds, generates behaviours (exhaustive families and seeded simulation), "
        "the driver replays them on the code of /repo's working tree, and TLC accepts or rejects every recorded step. "
        "Bounded: behaviours outside the generated ones are not judged. Trusted: TLC, the driver's projection of the "
        "library's objects and files to specification values.")


def main():
    checks = []
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)["id"]
        checks.append({"property": p,
                       "quick_cmd": "python3 machinery/check.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 machinery/check.py " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification checked with TLC and bound to the code by replay and trace "
                                    "validation: " + PARTS[p],
                       "level": "model_checking",
                       "level_note": NOTE})
    data = {"version": 1, "setup_cmd": "python3 machinery/setup.py", "checks": checks, "not_applicable": [],
            "notes": "No hooks in /repo: the driver uses the public API and reads the library's objects from outside."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
