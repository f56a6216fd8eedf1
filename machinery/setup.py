#!/usr/bin/env python3
# coding=utf-8
"""Checks that the tools are there and that every module of the specification parses."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import JARS, PYTHON, SPEC


def main():
    subprocess.run([PYTHON, "-c", "import networkx, pandas"], check=True)
    where = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for name in sorted(os.listdir(SPEC)):
            if name.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, name), where)
        for name in sorted(os.listdir(where)):
            p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", name], cwd=where, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode:
                print(p.stdout.decode("utf-8", "replace"))
                return 1
    finally:
        shutil.rmtree(where, ignore_errors=True)
    print("specification parses")
    return 0


if __name__ == "__main__":
    sys.exit(main())
