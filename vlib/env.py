"""Puts /repo and its installed dependencies on the path and imports every module of treeno from /repo."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
for path in (SITE,):
    if path not in sys.path:
        sys.path.append(path)
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

import importlib  # noqa: E402

MODULES = [
    "treeno.base", "treeno.util", "treeno.printer", "treeno.expression",
    "treeno.datatypes.types", "treeno.datatypes.builder", "treeno.datatypes.inference",
    "treeno.datatypes.conversions", "treeno.datatypes.resolve",
    "treeno.functions.base", "treeno.functions.aggregate", "treeno.functions.common",
    "treeno.functions.conditional", "treeno.functions.datetime", "treeno.functions.math",
    "treeno.functions.session", "treeno.functions.string",
    "treeno.window", "treeno.groupby", "treeno.orderby", "treeno.relation",
    "treeno.grammar.parse", "treeno.builder.convert",
]
MOD = {}


def load():
    # The converter is what users import, so it comes first: nothing else may be needed for it to work.
    for name in ["treeno.builder.convert"] + MODULES:
        MOD[name] = importlib.import_module(name)
    f = MOD["treeno.base"].__file__
    assert os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep), f
    return MOD


load()
