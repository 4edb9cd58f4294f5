"""Make the whole of wilson importable from /repo although its submodule
wilson/wcxf/bases is empty.

`wilson/__init__.py` and `wilson/util/__init__.py` need EFT and basis
definitions as soon as they are executed.  The package is registered as an
empty shell, `wilson.wcxf.classes` is imported, the definitions in bases.json
are turned into `EFT`/`Basis` instances, and only then the package's own
`__init__.py` is executed.  No line of wilson is replaced."""
import importlib
import importlib.util
import json
import os
import sys

REPO = os.environ.get("WILSON_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def data():
    with open(os.path.join(HERE, "bases.json")) as f:
        return json.load(f)


def make_instances(classes, d=None):
    d = d or data()
    for eft, e in d["efts"].items():
        classes.EFT(eft=eft, sectors={s: {} for s in e})
    for b in d["bases"]:
        secs = {}
        for s, wcs in b["sectors"].items():
            secs[s] = {}
            for k, r in wcs.items():
                secs[s][k] = {"real": True} if r else {}
        classes.Basis(eft=b["eft"], basis=b["basis"], sectors=secs)


def load(d=None):
    if "wilson" in sys.modules and hasattr(sys.modules["wilson"], "Wilson"):
        return sys.modules["wilson"]
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    path = os.path.join(REPO, "wilson")
    specs = {}
    for name, p in (("wilson", path), ("wilson.wcxf", path + "/wcxf")):
        spec = importlib.util.spec_from_file_location(
            name, p + "/__init__.py", submodule_search_locations=[p])
        specs[name] = spec
        sys.modules[name] = importlib.util.module_from_spec(spec)
    wilson = sys.modules["wilson"]
    wilson.wcxf = sys.modules["wilson.wcxf"]
    classes = importlib.import_module("wilson.wcxf.classes")
    make_instances(classes, d)
    # names the package's own modules import from wilson.wcxf while it is
    # still being initialised
    specs["wilson.wcxf"].loader.exec_module(wilson.wcxf)
    specs["wilson"].loader.exec_module(wilson)
    return wilson


def modules():
    load()
    names = [
        "parameters", "classes", "util.common", "util.smeft_warsaw",
        "util.wet_jms", "util.qcd", "match.smeft", "match.smeft_tree",
        "match.smeft_loop", "match._smeft_old", "run.smeft.classes",
        "run.smeft.beta", "run.smeft.rge", "run.smeft.smpar",
        "run.wet.classes", "run.wet.rge", "run.wet.adm",
        "run.wet.definitions", "translate.wet", "translate.smeft",
        "translate.smeft_higgs", "wcxf.classes", "wcxf.converters.eos",
        "wcxf.converters.dsixtools", "wcxf.converters.yamljson",
        "wcxf.converters.smeftsim", "wcxf.cli",
    ]
    return {n: importlib.import_module("wilson." + n) for n in names}
