"""The command line tools do what the library does."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import yaml

from vlib import codec
from vlib.h import *

from .W02 import registries

BOUNDS = ("Files with two or three coefficients of any value and scale, json "
          "and yaml, from a file or standard input, to a file or standard "
          "output; every sub-command and option, defaults and given values.")
ASSUMPTIONS = ["json and yaml treat every finite non-zero double alike "
               "(symbolic numbers travel through them as tokens).",
               "What the converters write is the subject of E01, D01 and D02; "
               "here they are recorders of what they are called with."]
STUBS = ("wcxf.classes", "wcxf.converters.yamljson", "wcxf.cli",
         "wcxf.converters.eos")


class Out(io.StringIO):
    """Standard output; keeps its text when closed."""

    def close(self):
        self.closed_by_tool = True


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="w05")
    here = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def call(tool, argv, stdin="", **names):
    """(exit status or return value, text on standard output)"""
    m = M("wcxf.cli")
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = Out()
    sys.argv, sys.stdin, sys.stdout = [tool, *argv], io.StringIO(stdin), out
    sys.stderr = Out()
    before = {n: m.__dict__.get(n) for n in names}
    try:
        for n, v in names.items():
            m.__dict__[n] = v
        r = getattr(m, tool)()
    except SystemExit as e:
        r = ("exit", e.code)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        for n, v in before.items():
            if v is None:
                m.__dict__.pop(n, None)
            else:
                m.__dict__[n] = v
    return r, out.getvalue()


def read(path):
    with open(path) as f:
        return f.read()


def files(c, text, name="in.txt"):
    """argv for the input, and standard input"""
    if c.flag("from a file"):
        with open(name, "w") as f:
            f.write(text)
        return [name], ""
    return [], text


def output(c):
    """argv for the output, and a function for what is there"""
    if c.flag("to a file"):
        return ["--output", "out.txt"], lambda t: read("out.txt")
    return [], lambda t: t


def wc(c, eft="SMEFT", basis="Warsaw", names=("phi", "uG_12")):
    m = M("wcxf.classes")
    z = {names[0]: c.real(names[0], -1e3, 1e3)}
    z.update({n: c.cplx(n, 1e3) for n in names[1:]})
    mu = c.real("mu", 1e-3, 1e17)
    return m.WC(eft, basis, mu, m.WC.dict2values(z)), z, mu


def same(c, text, fmt, eft, basis, mu, z):
    c.ok("format", text.lstrip().startswith("{") == (fmt == "json"))
    w = M("wcxf.classes").WC.load(text)
    c.ok("eft, basis", (w.eft, w.basis) == (eft, basis))
    c.eq("scale", w.scale, mu, tol=0)
    c.eq("values", w.dict, z, tol=0, keys="strict")
    c.witness("values", w.dict)


def convert(c):
    with scratch():
        w, z, mu = wc(c)
        src = c.choice("from", ["json", "yaml"])
        to = "yaml" if src == "json" else "json"
        a, i = files(c, w.dump(fmt=src))
        o, got = output(c)
        name = c.choice("written", [to, to.upper()])
        r, t = call("wcxf_cli", ["convert", name, *a, *o], i)
        c.ok("status", r is None)
        same(c, got(t), to, "SMEFT", "Warsaw", mu, z)


def change(c, cmd):
    """translate, match: what the registered function returns, in the format
    asked for."""
    with scratch(), registries() as m:
        w, z, mu = wc(c, "E1", "B1", ("a", "b"))
        res = {"p": c.cplx("p", 1e3), "q": c.real("q", -1e3, 1e3)}
        for v in res.values():
            c.assume(v != 0)
        seen = []

        def f(*a, **k):
            seen.append((a, k))
            return dict(res)
        other = dict(res, p=-res["p"])
        if cmd == "translate":
            m.Translator("E1", "B1", "B2", f)
            m.Translator("E1", "B1", "B3", lambda *a, **k: other)
            to, asked = ("E1", "B2"), ["B2"]
        else:
            m.Matcher("E1", "B1", "E2", "B2", f)
            m.Matcher("E1", "B1", "E2", "B1", lambda *a, **k: other)
            m.Matcher("E1", "B1", "E3", "B2", lambda *a, **k: other)
            to, asked = ("E2", "B2"), ["E2", "B2"]
        src = c.choice("from", ["json", "yaml"])
        fmt = c.choice("to", [None, "json", "yaml"])
        a, i = files(c, w.dump(fmt=src))
        o, got = output(c)
        r, t = call("wcxf_cli", [cmd, *asked, *a, *o,
                                 *(["--format", fmt] if fmt else [])], i)
        c.ok("status", r is None)
        c.ok("called once", len(seen) == 1)
        c.eq("values handed over", seen[0][0][0], z, tol=0, keys="strict")
        c.eq("scale handed over", seen[0][0][1], mu, tol=0)
        same(c, got(t), fmt or "json", *to, mu, res)


def validate(c):
    """Files are accepted exactly if the library accepts them."""
    with scratch():
        kind = c.choice("type", ["wc", "wc", "eft", "basis", "nonsense"])
        w, z, mu = wc(c, names=c.choice("names", [("phi", "uG_12"),
                                                  ("phi", "uG_44"),
                                                  ("nope", "uG_12")]))
        bad = "uG_44" in z or "nope" in z
        with registries() as m:
            eft = m.EFT("E1", {"s": {}}).dump()
            sec = c.choice("sector", ["s", "t"])
            b = m.Basis("E1", "B1", {sec: {"x": {"tex": "x"}}}).dump()
        text = {"eft": eft, "basis": b}.get(kind) or w.dump(
            fmt=c.choice("format", ["json", "yaml"]))
        if kind == "basis":
            with registries() as m:
                m.EFT("E1", {"s": {}})
                a, i = files(c, text)
                r = attempt(lambda: call("wcxf_cli", ["validate", kind, *a],
                                         i))
            if sec == "t":
                c.ok("refused", isinstance(r, Exception))
            return
        a, i = files(c, text)
        if kind == "eft":
            with registries() as m:
                r = attempt(lambda: call("wcxf_cli", ["validate", kind, *a],
                                         i))
                c.ok("registered", "E1" in m.EFT.instances)
        else:
            r = attempt(lambda: call("wcxf_cli", ["validate", kind, *a], i))
        if kind == "wc" and bad:
            c.ok("refused", isinstance(r, Exception))
        else:
            c.ok("accepted", not isinstance(r, Exception) and
                 ("successful" in r[1]) == (kind != "nonsense"))


def attempt(f):
    try:
        return f()
    except (ValueError, AssertionError) as e:
        return e


def eos(c):
    """Standard model plus new physics, from the installation's files."""
    with scratch():
        y = M("wcxf.converters.eos").yaml
        names = [n for n in M("wcxf.classes").Basis["WET", "EOS"].all_wcs
                 if n.endswith("::c9") or n.endswith("::c10")][:2]
        w, z, mu = wc(c, "WET", "EOS", tuple(names))
        sm = [c.real(f"sm{i}", -9, 9) for i in range(4)]
        keys = [names[0], "%s::Re{%s}" % tuple(names[1].split("::")), "other"]
        prefix = c.choice("prefix", ["usr", "opt"])
        for p in ("usr", "opt"):
            os.makedirs(f"{p}/share/eos/parameters")
        d = f"{prefix}/share/eos/parameters/"
        with open(d + "a.yaml", "w") as f:
            y.dump({"@metadata@": {"wcxf-relevant": True},
                    keys[0]: {"central": sm[0], "min": sm[3], "max": sm[3]},
                    keys[1]: {"central": sm[1]}}, f)
        with open(d + "b.yaml", "w") as f:
            y.dump({"@metadata@": {"wcxf-relevant": True},
                    keys[2]: {"central": sm[2]}}, f)
        with open(d + "c.yaml", "w") as f:
            y.dump({"@metadata@": {"x": 1}, "mass::b": {"central": 4.}}, f)
        os.makedirs("home/parameters")
        home = c.choice("home", [None, "home", "nowhere"])
        a, i = files(c, w.dump())
        o, got = output(c)
        if home:
            o = o + ["--eoshome", home]
        both = home and "--output" in o
        r, t = call("eos", [*a, *o, "--eosprefix", prefix], i)
        if both or home == "nowhere":
            c.ok("refused", r == 1)
            return
        c.ok("status", r == 0)
        t = read("home/parameters/wcxf.yaml") if home else got(t)
        e = y.load(t, Loader=yaml.UnsafeLoader)
        want = {keys[0]: sm[0] + z[names[0]],
                keys[1]: sm[1] + np.real(z[names[1]]), keys[2]: sm[2]}
        c.ok("parameters", set(e) == set(want))
        for k in want:
            for q in ("central", "min", "max"):
                c.eq(f"{k} {q}", e[k][q], want[k], tol=1e-12)
        c.witness("values", e[keys[0]]["central"])


def smeftsim(c):
    """The options reach the card."""
    with scratch():
        m = M("wcxf.converters.smeftsim")
        mass = c.flag("mass basis")
        w, z, mu = wc(c, basis="Warsaw mass" if mass else "Warsaw")
        scheme = c.choice("scheme", [None, "alpha", "mw"])
        model = c.choice("model", [None, "A", "B"])
        cutoff = c.choice("cutoff", [None, "1000", "2500.5"])
        name = c.choice("name", [None, "card.dat"])
        key = c.choice("key", ["i", "I", "q"]) if not mass else ""
        with open("in.json", "w") as f:
            f.write(w.dump())
        log = {}

        def fill(card, w, *a):
            log["fill"] = (card, w, a)
            return "filled"

        def text(*a):
            log["text"] = a
            return "HEAD\n", "TAIL\n"

        class Lha:
            @staticmethod
            def dump(card, fmt=None, stream=None):
                log["dump"] = card, fmt
                stream.write("CARD\n")
        new = dict(initialize_smeftsim_card=lambda s: ("card", s),
                   smeftsim_card_fill=fill, smeftsim_card_text=text)
        old = {n: getattr(m, n) for n in new}
        try:
            for n in new:
                setattr(m, n, new[n])
            a = ["in.json"]
            for n, v in (("--input-scheme", scheme), ("--model-set", model),
                         ("--cutoff-scale", cutoff), ("--output", name)):
                if v:
                    a += [n, v]
            r, t = call("smeftsim", a, pylha=Lha, input=lambda *a: key,
                        quit=lambda *a: sys.exit(0))
        finally:
            for n in old:
                setattr(m, n, old[n])
        out = name or "wcxf2smeftsim_param_card.dat"
        if key == "q":
            c.ok("left", r == ("exit", 0) or r == ("exit", None))
            c.ok("nothing written", not os.path.exists(out) and not log)
            return
        c.ok("status", r == 0)
        c.ok("warned", ("WARNING" in t) == (not mass))
        card, w2, args = log["fill"]
        c.ok("card", card == ("card", model or "A"))
        c.eq("values", w2.dict, z, tol=0, keys="strict")
        c.eq("scale", w2.scale, mu, tol=0)
        c.ok("options", args == (model or "A", float(cutoff or 1000),
                                 scheme or "alpha"))
        c.ok("text", log["text"] == (model or "A", scheme or "alpha"))
        c.ok("written", log["dump"] == ("filled", "lha") and
             read(out) == "HEAD\nCARD\nTAIL\n")


def dsixtools(c):
    """Both directions: what the file holds reaches the converter."""
    with scratch():
        m = M("wcxf.converters.dsixtools")
        w, z, mu = wc(c)
        log = []

        def to(wc, stream=None):
            log.append(wc)
            stream.write("LHA")

        def back(streams, stream=None):
            log.extend(s.read() for s in streams)
            stream.write("WC")
        old = m.wcxf2dsixtools, m.dsixtools2wcxf
        m.wcxf2dsixtools, m.dsixtools2wcxf = to, back
        try:
            o, got = output(c)
            if c.flag("to DsixTools"):
                a, i = files(c, w.dump())
                r, t = call("wcxf2dsixtools", [*a, *o], i)
                c.eq("values", log[0].dict, z, tol=0, keys="strict")
                c.eq("scale", log[0].scale, mu, tol=0)
                want = "LHA"
            else:
                n = c.choice("files", [1, 2, 3])
                for k in range(n):
                    with open(f"{k}", "w") as f:
                        f.write(f"text {k}")
                r, t = call("dsixtools2wcxf", [*map(str, range(n)), *o])
                c.ok("files", log == [f"text {k}" for k in range(n)])
                want = "WC"
            c.ok("status", r == 0)
        finally:
            m.wcxf2dsixtools, m.dsixtools2wcxf = old
        import gc
        gc.collect()            # the file is closed when it is forgotten
        c.ok("output", got(t) == want)


def refused(c):
    """Unknown commands and options end with an error; no command: help."""
    with scratch():
        c.ok("help", "usage" in call("wcxf_cli", [])[1])
        for a in (["nonsense"], ["convert"], ["validate", "wc", "missing"],
                  ["translate"]):
            r, t = call("wcxf_cli", a)
            c.ok(f"{a}", r == ("exit", 2))
        w, z, mu = wc(c)
        with open("in.json", "w") as f:
            f.write(w.dump())
        for a in (["--model-set", "C"], ["--input-scheme", "x"]):
            c.ok(f"{a}", call("smeftsim", ["in.json", *a])[0] == ("exit", 2))


def harnesses(tier):
    st = dict(stubs=codec.stubs(*STUBS), ne_flips=0, max_paths=5000)
    return [H("convert", convert, **st),
            H("translate", lambda c: change(c, "translate"), **st),
            H("match", lambda c: change(c, "match"), **st),
            H("validate", validate, **st), H("eos", eos, **st),
            H("smeftsim", smeftsim, **st), H("dsixtools", dsixtools, **st),
            H("refused", refused, **st)]
