"""Options, construction and hash of Wilson; plot data of solutions."""
import warnings

from vlib.h import *
from vlib import sym
from .wil import *

BOUNDS = ("Every option with its allowed and some forbidden values, on two "
          "existing instances and one created later, with a subclass; plot "
          "data of up to four points for arbitrary solution values.")
ASSUMPTIONS = ["Translators, matchers and runners are arbitrary functions as "
               "in C01."]
GOOD = {k: [CHANGED[k]] for k in DEFAULT}
for _k in DEFAULT:
    if _k.endswith("scale"):
        GOOD[_k] = [120., "80.5", 7]
GOOD["qed_order"] = [0, 1]
GOOD["qcd_order"] = [0, 1]
GOOD["smeft_matching_order"] = [1, 0]
GOOD["parameters"] += [{}, {"m_b": "4.3", "alpha_s": 1}]
BAD = {"smeft_accuracy": ["exact", 1, None], "qed_order": [2, -1, "1"],
       "qcd_order": [2, .5, None], "smeft_matching_order": [2, "tree"],
       "smeft_matchingscale": ["mZ", None, {}], "mb_matchingscale": ["x", []],
       "mc_matchingscale": [None, "x"],
       "parameters": [{"m_b": "heavy"}, 4.2, {"m_b": None}]}


def stored(k, v):
    if k.endswith("scale"):
        return float(v)
    if k == "parameters":
        return {x: float(y) for x, y in v.items()}
    return v


def fresh(W, c=None):
    return W({"VddLL_1212": 1e-6 if c is None else c.real("x")}, 5., "WET",
             "JMS")


def options(c):
    """set_option: this instance only; set_default_option: instances created
    later only; invalid values are refused and change nothing."""
    with defaults() as W:
        k = c.choice("option", list(DEFAULT))
        how = c.choice("how", ["instance", "class", "instance of subclass"])
        good = c.choice("valid", [True, False])
        val = c.choice("value", (GOOD if good else BAD)[k])
        before = c.choice("changed before", [False, True])
        given = dict(val) if isinstance(val, dict) else val
        a, b = fresh(W), fresh(W)
        if before:
            for o in DEFAULT:
                a.set_option(o, CHANGED[o])
        old = {o: a.get_option(o) for o in DEFAULT}
        for o in DEFAULT:
            c.ok(f"{o} as expected", old[o] == (CHANGED if before
                                               else DEFAULT)[o])
            c.ok(f"default {o}", b.get_option(o) == DEFAULT[o])
        import voluptuous as vol
        target = W if how == "class" else a
        f = (lambda: W.set_default_option(k, given)) if how == "class" else (
            lambda: a.set_option(k, given))
        if how == "instance of subclass":
            class V(W):
                pass
            a = V({"VddLL_1212": 1e-6}, 5., "WET", "JMS")
            old = dict(DEFAULT)
        if good:
            f()
            new = dict(old)
            new[k] = stored(k, val)
        else:
            c.raises("refused", (vol.Invalid, TypeError), f)
            new = dict(old)
        later = fresh(W)
        for o in DEFAULT:
            if how == "class":
                c.ok(f"existing {o}", a.get_option(o) == old[o])
                c.ok(f"later {o}", later.get_option(o) == (
                    stored(k, val) if good and o == k else DEFAULT[o]))
            else:
                c.ok(f"own {o}", a.get_option(o) == new[o])
                c.ok(f"later {o}", later.get_option(o) == DEFAULT[o])
            c.ok(f"other instance {o}", b.get_option(o) == DEFAULT[o])
        if good:
            x = (later if how == "class" else a).get_option(k)
            c.ok("type", type(x) is type(stored(k, val)))
        c.ok("value given unchanged", given == val)
        c.raises("unknown option", vol.Invalid, lambda: a.set_option("mb", 1))
        c.raises("unknown default option", vol.Invalid,
                 lambda: W.set_default_option("mb", 1))
        c.raises("unknown option asked for", KeyError,
                 lambda: a.get_option("mb"))


def parameters(c):
    """Options override the defaults one by one; delta is another name of
    gamma; dictionaries passed in stay as they are."""
    with defaults() as W, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = M("parameters").p
        default = dict(p)
        a, b = fresh(W), fresh(W)
        given = c.choice("parameters", [
            {}, {"m_b": 4.4}, {"delta": 1.1}, {"delta": 1.1, "Vub": .004},
            {"gamma": 1.3}, {"new": 3.}])
        how = c.choice("how", ["instance", "class"])
        order = c.choice("order", [0, 1])
        mine = dict(given)
        if how == "class":
            W.set_default_option("parameters", mine)
            a = fresh(W)
        else:
            a.set_option("parameters", mine)
        a.set_option("smeft_matching_order", order)
        want = dict(default)
        want.update({"gamma" if k == "delta" else k: v
                     for k, v in given.items()})
        c.ok("parameters", a.parameters == want)
        c.ok("again", a.parameters == want)
        c.ok("matching parameters", a.matching_parameters == dict(
            want, loop_order=order))
        c.ok("parameters afterwards", a.parameters == want)
        c.ok("other instance", b.parameters == default and
             b.matching_parameters == dict(default, loop_order=0))
        c.ok("dictionary given", mine == given)
        mine["m_c"] = 7.
        c.ok("own copy", a.parameters == want)
        c.ok("default values", dict(p) == default)
        got = a.parameters
        got["m_b"] = -1.
        c.ok("result is a copy", a.parameters == want and dict(p) == default)


def hashes(c):
    """The hash changes with coefficients and options, not otherwise."""
    with defaults() as W:
        a = fresh(W, c)
        k = c.choice("option", list(DEFAULT))
        h = hash(a)
        c.ok("stable", hash(a) == h)
        a.match_run(2., "WET-3", "flavio")
        a.get_option(k)
        c.ok("the same after running", hash(a) == h)
        a.set_option(k, DEFAULT[k])
        c.ok("the same with the same option", hash(a) == h)
        a.set_option(k, CHANGED[k])
        c.ok("changes with the option", hash(a) != h)
        if k == "parameters":
            h2 = hash(a)
            a.set_option(k, dict(CHANGED[k], m_b=4.5))
            c.ok("changes with a parameter", hash(a) not in (h, h2))
        a.set_option(k, DEFAULT[k])
        c.ok("changes back", hash(a) == h)
        b = W({"VddLL_1212": 2.}, 5., "WET", "JMS")
        c.ok("another point", hash(b) != h)


def construct(c):
    """All ways to construct give the same point; wrong names are refused."""
    with defaults() as W:
        m = M("wcxf.classes")
        inp = c.choice("input", INPUTS)
        s = c.real("scale", 1e-1, 1e6)
        d = values(c, *inp)
        given = dict(d)
        how = c.choice("how", ["dict", "from_wc"])
        wc = m.WC(inp[0], inp[1], s, m.WC.dict2values(d))
        w = W(given, s, *inp) if how == "dict" else W.from_wc(wc)
        c.ok("kind", (w.wc.eft, w.wc.basis) == inp)
        c.eq("scale", w.wc.scale, s, tol=0)
        c.eq("values", w.wc.dict, d, tol=0, keys="strict")
        c.eq("input", given if how == "dict" else wc.dict, d, tol=0,
             keys="strict")
        out = w.match_run(s, *inp)
        c.eq("nothing to do", out.dict, d, tol=0, keys="strict")
        k = next(iter(d))
        c.raises("unknown coefficient", AssertionError,
                 lambda: W({k: 1., "nothing": 1.}, s, *inp))
        c.raises("unknown EFT", ValueError, lambda: W(given, s, "X", inp[1]))
        c.raises("unknown basis", ValueError, lambda: W(given, s, inp[0], "X"))


def load(c):
    """A file gives the point written in it."""
    import json
    with defaults() as W:
        re, im = c.choice("value", [(1., 0.), (0., -2.), (.5, 1e-9), (0., 0.)])
        fmt = c.choice("format", ["json", "yaml"])
        x = {"Re": re, "Im": im} if im else re
        t = {"eft": "WET", "basis": "flavio", "scale": 4.8,
             "values": {"CVLL_sdsd": x, "C7_bs": {"Im": 2}}}
        if fmt == "json":
            t = json.dumps(t)
        else:
            import yaml
            t = yaml.dump(t)
        w = W.load_wc(t)
        c.eq("values", w.wc.dict, {"CVLL_sdsd": complex(re, im), "C7_bs": 2j},
             tol=1e-15)
        c.ok("kind", (w.wc.eft, w.wc.basis, w.wc.scale) ==
             ("WET", "flavio", 4.8))


def plot(c):
    """plotdata: the values of the solution at the scales returned, from end
    to end."""
    import math
    n = c.choice("steps", [2, 3, 4])
    kind = c.choice("scale", ["log", "linear", None])
    part = c.choice("part", ["re", "im", None])
    lo, hi = c.choice("range", [(1., 100.), (2., 5.), (91.1876, 1e4)])
    seen = []
    vals = {}

    def fun(x):
        x = np.asarray(x, float)
        seen.append(x)
        out = np.empty(x.shape, object)
        for i, y in np.ndenumerate(x):
            key = round(math.log(y), 9)
            if key not in vals:
                vals[key] = (c.cplx(f"a{len(vals)}"), c.cplx(f"b{len(vals)}"))
            out[i] = {"a": vals[key][0], "b": vals[key][1], "z": 0j}
        return out
    r = M("classes").RGsolution(fun, lo, hi)
    kw = {}
    if kind:
        kw["scale"] = kind
    if part:
        kw["part"] = part
    x, y = r.plotdata("b", steps=n, **kw)
    c.ok("number of points", len(x) == len(y) == n)
    for i in range(n):
        t = i / (n - 1)
        e = lo + t * (hi - lo) if kind == "linear" else \
            lo * (hi / lo) ** t
        c.ok(f"x{i}", abs(float(x[i]) / e - 1) < 1e-9)
        z = vals[round(math.log(e), 9)][1]
        c.eq(f"y{i}", y[i], z.imag if part == "im" else z.real, tol=0)


def harnesses(tier):
    k = dict(stubs=stubs, max_paths=4000, ne_flips=0)
    return [H("options", options, **k), H("parameters", parameters, **k),
            H("hash", hashes, **k), H("construction", construct, **k),
            H("files", load, **k), H("plot data", plot, **k)]
