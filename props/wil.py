"""The Wilson class with uninterpreted steps: translators, matchers and runners
multiply the coefficient of a sector by an unknown number that depends on
everything the step may depend on."""
import contextlib

from vlib.h import *
from vlib import sym

SECTORS = ("sdsd", "usenu", "sbsb")
SMEFT_NAMES = ("phiq1_12", "ll_1122", "qq1_2323")
WETS = ("WET", "WET-4", "WET-3")
FLAV = ("JMS", "flavio", "Bern")
STATE = {}


def names(eft, b):
    """One coefficient for each of the three sectors (None: not there)."""
    if eft == "SMEFT":
        return list(SMEFT_NAMES)
    out = []
    for s in SECTORS:
        x = basis(eft, b).sectors.get(s)
        out.append(next(iter(x)) if x else None)
    return out


def number(kind, *key):
    """Unknown positive number for this step."""
    key = (kind,) + key
    f = STATE["f"]
    if key not in f:
        f[key] = STATE["c"].real(f"{kind}{len(f)}", .5, 2.)
    return f[key]


def par(p):
    d = dict(STATE["default"])
    d.update(p or {})
    order = d.pop("loop_order", 0)
    return tuple(sorted(d.items())), order


def weight(eft, b, scale, p, i):
    """Coefficients of basis b in units of those of a common basis."""
    if b == ("Warsaw" if eft == "SMEFT" else "JMS"):
        return 1
    return number("t", eft, b, None if eft == "SMEFT" else sk(scale),
                  par(p)[0], i)


def sk(x):
    return sym.Sym.key(x) if type(x) is sym.Sym else float(x)


def step_translate(eft, a, b, vals, scale, p):
    return [None if v is None else v * weight(eft, b, scale, p, i) /
            weight(eft, a, scale, p, i) for i, v in enumerate(vals)]


def step_run(eft, vals, s0, s1, opt):
    if sk(s0) == sk(s1):
        return list(vals)
    if eft == "SMEFT":
        k = (opt["smeft_accuracy"],)
    else:
        k = (opt["qed_order"], opt["qcd_order"], par(opt["parameters"])[0])
        if not (opt["qed_order"] or opt["qcd_order"]):
            return list(vals)
    return [None if v is None else v * number("r", eft, sk(s0), sk(s1), k, i)
            for i, v in enumerate(vals)]


def step_match(a, e0, b, e1, vals, scale, p):
    """Matching from basis a of e0 to basis b of e1."""
    vals = step_translate(e0, a, "Warsaw" if e0 == "SMEFT" else "JMS", vals,
                          scale, p)
    if e0 == "SMEFT":
        q, o = par(p)
        vals = [None if v is None else v * number("m", q, o == 1, sk(scale), i)
                for i, v in enumerate(vals)]
    n = names(e1, "JMS")
    vals = [v if n[i] else None for i, v in enumerate(vals)]
    return step_translate(e1, "JMS", b, vals, scale, p)


def to_list(eft, b, d):
    return [None if k is None else d.get(k, 0) for k in names(eft, b)]


def to_dict(eft, b, vals):
    return {k: v for k, v in zip(names(eft, b), vals)
            if k is not None and v is not None}


def stubs(c):
    m = M("wcxf.classes")
    STATE.update(c=c, f={}, default=dict(M("parameters").p))
    out = {}
    for (e, a, b), t in list(m.Translator.instances.items()):
        if e not in WETS + ("SMEFT",):
            continue

        def f(d, scale, parameters, sectors=None, e=e, a=a, b=b):
            v = step_translate(e, a, b, to_list(e, a, d), scale, parameters)
            if e == "SMEFT" and sectors is not None and \
                    "dB=dL=0" not in sectors:
                return {}
            return to_dict(e, b, v)
        out[t, "function"] = f
    for (e, a, e2, b), t in list(m.Matcher.instances.items()):
        if e2 not in WETS:
            continue

        def g(d, scale, parameters, e=e, a=a, e2=e2, b=b):
            return to_dict(e2, b, step_match(a, e, b, e2, to_list(e, a, d),
                                             scale, parameters))
        out[t, "function"] = g
    S, W = M("run.smeft.classes").SMEFT, M("run.wet.classes").WETrunner

    def smeft_init(self, wc, get_smpar=True):
        if wc.eft != "SMEFT" or wc.basis != "Warsaw":
            raise ValueError("wrong EFT or basis")
        self.wc, self.scale_in, self.C_in = wc, wc.scale, {}

    def smeft_run(self, scale, accuracy="integrate"):
        v = step_run("SMEFT", to_list("SMEFT", "Warsaw", self.wc.dict),
                     self.scale_in, scale, {"smeft_accuracy": accuracy})
        return m.WC("SMEFT", "Warsaw", scale, m.WC.dict2values(
            to_dict("SMEFT", "Warsaw", v)))

    def wet_run(self, scale, sectors="all"):
        v = step_run(self.eft, to_list(self.eft, "JMS", self.C_in),
                     self.scale_in, scale,
                     {"qed_order": self.qed_order, "qcd_order": self.qcd_order,
                      "parameters": self.parameters})
        v = select(v, sectors)
        return m.WC(self.eft, "JMS", scale, m.WC.dict2values(
            to_dict(self.eft, "JMS", v)))
    out.update({(S, "__init__"): smeft_init, (S, "run"): smeft_run,
                (W, "run"): wet_run})
    return out


def select(v, sectors):
    return [x if sectors == "all" or s in sectors else None
            for s, x in zip(SECTORS, v)]


def oracle(inp, opt, scale, eft, b, sectors="all"):
    """What the steps prescribed by the options give: (dict) or None where
    there is no way."""
    e0, b0, s0, vals = inp
    p = opt["parameters"]
    pm = dict(p, loop_order=opt["smeft_matching_order"])
    v = to_list(e0, b0, vals)
    if eft == e0 and sk(scale) == sk(s0):
        if b != b0:
            v = step_translate(e0, b0, b, v, scale, p)
    else:
        order = ("SMEFT",) + WETS
        if order.index(eft) < order.index(e0):
            return None
        v = step_translate(e0, b0, "Warsaw" if e0 == "SMEFT" else "JMS", v,
                           s0, p)
        at = {"SMEFT": opt["smeft_matchingscale"],
              "WET": opt["mb_matchingscale"], "WET-4": opt["mc_matchingscale"]}
        e, s = e0, s0
        while e != eft:
            v = step_run(e, v, s, at[e], opt)
            s = at[e]
            nxt = order[order.index(e) + 1]
            v = step_match("Warsaw" if e == "SMEFT" else "JMS", e, "JMS", nxt,
                           v, s, pm)
            e = nxt
        v = step_run(e, v, s, scale, opt)
        v = step_translate(e, "Warsaw" if e == "SMEFT" else "JMS", b, v,
                           scale, p)
    if eft != "SMEFT":
        v = select(v, sectors)
    return to_dict(eft, b, v)


def compare(c, label, out, want, scale, eft, b):
    c.ok(f"{label}: EFT and basis", out.eft == eft and out.basis == b)
    c.eq(f"{label}: scale", out.scale, scale, tol=0)
    c.ok(f"{label}: coefficients", set(out.dict) <= set(want))
    c.ok(f"{label}: non-zero coefficients only", set(out.dict) >= {
        k for k, v in want.items() if v != 0})
    for k, v in want.items():
        c.eq(f"{label}: {k}", out.dict.get(k, 0), v, tol=1e-9)


INPUTS = [("SMEFT", "Warsaw"), ("SMEFT", "Warsaw up"), ("WET", "JMS"),
          ("WET", "flavio"), ("WET-4", "flavio"), ("WET-3", "Bern"),
          ("WET-4", "JMS"), ("WET-3", "JMS"), ("WET", "Bern")]
DEFAULT = {"smeft_accuracy": "integrate", "qed_order": 1, "qcd_order": 1,
           "smeft_matching_order": 0, "smeft_matchingscale": 91.1876,
           "mb_matchingscale": 4.2, "mc_matchingscale": 1.3, "parameters": {}}
CHANGED = {"smeft_accuracy": "leadinglog", "qed_order": 0, "qcd_order": 0,
           "smeft_matching_order": 1, "smeft_matchingscale": 160.,
           "mb_matchingscale": 4.7, "mc_matchingscale": 1.5,
           "parameters": {"m_b": 4.4, "Vub": .004, "extra": 2.}}


def scales(c):
    """Input and two output scales: arbitrary, different from each other and
    from the matching scales."""
    s = [c.real(f"scale{i}", 1e-1, 1e6) for i in range(3)]
    fixed = [d[k] for d in (DEFAULT, CHANGED) for k in d if k.endswith("scale")]
    for i, x in enumerate(s):
        for y in s[:i] + fixed:
            c.assume(x != y)
    return s


# scales next to each other and to the matching scales
CLOSE = {"SMEFT": [91.19, 91.1877, 91.2], "WET": [4.21, 4.2001, 4.24],
         "WET-4": [4.2, 4.19, 4.1999], "WET-3": [1.3, 1.2999, 1.31]}


def values(c, eft, b):
    out = {}
    for k in names(eft, b):
        if k is None:
            continue
        out[k] = c.cplx(k)
        c.assume(out[k] != 0)
    return out


def outputs(e0):
    order = ("SMEFT",) + WETS
    out = []
    for e in order[order.index(e0):]:
        for b in (("Warsaw", "Warsaw up") if e == "SMEFT" else FLAV):
            out.append((e, b))
    return out


@contextlib.contextmanager
def defaults():
    """The class's default options come back afterwards."""
    W = M("classes").Wilson
    old = {k: dict(v) if isinstance(v, dict) else v
           for k, v in W._default_options.items()}
    try:
        yield W
    finally:
        W._default_options.clear()
        W._default_options.update(old)
