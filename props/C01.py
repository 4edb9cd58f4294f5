"""Wilson.match_run composes translation, running and matching."""
from vlib.h import *
from .wil import *

BOUNDS = ("Every input and output EFT from SMEFT to WET-3 with bases Warsaw, "
          "Warsaw up, JMS, flavio and Bern, arbitrary scales, three sectors "
          "with one coefficient each, options at their defaults, one changed "
          "at a time and all changed.")
ASSUMPTIONS = ["Translators, matchers and runners are arbitrary functions "
               "(linear, diagonal in the three sectors, consistent between "
               "bases) of everything they may depend on; what they really do "
               "is the subject of the other properties.",
               "Coefficients are non-zero."]


def compose(inp, changed):
    def harness(c):
        with defaults() as W:
            s = scales(c)
            d = values(c, *inp)
            eft, b = c.choice("output", outputs(inp[0]))
            opt = dict(DEFAULT)
            for k in changed:
                opt[k] = CHANGED[k]
            at = [s[0], s[1]]
            # the matching scales themselves
            at += [opt[k] for k in opt if k.endswith("scale")]
            scale = c.choice("scale", at)
            s0 = c.choice("input scale", [s[0]] + [
                opt["smeft_matchingscale" if inp[0] == "SMEFT" else
                    "mb_matchingscale"]])
            sectors = c.choice("sectors", ["absent", "all", ("sdsd",),
                                           ("sbsb", "usenu")])
            if eft == "SMEFT":
                c.assume(sectors == "absent")
            w = W(dict(d), s0, *inp)
            par_in = dict(opt["parameters"])
            for k in changed:
                w.set_option(k, par_in if k == "parameters" else opt[k])
            kw = {} if sectors == "absent" else {"sectors": sectors}
            out = w.match_run(scale, eft, b, **kw)
            want = oracle(inp + (s0, d), opt, scale, eft, b,
                          "all" if sectors == "absent" else sectors)
            compare(c, "result", out, want, scale, eft, b)
            c.eq("input", w.wc.dict, d, keys="strict", tol=0)
            c.eq("input scale", w.wc.scale, s0, tol=0)
            c.ok("input kind", (w.wc.eft, w.wc.basis) == inp)
            c.ok("parameters given", par_in == opt["parameters"])
            c.ok("default parameters", dict(M("parameters").p) ==
                 STATE["default"])
    what = "default options" if not changed else \
        "all options changed" if len(changed) > 2 else ", ".join(changed)
    return H(f"{inp[0]} {inp[1]}, {what}", harness, stubs=stubs,
             max_paths=4000, ne_flips=0, cost=10 if inp[0] == "SMEFT" else 5)


def refused(c):
    """There is no way back to a larger theory, nor from an unknown one."""
    with defaults() as W:
        s = scales(c)
        inp = c.choice("input", INPUTS)
        d = values(c, *inp)
        order = ("SMEFT",) + WETS
        out = c.choice("output", [
            (e, b) for e in order[:order.index(inp[0])] + ("WET-2", "none")
            for b in (("Warsaw",) if e == "SMEFT" else ("JMS", "flavio"))])
        scale = c.choice("scale", [s[0], s[1]])
        w = W(dict(d), s[0], *inp)
        c.raises("refused", ValueError, lambda: w.match_run(scale, *out))
        c.raises("unknown basis", ValueError,
                 lambda: w.match_run(scale, inp[0], "none"))


def harnesses(tier):
    out = [H("refused", refused, stubs=stubs, max_paths=4000, ne_flips=0)]
    for inp in INPUTS:
        out.append(compose(inp, ()))
        out.append(compose(inp, tuple(DEFAULT)))
        if tier == "thorough" or inp[1] in ("Warsaw up", "flavio"):
            for k in DEFAULT:
                if inp[0] == "SMEFT" or not k.startswith("smeft"):
                    out.append(compose(inp, (k,)))
    return out
