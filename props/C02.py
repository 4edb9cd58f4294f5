"""Wilson.match_run does not depend on what was called before."""
import warnings

from vlib.h import *
from .wil import *

BOUNDS = ("Sequences of up to four operations (three at the quick tier) out "
          "of running to ten targets, changing each option, changing class "
          "defaults, clearing the cache and using a second instance; nine "
          "kinds of input; scales, coefficients and steps arbitrary. For two "
          "operations also scales next to each other and to the matching "
          "scales (fixed values there).")
ASSUMPTIONS = ["Translators, matchers and runners are arbitrary functions as "
               "in C01.", "Coefficients are non-zero."]


def targets(inp, s):
    ew = "smeft_matchingscale"
    out = []
    if inp[0] == "SMEFT":
        out += [("SMEFT", "Warsaw", ew, "all"),
                ("SMEFT", "Warsaw up", s[1], "all"),
                ("SMEFT", "Warsaw up", s[1], ("dL=2",)),
                ("SMEFT", "Warsaw", s[0], "all")]
    if inp[0] in ("SMEFT", "WET"):
        out += [("WET", "JMS", ew, "all"), ("WET", "flavio", ew, "all"),
                ("WET", "flavio", s[1], ("sdsd",)),
                ("WET", "flavio", s[1], "all")]
    if inp[0] != "WET-3":
        out += [("WET-4", "Bern", "mb_matchingscale", "all"),
                ("WET-4", "Bern", "mb_matchingscale", ("sdsd", "usenu"))]
    out += [("WET-3", "JMS", s[1], ("usenu",)), ("WET-3", "flavio", s[2], "all"),
            ("WET-3", "JMS", s[1], "all")]
    if inp[0] != "SMEFT":
        out += [(inp[0], "JMS", s[0], ("sdsd",)), (inp[0], "flavio", s[0], "all")]
    return out


def history(inp, length, part, parts, close=False):
    def harness(c):
        with defaults() as W:
            s = CLOSE[inp[0]] if close else scales(c)
            d = values(c, *inp)
            opt = dict(DEFAULT)
            w = W(dict(d), s[0], *inp)
            other = {k: v * 2 for k, v in d.items()}
            v = None
            T = targets(inp, s)
            ops = T + [("set", k) for k in DEFAULT
                       if inp[0] == "SMEFT" or not k.startswith("smeft")] + \
                [("class", "parameters"), ("class", "mb_matchingscale"),
                 ("clear",), ("other",)]
            done = []
            for n in range(length):
                L = T if n == length - 1 else ops
                if n == 0:
                    L = L[part::parts]
                op = c.choice(f"operation {n}", L)
                if op[0] == "set":
                    k = op[1]
                    opt[k] = CHANGED[k] if opt[k] == DEFAULT[k] else DEFAULT[k]
                    w.set_option(k, opt[k])
                elif op[0] == "class":
                    W.set_default_option(op[1], CHANGED[op[1]])
                elif op[0] == "clear":
                    w.clear_cache()
                elif op[0] == "other":
                    v = v or W(dict(other), s[0], *inp)
                    v.match_run(s[1], "WET-3", "JMS")
                else:
                    e, b, at, sec = op
                    at = opt[at] if isinstance(at, str) else at
                    out = w.match_run(at, e, b, sectors=sec)
                    if not (e == "SMEFT" and sec != "all"):
                        want = oracle(inp + (s[0], d), dict(opt), at, e, b, sec)
                        done.append((n, out, want, at, e, b))
                        compare(c, f"call {n}", *done[-1][1:])
            for n, *x in done[:-1]:
                compare(c, f"call {n} afterwards", *x)
            c.eq("input", w.wc.dict, d, keys="strict", tol=0)
    return H(f"{inp[0]} {inp[1]}, {length} operations" +
             (f", part {part + 1}/{parts}" if parts > 1 else "") +
             (", scales close to each other" if close else ""), harness,
             stubs=stubs, max_paths=20000, ne_flips=0, cost=length)


FEW = [("SMEFT", "Warsaw up"), ("WET", "flavio"), ("WET-4", "JMS"),
       ("WET-3", "Bern")]


def harnesses(tier):
    out = []
    for inp in INPUTS:
        out.append(history(inp, 2, 0, 1, close=True))
        for n in (2, 3) + ((4,) if tier == "thorough" else ()):
            if n == 3 and tier != "thorough" and inp not in FEW:
                continue
            parts = {2: 1, 3: 4, 4: 8}[n]
            for i in range(parts):
                out.append(history(inp, n, i, parts))
    return out
