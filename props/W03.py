"""What WC.translate and WC.match do around the registered functions."""
from vlib.h import *
from .W02 import registries

BOUNDS = ("Input with up to three coefficients of arbitrary complex value, "
          "output functions returning arbitrary complex values (zero "
          "included), arbitrary EFT and basis names, with and without "
          "parameters and sectors, two translators or matchers registered.")


def run_translate(c):
    with registries() as m:
        E, A, Bn, to = (c.name(n) for n in ("eft", "from", "to", "asked"))
        Ew, Aw = c.name("wc eft"), c.name("wc basis")
        x, y = c.cplx("x"), c.cplx("y")
        mu = c.real("mu", 1e-3, 1e17)
        out = {"p": c.cplx("p"), "q": c.cplx("q"), "r": c.real("r")}
        par = c.choice("parameters", [None, {}, {"a": 1.0}])
        sec = c.choice("sectors", ["absent", None, ("s", "t"), ["s"], ()])
        how = c.choice("via", ["wc", "translator"])
        seen = []

        def f(*a, **k):
            seen.append((a, k))
            return dict(out)
        m.Translator(E, A, Bn, f)
        w = m.WC(Ew, Aw, mu, m.WC.dict2values({"x": x, "y": y}))
        kw = {} if sec == "absent" else {"sectors": sec}
        if how == "wc":
            same = to == Aw
            known = E == Ew and A == Aw and Bn == to
            try:
                r = w.translate(to, parameters=par, **kw)
            except ValueError:
                r = None
            if same:
                c.ok("same basis: the same object", r is w and not seen)
                return
            c.ok("ValueError exactly when there is no such translator",
                 (r is not None) == bool(known))
            if r is None:
                return
        else:
            c.assume(E == Ew)
            c.assume(A == Aw)
            r = m.Translator[E, A, Bn].translate(w, parameters=par, **kw)
        c.ok("function called once", len(seen) == 1)
        a, k = seen[0]
        c.eq("values handed over", a[0], {"x": x, "y": y}, tol=0,
             keys="strict")
        c.eq("scale handed over", a[1], mu, tol=0)
        c.ok("parameters handed over", len(a) == 3 and a[2] is par)
        c.ok("sectors handed over", k == ({} if sec in ("absent", None)
                                          else {"sectors": sec}))
        result(c, r, E, Bn if how != "wc" else to, mu, out, w, {"x": x, "y": y})


def result(c, r, eft, basis, mu, out, w, inp):
    c.ok("eft", r.eft == eft)
    c.ok("basis", r.basis == basis)
    c.eq("scale", r.scale, mu, tol=0)
    c.ok("a new object", r is not w)
    for k, v in out.items():
        c.eq(f"value {k}", r.dict.get(k, 0), v, tol=0)
        if v != 0:
            c.ok("non-zero is listed", k in r.values)
        else:
            c.ok("zero is dropped", k not in r.values)
    c.ok("nothing else", set(r.values) <= set(out))
    c.eq("input unchanged", w.dict, inp, tol=0, keys="strict")
    c.eq("input scale", w.scale, mu, tol=0)


def run_match(c):
    with registries() as m:
        E1, B1, E2, B2 = (c.name(n) for n in ("e1", "b1", "e2", "b2"))
        q = {n: c.name(n) for n in ("wc eft", "wc basis", "to eft", "to basis")}
        x = c.cplx("x")
        mu = c.real("mu", 1e-3, 1e17)
        out = {"p": c.cplx("p"), "r": c.real("r")}
        par = c.choice("parameters", [None, {"a": 1.0}])
        seen = []

        def f(*a, **k):
            seen.append((a, k))
            return dict(out)
        m.Matcher(E1, B1, E2, B2, f)
        w = m.WC(q["wc eft"], q["wc basis"], mu, m.WC.dict2values({"x": x}))
        try:
            r = w.match(q["to eft"], q["to basis"], parameters=par)
        except ValueError:
            r = None
        if q["to eft"] == q["wc eft"] and q["to basis"] == q["wc basis"]:
            c.ok("same EFT and basis: the same object", r is w and not seen)
            return
        known = E1 == q["wc eft"] and B1 == q["wc basis"] and \
            E2 == q["to eft"] and B2 == q["to basis"]
        c.ok("ValueError exactly when there is no such matcher",
             (r is not None) == bool(known))
        if r is None:
            return
        c.ok("called once", len(seen) == 1)
        a, k = seen[0]
        c.eq("values handed over", a[0], {"x": x}, tol=0, keys="strict")
        c.eq("scale handed over", a[1], mu, tol=0)
        c.ok("parameters handed over", a[2] is par and not k)
        result(c, r, E2, B2, mu, out, w, {"x": x})


def decorators(c):
    """The decorators register the function and hand it back; of two functions
    registered for the same pair the last one counts."""
    with registries() as m:
        a, b = c.cplx("a"), c.cplx("b")
        f1 = lambda d, s, p: {"o": a}
        f2 = lambda d, s, p: {"o": b}
        A, B = c.name("A"), c.name("B")
        c.assume(A != "0" and B != "0")
        r1 = m.translator("E", "0", A)(f1)
        r2 = m.translator("E", "0", B)(f2)
        c.ok("function handed back", r1 is f1 and r2 is f2)
        w = m.WC("E", "0", 2, {"x": 1})
        c.eq("first", w.translate(A)["o"], b if A == B else a, tol=0)
        c.eq("second", w.translate(B)["o"], b, tol=0)
        m.matcher("E", "0", "F", A)(f1)
        m.matcher("E", "0", "F", B)(f2)
        c.eq("first matcher", w.match("F", A)["o"], b if A == B else a, tol=0)
        c.eq("second matcher", w.match("F", B)["o"], b, tol=0)
        c.ok("eft", w.match("F", A).eft == "F")
        # what they are registered for can be read from the instances
        t = m.Translator["E", "0", A]
        c.ok("translator", (t.eft, t.from_basis) == ("E", "0")
             and t.to_basis == A and t.function is (f2 if A == B else f1))
        t = m.Matcher["E", "0", "F", B]
        c.ok("matcher", (t.from_eft, t.from_basis, t.to_eft) ==
             ("E", "0", "F") and t.to_basis == B and t.function is f2)


def chain(c):
    """Two translations in sequence: nothing is carried over from one to the
    other but the values."""
    with registries() as m:
        x = c.cplx("x")
        k1, k2 = c.real("k1"), c.real("k2")
        m.Translator("E", "a", "b", lambda d, s, p: {
            "y": d.get("x", 0) * k1})
        m.Translator("E", "b", "a", lambda d, s, p: {
            "x": d.get("y", 0) * k2})
        w = m.WC("E", "a", 2, m.WC.dict2values({"x": x}))
        v = w.translate("b")
        u = v.translate("a")
        c.eq("there", v["y"], k1 * x)
        c.eq("and back", u["x"], k1 * k2 * x)
        c.eq("again", w.translate("b")["y"], k1 * x)
        c.eq("input", w.dict, {"x": x}, tol=0)
        c.ok("bases", (w.basis, v.basis, u.basis) == ("a", "b", "a"))
        c.witness("back", u["x"])


def harnesses(tier):
    k = dict(max_paths=6000, ne_flips=60 if tier == "quick" else 2000,
             ne_depth=1 if tier == "quick" else 3)
    return [H("translate", run_translate, cost=3, **k),
            H("match", run_match, cost=3, **k),
            H("decorators", decorators, **k), H("chain", chain, **k)]
