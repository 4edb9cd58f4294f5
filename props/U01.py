"""Conversion between WCxf dictionaries, coefficient arrays and vectors."""
import numpy as np

from vlib.h import *

BOUNDS = ("Three generations. All coefficients of the SMEFT Warsaw (1635) and "
          "WET JMS (2257) bases symbolic at once, modulus up to 1; the whole "
          "SMEFT/WET parameter vector symbolic.")


def util(eft):
    return M("util").smeftutil if eft == "SMEFT" else M("util").wetutil


BAS = {"SMEFT": "Warsaw", "WET": "JMS"}
CLS = {"SMEFT": SMEFT_CLASS, "WET": WET_CLASS}


def vector(eft):
    """array -> dict -> array is the identity, entry by entry."""
    def f(c):
        u = util(eft)
        n = sum(int(np.prod(s)) if s != 1 else 1
                for s in u.C_keys_shape.values())
        x = c.carray("x", (n,))
        d = u.C_array2dict(x)
        c.ok("all keys present", set(d) == set(u.C_keys))
        for k, s in u.C_keys_shape.items():
            if s != 1:
                c.ok(f"shape {k}", tuple(np.shape(d[k])) == tuple(s))
        y = u.C_dict2array(d)
        c.ok("length", np.shape(y) == (n,))
        c.eq("vector", y, x)
        c.witness("vector", y)
        # every coefficient occupies its own slots
        z = u.C_dict2array({k: v * 2 for k, v in d.items()})
        c.eq("scaled", z, x * 2)
    return H(f"vector {eft}", f)


def wcxf_arrays(eft, part, n):
    """WCxf dict -> arrays -> WCxf dict is the identity."""
    def f(c):
        u = util(eft)
        fl = realflags(eft, BAS[eft])
        fam = chunks(sorted(by_family(fl)), n)[part]
        fl = {k: r for k, r in fl.items() if k.split("_")[0] in fam}
        w = coeffs(c, fl)
        inp = dict(w)
        C = u.wcxf2arrays(w)
        c.ok("input unchanged", list(w) == list(inp))
        c.eq("input", w, inp)
        for k, a in C.items():
            if np.ndim(a) == 0 or k not in CLS[eft]:
                continue
            c.ok(f"shape {k}", tuple(a.shape) == tuple(u.C_keys_shape[k]))
        for k, v in w.items():
            if "_" in k:
                c.eq(f"entry {k}", C[k.split("_")[0]][idx(k)], v)
            else:
                c.eq(f"entry {k}", C[k], v)
        back = u.arrays2wcxf(C)
        c.eq("round trip", back, w)
        c.witness("round trip", back)
        full = u.add_missing(C)
        c.ok("no missing", set(full) >= set(u.WC_keys))
        for k in u.WC_keys:
            if k in C:
                c.eq(f"kept {k}", full[k], C[k])
            else:
                c.eq(f"zero {k}", full[k], full[k] * 0)
                s = u.C_keys_shape[k]
                c.ok(f"shape of zero {k}", s == 1 or
                     tuple(full[k].shape) == tuple(s))
    return H(f"arrays {eft} {part + 1}/{n}", f, ne_flips=0)


def nonred(eft, part, n):
    """Non-redundant WCxf dict -> symmetrised arrays -> WCxf dict."""
    def f(c):
        u = util(eft)
        fl = realflags(eft, BAS[eft])
        fam = chunks(sorted(by_family(fl)), n)[part]
        fl = {k: r for k, r in fl.items() if k.split("_")[0] in fam}
        w = coeffs(c, fl)
        inp = dict(w)
        C = u.wcxf2arrays_symmetrized(w)
        c.eq("input unchanged", w, inp, keys="strict")
        c.ok("complete", set(C) >= set(u.WC_keys))
        for k in fam:
            check_sym(c, k, CLS[eft][k], C[k])
        for k in set(u.WC_keys) - set(fam):
            c.eq(f"absent {k}", C[k], C[k] * 0)
        # the sum over all index combinations counts each operator once
        for k in fam:
            cl = CLS[eft][k]
            if cl in (0, 8, 9):
                continue
            for name in by_family(fl)[k]:
                i = idx(name)
                orb = orbit(cl, i)
                tot = 0
                for j, (cj, s) in orb.items():
                    if not cj:
                        tot = tot + s * C[k][j]
                # members reached with and without conjugation
                if fl[name] or cl in (1, 3, 5, 2):
                    c.eq(f"weight {name}", C[k][i] * sum(
                        1 for j, (cj, s) in orb.items() if not cj or
                        fl[name]) if cl not in (1, 3, 5, 2) else C[k][i],
                        w[name])
                else:
                    c.eq(f"weight {name}", tot, w[name])
        d = u.arrays2wcxf_nonred({k: C[k] for k in C})
        c.ok("only basis keys", set(d) <= set(fl))
        c.eq("round trip", d, w)
        c.witness("round trip", d)
    return H(f"nonred {eft} {part + 1}/{n}", f, cost=5, ne_flips=2)


def projection(eft, part, n):
    """symmetrize is a projection onto arrays with the operators' symmetries
    that keeps arrays which already have them."""
    def f(c):
        u = util(eft)
        fam = chunks(sorted(CLS[eft]), n)[part]
        C = {}
        for k in fam:
            s = u.C_keys_shape[k]
            C[k] = c.cplx(k) if s == 1 else c.carray(
                k, tuple(int(i) for i in s))
        S = u.symmetrize(C)
        c.ok("keys", set(S) == set(C))
        for k in fam:
            check_sym(c, k, CLS[eft][k], S[k])
        S2 = u.symmetrize({k: S[k] for k in S})
        c.eq("idempotent", S2, S)
        # an array with the symmetries is left alone
        for k in fam:
            c.witness(k, S[k])
    return H(f"symmetrize {eft} {part + 1}/{n}", f, cost=3)


def already_symmetric(eft, part, n):
    def f(c):
        u = util(eft)
        fam = [k for k in chunks(sorted(CLS[eft]), n)[part]
               if CLS[eft][k] not in (0, 8)]
        C = {}
        for k in fam:
            s = tuple(int(i) for i in u.C_keys_shape[k])
            a = c.carray(k, s)
            cl = CLS[eft][k]
            b = c.array(np.zeros(s, dtype=complex))
            for i in np.ndindex(*s):
                orb = orbit(cl, i)
                tot = 0
                grp = group(cl)
                for p, cc, sg in grp:
                    j = tuple(i[q] for q in p)
                    tot = tot + sg * (conj(a[j]) if cc else a[j])
                b[i] = tot / len(grp)
            C[k] = b
        S = u.symmetrize({k: C[k] for k in C})
        for k in fam:
            c.eq(k, S[k], C[k])
            c.witness(k, S[k])
    return H(f"symmetric arrays kept {eft} {part + 1}/{n}", f, cost=3)


def group(cl):
    n = 2 if cl in (1, 2, 9) else 4
    g = {tuple(range(n)): (False, 1)}
    g = {(tuple(range(n)), False, 1)}
    todo = list(g)
    while todo:
        p, cc, s = todo.pop()
        for q, c2, s2 in REL[cl]:
            x = (tuple(p[i] for i in q), cc ^ c2, s * s2)
            if x not in g:
                g.add(x)
                todo.append(x)
    return sorted(g)


def class8(c):
    """scale_8/unscale_8 are inverse to each other on symmetric arrays."""
    U = M("util.common").EFTutil
    a = c.carray("a", (3, 3, 3, 3))
    s = U.symmetrize_8(a)
    check_sym(c, "symmetrize_8", 8, s)
    c.eq("idempotent", U.symmetrize_8(s), s)
    back = U.symmetrize_8(U.scale_8(U.unscale_8(s)))
    c.eq("scale(unscale)", back, s)
    c.witness("back", back)


def padding(c):
    u = util("WET")
    C = {}
    for k in ("uG", "dG", "VuuLL", "SduuLL", "SeuRR", "SnueduRL", "VddLL",
              "V1udLL", "SuudLR"):
        C[k] = c.carray(k, tuple(int(i) for i in u.C_keys_shape[k]))
    C["G"] = c.real("G")
    P = u.pad_C(C)
    for k, v in P.items():
        if k == "G":
            c.eq("G", v, C["G"])
            continue
        c.ok(f"padded shape {k}", set(v.shape) == {3})
        for i in np.ndindex(*v.shape):
            inside = all(x < m for x, m in zip(i, C[k].shape))
            c.eq(f"{k}{i}", v[i], C[k][i] if inside else 0)
    c.eq("unpad", u.unpad_C(P), C, keys="strict")
    c.witness("padding", P["SduuLL"])


def harnesses(tier):
    h = [vector("SMEFT"), vector("WET")]
    for e in ("SMEFT", "WET"):
        h += [wcxf_arrays(e, i, 2) for i in range(2)]
        h += [nonred(e, i, 4) for i in range(4)]
        h += [projection(e, i, 2) for i in range(2)]
        h += [already_symmetric(e, i, 2) for i in range(2)]
    h += [H("class 8", class8), H("padding", padding)]
    return h
