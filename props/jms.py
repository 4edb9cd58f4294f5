"""Field content of the operators of the WET JMS basis (arXiv:1709.04486),
derived from their names."""
from vlib.h import *

# names of four fields -> the two currents; baryon number violating below
FOUR = {"nuedu": ("nu", "e", "d", "u"), "uddu": ("u", "d", "d", "u"),
        "nunu": ("nu", "nu", "nu", "nu")}


def _fields(name):
    if name in ("G", "Gtilde"):
        return []
    if name[-2:] not in ("LL", "RR", "LR", "RL"):
        f = name[0]
        return [f + "L*", f + "R"]
    kind, x, ch = name[0], name[1:-2].lstrip("18"), name[-2:]
    if kind == "S" and len(x) == 3 and set(x) <= {"u", "d"}:
        a, b, d = x
        last = "e" if x.count("u") == 2 else "nu"
        return [a + ch[0], b + ch[0], d + ch[1], last + ch[1]]
    if x in FOUR:
        f = FOUR[x]
    elif x[:2] == "nu":
        f = ("nu", "nu", x[2:], x[2:])
    else:
        f = (x[0], x[0], x[1], x[1])
    if kind == "V":
        c = (ch[0], ch[0], ch[1], ch[1])
    else:               # scalar, tensor: each bilinear flips chirality
        c = ("L", "R", "L", "R") if ch == "RR" else ("L", "R", "R", "L")
    return [f[0] + c[0] + "*", f[1] + c[1], f[2] + c[2] + "*", f[3] + c[3]]


FIELDS = {k: _fields(k) for k in WET_CLASS}


def multiplicity(name, i):
    """Number of index combinations of one operator."""
    rel = [r for r in REL[WET_CLASS[name]] if not r[1]]
    seen, todo = {i}, [i]
    while todo:
        j = todo.pop()
        for p, _, _ in rel:
            k = tuple(j[q] for q in p)
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return len(seen)


def rotate(a, fields, U):
    """C'_{ab..} = sum U_ia(*) U_jb(*) .. C_{ij..}, index by index."""
    a = np.asarray(a, dtype=object).view(np.ndarray)
    for ax, f in enumerate(fields):
        u = U.get(f.rstrip("*"))
        if u is None:
            continue
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            t = 0
            for k in range(3):
                v = u[k, i[ax]]
                t = t + (conj(v) if f[-1] == "*" else v) * \
                    a[i[:ax] + (k,) + i[ax + 1:]]
            b[i] = t
        a = b
    return a
