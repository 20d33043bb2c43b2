"""Abstract values of the value-flow domain.

A value is an immutable term describing where it came from (provenance) and how
it was assembled.  Terms are plain tuples so that they are hashable and can be
compared structurally:

  ('k', type, v)             constant
  ('s', name)                an input of the analysed fragment
  ('app', f, args, kw, occ)  result of an opaque (user supplied / external) call
  ('op', name, ...)          pure operation on other terms
  ('tup', items)             tuple; items may contain ('spl', t) = all elements of t
  ('un', cls, tag, payload)  tagged union value
  ('clo', fid, env, d, kd)   closure, ('bound', f, self), ('cls', q), ('mod', m), ('bi', dotted)
  ('ref', n)                 heap cell
  ('elem', key, j) ('st', key, i) ('fin', key, i)   loop element / carried state / final state
"""
from __future__ import annotations

TY = {}          # term -> type descriptor (side table; never part of equality)


def K(v):
    return ("k", type(v).__name__, v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def is_k(t):
    return t[0] == "k"


def settype(t, ty):
    if ty is not None and ty != "any":
        old = TY.get(t)
        if old is None or old == "any":
            TY[t] = ty
    return t


def S(name, ty="any"):
    return settype(("s", name), ty)


def op(name, *args):
    return ("op", name) + args


def typeof(t):
    k = t[0]
    if k == "k":
        return {"int": "int", "bool": "bool", "str": "str", "NoneType": "none", "float": "float"}.get(t[1], "any")
    if k in ("tup", "list"):
        return "tuple" if k == "tup" else "list"
    if k == "un":
        return ("u", t[1], "any", "any")
    if t in TY:
        return TY[t]
    if k == "op":
        n = t[1]
        if n in ("lin", "len"):
            return "int"
        if n in ("fstr", "join"):
            return "str"
        if n == "slice":
            return typeof(t[2])
        if n == "pay":
            u = typeof(t[2])
            if isinstance(u, tuple) and u[0] == "u":
                return u[2] if t[3] in ("some", "ok") else u[3]
            return "any"
        if n == "item":
            b = typeof(t[2])
            if isinstance(b, tuple) and b[0] == "tupN" and is_k(t[3]) and isinstance(t[3][2], int):
                i = t[3][2]
                if -len(b[1]) <= i < len(b[1]):
                    return b[1][i]
            if isinstance(b, tuple) and b[0] in ("iter", "list", "seq"):
                return b[1]
            if b == "str":
                return "str"
            return "any"
        if n == "reversed" or n == "sorted":
            b = typeof(t[2])
            return b
        if n in ("in", "isinst", "callable", "cmpv", "not"):
            return "bool"
        if n in ("not", "truthyv"):
            return "bool"
        if n == "range":
            return ("iter", "int")
        if n == "zip":
            return ("iter", ("tupN", tuple(elemtype(x) for x in t[2:])))
    return "any"


def elemtype(t):
    if t[0] == "tup":
        return "any"
    b = typeof(t)
    if isinstance(b, tuple):
        if b[0] in ("iter", "list", "seq", "aiter"):
            return b[1]
    if b == "str":
        return "str"
    return "any"


def fn_ret(ty):
    if isinstance(ty, tuple) and ty[0] == "fn":
        return ty[1]
    return "any"


# ------------------------------------------------------------------ integers
def lin(t):
    """(const, {atom: coef}) of an integer valued term (any term is an atom)."""
    if t[0] == "k" and t[1] == "int":
        return t[2], {}
    if t[0] == "k" and t[1] == "bool":
        return (1 if t[2] else 0), {}
    if t[0] == "op" and t[1] == "lin":
        return t[2], dict(t[3])
    return 0, {t: 1}


def mk_lin(c, co):
    co = {a: k for a, k in co.items() if k}
    if not co:
        return K(c)
    if c == 0 and len(co) == 1:
        (a, k), = co.items()
        if k == 1:
            return a
    return ("op", "lin", c, tuple(sorted(co.items(), key=repr)))


def lone(t):
    """(*xs,) is xs when xs is itself a tuple"""
    if t[0] == "tup" and len(t[1]) == 1 and t[1][0][0] == "spl":
        x = t[1][0][1]
        ty = typeof(x)
        if ty == "tuple" or isinstance(ty, tuple) and ty[0] in ("seq", "tupN"):
            return x
    return t


def lin_add(a, b, sb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sb * v
    return mk_lin(ca + sb * cb, d)


def lin_mul(a, k):
    c, d = lin(a)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def is_int(t):
    return typeof(t) in ("int", "bool")


LEN = {}          # final loop states whose length is known


def length(t):
    """Length of a sequence term as an integer term."""
    if t[0] in ("tup", "list"):
        r = K(0)
        for it in t[1]:
            r = lin_add(r, length(it[1]) if it[0] == "spl" else K(1))
        return r
    if t[0] == "k" and t[1] == "str":
        return K(len(t[2]))
    if t[0] == "fin" and t in LEN:
        return LEN[t]
    if t[0] == "op" and t[1] in ("reversed", "sorted"):
        return length(t[2])
    if t[0] == "op" and t[1] == "range" and all(is_k(x) and type(x[2]) is int for x in t[2:]) and t[4][2] != 0:
        return K(len(range(t[2][2], t[3][2], t[4][2])))
    its = range_items(t)
    if its is not None:
        return K(len(its))
    return op("len", t)


def range_items(t, most=64):
    """The elements of range(a, a + k) for a constant k, else None."""
    if t[0] == "op" and t[1] == "range" and len(t) == 5 and t[4] == K(1) and is_int(t[2]) and is_int(t[3]):
        d = lin_add(t[3], t[2], -1)
        if is_k(d) and type(d[2]) is int and d[2] <= most:
            return [lin_add(t[2], K(i)) for i in range(d[2])]
    return None


def mk_tup(items):
    out = []
    for it in items:
        if it[0] == "spl":
            x = it[1]
            if x[0] in ("tup", "list"):
                out.extend(x[1])
                continue
            if x[0] == "k" and x[1] == "str":
                out.extend(K(c) for c in x[2])
                continue
        out.append(it)
    return ("tup", tuple(out))


def subst(t, f):
    """Bottom-up rewrite; f(t) returns a replacement or None."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "k":
        return t
    new = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    if new != t:
        if new and new[0] == "op" and len(new) > 1 and new[1] == "lin":
            r = K(new[2])
            for a, k in new[3]:
                r = lin_add(r, lin_mul(a, k))
            new = r
        elif new and new[0] == "tup" and len(new) == 2:
            new = mk_tup(new[1])
        elif new and new[0] == "op" and new[1] == "len":
            new = length(new[2])
        ty = TY.get(t)
        if ty is not None:
            settype(new, ty)
    r = f(new)
    return new if r is None else r


def walk(t):
    if isinstance(t, tuple):
        yield t
        if t and t[0] == "k":
            return
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


# ------------------------------------------------------------------ intervals
FULL = ((None, None),)


def iv_inter(a, b):
    out = []
    for lo1, hi1 in a:
        for lo2, hi2 in b:
            lo = lo1 if lo2 is None else (lo2 if lo1 is None else max(lo1, lo2))
            hi = hi1 if hi2 is None else (hi2 if hi1 is None else min(hi1, hi2))
            if lo is not None and hi is not None and lo > hi:
                continue
            out.append((lo, hi))
    return tuple(sorted(set(out), key=lambda p: (p[0] is not None, p[0] or 0)))


def iv_not(a):
    out = FULL
    for lo, hi in a:
        parts = []
        if lo is not None:
            parts.append((None, lo - 1))
        if hi is not None:
            parts.append((hi + 1, None))
        out = iv_inter(out, tuple(parts)) if parts else ()
        if not out:
            return ()
    return out


def show(t, depth=0):
    """Human readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 7:
        return "..."
    d = depth + 1
    k = t[0]
    try:
        if k == "k":
            return repr(t[2])
        if k == "s":
            return t[1]
        if k == "app":
            a = ", ".join(show(x, d) for x in t[2])
            kw = ", ".join(f"{n}={show(v, d)}" for n, v in t[3])
            return f"{show(t[1], d)}({', '.join(x for x in (a, kw) if x)})" + ("" if t[4] in (0, (None, 0)) else "'")
        if k == "op":
            if t[1] == "attr":
                return f"{show(t[2], d)}.{t[3]}"
            if t[1] == "pay":
                return f"{show(t[2], d)}.{t[3]}"
            if t[1] == "item":
                return f"{show(t[2], d)}[{show(t[3], d)}]"
            if t[1] == "len":
                return f"len({show(t[2], d)})"
            if t[1] == "lin":
                return "(" + " + ".join([f"{'' if c == 1 else str(c) + '*'}{show(a, d)}" for a, c in t[3]] + ([str(t[2])] if t[2] else [])) + ")"
            return f"{t[1]}(" + ", ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[2:]) + ")"
        if k == "tup":
            return "(" + ", ".join(show(x, d) for x in t[1]) + ",)"
        if k == "list":
            return "[" + ", ".join(show(x, d) for x in t[1]) + "]"
        if k == "spl":
            return "*" + show(t[1], d)
        if k == "un":
            return f"{t[1].split('.')[-1]}({t[2]}={show(t[3], d)})"
        if k == "obj":
            return f"{t[1].split('.')[-1]}<" + ", ".join(f"{n}={show(v, d)}" for n, v in t[2]) + ">"
        if k == "elem":
            return f"each({show(t[1][2], d) if isinstance(t[1][2], tuple) else t[1][1]})" + (f"#{t[2]}" if t[2] else "")
        if k in ("st", "fin"):
            return f"{k}{t[2]}<{t[1][1]} {show(t[1][2], d) if isinstance(t[1][2], tuple) else ''}>"
        if k == "bi":
            return t[1].replace("builtins.", "")
        if k == "exn":
            return f"{show(t[1], d)}(...)"
        if k == "exsym":
            return f"exception of {show(t[1], d)}"
        if k == "cls":
            return t[1].split(".")[-1]
        if k == "rec":
            return t[1].split(":")[0].split(".")[-1]
        if k == "clo":
            return t[1].split(":")[0].split(".")[-1]
        return f"<{k}>"
    except Exception:  # pragma: no cover
        return str(t)[:80]
