"""Transfer functions of builtins, container methods and a few library calls.

Pure operations on unknown values stay symbolic terms; anything not listed here is
an opaque call whose only assumed effect is the recorded call event.
"""
from __future__ import annotations

import builtins as _b

from .interp import Act, Imprecise, OPTION, RESULT, RaiseSig, Sig, builtin_exn
from .terms import (FULL, range_items, iv_inter, S, FALSE, K, NONE, TRUE, elemtype, is_k, length, lone, lin_add, mk_tup, op, settype, typeof)

OPAQUE = ("s", "app", "op", "elem", "st", "fin")
STDLIB = "models.stdlib"


class Short(Sig):
    def __init__(self, tok, v):
        self.tok, self.v = tok, v


def call_builtin(I, name, args, kwargs):
    short = name[9:] if name.startswith("builtins.") else name
    h = TABLE.get(short)
    if h is not None:
        if any(isinstance(a, tuple) and a and a[0] == "spl" for a in args) and short not in SPLAT_OK:
            raise Imprecise(f"splat argument to {short}")
        return h(I, list(args), kwargs)
    last = short.split(".")[-1]
    if builtin_exn(last) and short == last:
        return ("exn", ("bi", name), tuple(args))
    if last in ("CancelledError", "InvalidStateError", "QueueEmpty", "QueueFull", "Empty"):
        return ("exn", ("bi", name), tuple(args))
    r = I.prog.resolve(STDLIB, short.replace(".", "__"))
    if r is None and "." not in short:
        r = I.prog.resolve(STDLIB, "builtins__" + short)
    if r is not None and r[0] in ("def", "class"):
        return I.call(I.resolved(r), args, kwargs)
    if last == "dataclass_transform":
        return ("bi", "sa.identity")
    if short.startswith(("typing.", "typing_extensions.", "abc.")):
        return op("typing", short)
    if short in EXT_CLASSES:
        n = I.st.occ.get(("ext", short), 0)
        I.st.occ[("ext", short)] = n + 1
        return I.new("ext", {"args": tuple(args), "n": n}, short)
    if short.startswith(OPAQUE_OK):
        return I.opaque_call(("bi", name), args, kwargs)
    raise Imprecise(f"no model of {short}")


OPAQUE_OK = ("asyncio.", "threading.", "time.", "object.__", "random.")
EXT_CLASSES = {"threading.RLock", "threading.Lock", "queue.SimpleQueue", "asyncio.Future", "asyncio.Event", "asyncio.Lock",
               "asyncio.Queue"}


def b_len(I, a, kw):
    v = a[0]
    if v[0] in ("tup",):
        return length(v)
    if v[0] == "k":
        if v[1] == "str":
            return K(len(v[2]))
        I.raise_("TypeError")
    if v[0] == "ref":
        r = I.rec(v)
        if r.kind == "list":
            return length(("tup", r.f["items"]))
        if r.kind == "view":
            return length(I.materialise(v))
        if r.kind == "dict":
            return length(("tup", tuple(("spl", op("keys", y)) if x == "dspl" else x for x, y in r.f["d"])))
        if r.kind == "obj" and I.prog.find_method(r.meta, "__len__"):
            return I.call(I.getattr(v, "__len__"), [], {})
        if r.kind in ("gen", "genexp", "iter"):
            I.raise_("TypeError")
        raise Imprecise(f"len of {r.kind}")
    ty = I.ty(v)
    if isinstance(ty, tuple) and ty[0] == "cls" and I.prog.find_method(ty[1], "__len__"):
        return I.call(I.getattr(v, "__len__"), [], {})
    if isinstance(ty, tuple) and ty[0] == "tupN":
        return K(len(ty[1]))
    return length(I.freeze(v))


def b_callable(I, a, kw):
    v = a[0]
    if v[0] in ("clo", "bound", "cls", "bi", "partial"):
        return TRUE
    if v[0] in ("k", "tup", "un"):
        return FALSE
    if v[0] == "ref":
        r = I.rec(v)
        return K(r.kind == "obj" and I.prog.find_method(r.meta, "__call__") is not None)
    ty = I.ty(v)
    if isinstance(ty, tuple) and ty[0] == "fn":
        return TRUE
    return K(I.fork_atom(("callable", I.freeze(v))))


def b_getattr(I, a, kw):
    v, n = a[0], a[1]
    if not (is_k(n) and isinstance(n[2], str)):
        if len(a) == 2:
            return op("getattr", I.freeze(v), I.freeze(n))
        raise Imprecise("dynamic getattr")
    if len(a) == 2:
        return I.getattr(v, n[2])
    h = I.has_attr(v, n[2])
    if h is None:
        h = I.fork_atom(("hasattr", I.freeze(v), n[2]))
    return I.getattr(v, n[2]) if h else a[2]


def b_hasattr(I, a, kw):
    v, n = a[0], a[1]
    if not (is_k(n) and isinstance(n[2], str)):
        return K(I.fork_atom(("hasattr", I.freeze(v), I.freeze(n))))
    h = I.has_attr(v, n[2])
    if h is None:
        h = I.fork_atom(("hasattr", I.freeze(v), n[2]))
    return K(h)


def b_setattr(I, a, kw):
    if not is_k(a[1]):
        raise Imprecise("dynamic setattr")
    I.setattr_(a[0], a[1][2], a[2], None)
    return NONE


def b_str(I, a, kw):
    if not a:
        return K("")
    v = a[0]
    if v[0] == "k":
        return K(str(v[2]))
    if v[0] == "ref" and I.kind(v) == "obj":
        for m in ("__str__", "__repr__"):
            if I.prog.find_method(I.rec(v).meta, m):
                return I.call(I.getattr(v, m), [], {})
    if I.ty(v) == "str" if v[0] != "ref" else False:
        return v
    ui = I.union_info(v)
    if ui and I.prog.find_method(ui[0], "__str__"):
        return I.call(I.getattr(v, "__str__"), [], {})
    if v[0] == "ref" and I.kind(v) == "obj" and I.rec(v).meta in I.prog.classes:
        return op("str", I.freeze(v))
    return op("fstr", I.freeze(v))


def b_repr(I, a, kw):
    v = a[0]
    if v[0] == "k":
        return K(repr(v[2]))
    if v[0] == "ref" and I.kind(v) == "obj" and I.prog.find_method(I.rec(v).meta, "__repr__"):
        return I.call(I.getattr(v, "__repr__"), [], {})
    ui = I.union_info(v)
    if ui and I.prog.find_method(ui[0], "__repr__"):
        return I.call(I.getattr(v, "__repr__"), [], {})
    return settype(op("repr", I.freeze(v)), "str")


def pure(name, ty=None):
    def h(I, a, kw):
        if all(is_k(x) for x in a) and not kw and name in ("int", "float", "abs", "chr", "ord", "hash"):
            try:
                return K(getattr(_b, name)(*[x[2] for x in a]))
            except Exception as e:
                I.raise_(type(e).__name__)
        t = op(name, *[I.freeze(x) for x in a], *[("kw", n, I.freeze(v)) for n, v in sorted(kw.items())])
        return settype(t, ty) if ty else t
    return h


def b_deepcopy(I, a, kw):
    memo = a[1] if len(a) > 1 else kw.get("memo")
    if memo is not None and memo != NONE:
        a, kw = (a[0], memo), {}
        if memo[0] == "ref" and I.kind(memo) == "dict":
            key = op("id", I.freeze(a[0]))
            for e in I.rec(memo).f["d"]:
                if len(e) == 2 and e[0] == key:
                    return e[1]
    else:
        a, kw = a[:1], {}
    if is_k(a[0]):
        return a[0]
    return op("deepcopy", *[I.freeze(x) for x in a])


def b_tuple(I, a, kw):
    return I.materialise(a[0]) if a else ("tup", ())


def b_list(I, a, kw):
    return I.new("list", {"items": I.materialise(a[0])[1] if a else ()})


def b_deque(I, a, kw):
    if kw or len(a) > 1:
        raise Imprecise("deque of limited length")
    return I.new("list", {"items": I.materialise(a[0])[1] if a else ()}, "deque")


def b_buffer(meta):
    def h(I, a, kw):
        return I.new("list", {"items": I.materialise(a[0])[1] if a else ()}, meta)
    return h


def b_array(I, a, kw):
    if not is_k(a[0]):
        raise Imprecise("array type code")
    return I.new("list", {"items": I.materialise(a[1])[1] if len(a) > 1 else ()}, "array:" + a[0][2])


def b_fromkeys(I, a, kw):
    its = I.materialise(a[0])[1]
    if any(i[0] == "spl" for i in its):
        raise Imprecise("dict.fromkeys")
    d = I.new("dict", {"d": ()})
    for i in its:
        I.setitem(d, i, a[1] if len(a) > 1 else NONE)
    return d


def b_dict(I, a, kw):
    d = I.new("dict", {"d": ()})
    if a:
        v = a[0]
        if v[0] == "ref" and I.kind(v) == "dict":
            I.rec(d).f["d"] = I.rec(v).f["d"]
        else:
            t = I.materialise(v)
            if any(i[0] == "spl" for i in t[1]) or kw:
                return op("dict", I.freeze(t))
            for it in t[1]:
                if it[0] != "tup" or len(it[1]) != 2:
                    it = ("tup", (op("item", it, K(0)), op("item", it, K(1))))
                I.setitem(d, it[1][0], it[1][1])
    for n, v in kw.items():
        if n == "**":
            r = I.rec(d)
            r.f["d"] = r.f["d"] + tuple(("dspl", x) for x in v)
        else:
            I.setitem(d, K(n), v)
    return d


def b_itemsview(I, a, kw):
    """the entries of the mapping, seen as a collection"""
    if len(a) == 1 and a[0][0] == "ref" and I.kind(a[0]) == "dict":
        return I.call(I.getattr(a[0], "items"), [], {})
    if len(a) == 1 and a[0][0] == "op" and a[0][1] == "dict":
        raise Imprecise("method of a built-in collection of unknown contents")
    return op("ItemsView", *[I.freeze(x) for x in a])


def b_set(I, a, kw):
    if not a:
        return I.new("set", {"items": ()})
    t = I.materialise(a[0])
    if len(t[1]) <= 1 and not any(x[0] == "spl" for x in t[1]):
        return I.new("set", {"items": t[1]})
    return op("set", I.freeze(t))


def b_range(I, a, kw):
    if any(x[0] == "spl" for x in a):
        return settype(op("rangeof", mk_tup(tuple(I.freeze(x) for x in a))), ("iter", "int"))
    a = [I.freeze(x) for x in a]
    lo, hi, st = K(0), None, K(1)
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    elif len(a) == 3:
        lo, hi, st = a
    else:
        I.raise_("TypeError")
    return op("range", lo, hi, st)


def zip_arg(I, v):
    if v[0] == "tup":
        if len(v[1]) == 1 and v[1][0][0] == "spl":
            return v[1][0][1]
        return v
    if v[0] == "ref":
        r = I.rec(v)
        if r.kind == "list":
            return zip_arg(I, ("tup", r.f["items"]))
        if r.kind == "obj":
            it = I.iter_(v)
            return zip_arg(I, it) if it != v else None
        if r.kind == "iter":
            if r.f["pos"] == K(0):
                return zip_arg(I, r.f["src"])
            return None
        if r.kind in ("gen", "genexp"):
            return None
        return None
    if v[0] in OPAQUE:
        its = range_items(v)
        if its is not None:
            return ("tup", tuple(its))
        ty = I.ty(v)
        if isinstance(ty, tuple) and ty[0] == "cls":
            it = I.iter_(v)
            return zip_arg(I, it) if it != v else None
        return v
    return None


def b_zip(I, a, kw):
    xs = [zip_arg(I, v) for v in a]
    if any(x is None for x in xs):
        # a producer on one side: its elements, in order
        if I.demand:
            raise Imprecise("demand of zip")
        xs = [x if x is not None else zip_arg(I, I.materialise(v)) for x, v in zip(xs, a)]
        if any(x is None for x in xs):
            raise Imprecise("zip")
    if all(x[0] == "tup" and not any(i[0] == "spl" for i in x[1]) for x in xs):
        if kw.get("strict", FALSE) != FALSE and len({len(x[1]) for x in xs}) > 1:
            I.raise_("ValueError")
        return I.new("iter", {"src": ("tup", tuple(("tup", p) for p in zip(*[x[1] for x in xs]))), "pos": K(0)})
    if kw.get("strict", FALSE) != FALSE:
        raise Imprecise("zip of equally long sequences")
    return I.new("iter", {"src": op("zip", *xs), "pos": K(0)})


def b_zip_longest(I, a, kw):
    if I.demand:
        raise Imprecise("demand of zip_longest")
    xs = [I.materialise(v)[1] for v in a]
    if any(i[0] == "spl" for x in xs for i in x):
        raise Imprecise("zip_longest")
    import itertools
    return I.new("iter", {"src": ("tup", tuple(("tup", p) for p in itertools.zip_longest(*xs, fillvalue=kw.get("fillvalue", NONE)))), "pos": K(0)})


def b_reversed(I, a, kw):
    v = a[0]
    if v[0] == "ref" and I.kind(v) == "obj":
        if I.prog.find_method(I.rec(v).meta, "__reversed__"):
            return I.call(I.getattr(v, "__reversed__"), [], {})
        if I.prog.find_method(I.rec(v).meta, "__len__") and I.prog.find_method(I.rec(v).meta, "__getitem__"):
            v = I.materialise(v)       # sequence protocol
        else:
            I.raise_("TypeError")
    t = I.mk_reversed(v if v[0] in OPAQUE else I.seq_view(v))
    return I.new("iter", {"src": t, "pos": K(0)})


def b_sorted(I, a, kw):
    t = I.freeze(I.materialise(a[0]))
    if not kw and not any(i[0] == "spl" for i in t[1]):
        lead = [i[1][0] if i[0] == "tup" and i[1] else i for i in t[1]]
        if all(is_k(x) and isinstance(x[2], (int, str)) for x in lead) and len({x[2] for x in lead}) == len(lead) and len({type(x[2]) for x in lead}) <= 1:
            return I.new("list", {"items": tuple(i for _, i in sorted(zip([x[2] for x in lead], t[1]), key=lambda p: p[0]))})
    rest = tuple(sorted((n, I.freeze(v)) for n, v in kw.items() if not (n == "reverse" and v == FALSE) and not (n == "key" and v == NONE)))
    if not any(n == "key" for n, _ in rest):
        if len(t[1]) == 0 or len(t[1]) == 1 and t[1][0][0] != "spl":
            return I.new("list", {"items": t[1]})
        if len(t[1]) == 1 and t[1][0][1][:2] == ("op", "sorted") and t[1][0][1][3] == rest:
            return I.new("list", {"items": t[1]})
    so = settype(op("sorted", t, rest), "tuple")
    x = ("tup", (("spl", so),))
    if I.peel is not None and is_k(length(t)):
        x = ("tup", tuple(op("item", so, K(i)) for i in range(length(t)[2])))
    return I.new("list", {"items": x[1]})


def minmax(name):
    def h(I, a, kw):
        t = I.freeze(I.materialise(a[0])) if len(a) == 1 else ("tup", tuple(I.freeze(x) for x in a))
        if "default" in kw:
            raise Imprecise("min/max default")
        rest = tuple(sorted((n, I.freeze(v)) for n, v in kw.items() if v != NONE))
        if t[0] == "tup":
            if not I.truthy(t):
                I.raise_("ValueError")
            if len(t[1]) == 1 and t[1][0][0] != "spl":
                return t[1][0]
        if len(a) == 2 and not rest and all(is_k(x) for x in a):
            return K(getattr(_b, name)(a[0][2], a[1][2]))
        if len(a) > 1 and not rest and t[0] == "tup" and len(t[1]) == len(a) and all(x[0] != "spl" and typeof(x) in ("int", "bool") for x in t[1]):
            cur = t[1][0]
            for x in t[1][1:]:
                if I.compare_op(">" if name == "max" else "<", x, cur):
                    cur = x
            return cur
        r = op(name, t, rest)
        if t[0] == "tup" and t[1] and all(x[0] != "spl" and typeof(x) == "int" for x in t[1]):
            settype(r, "int")
        return r
    return h


def b_iter(I, a, kw):
    if len(a) != 1:
        raise Imprecise("iter with sentinel")
    return I.iter_(a[0])


def b_aiter(I, a, kw):
    v = a[0]
    if v[0] == "ref" and I.kind(v) == "obj" and I.prog.find_method(I.rec(v).meta, "__aiter__"):
        return I.call(I.getattr(v, "__aiter__"), [], {})
    return I.iter_(v)


def b_anext(I, a, kw):
    v = a[0]
    if v[0] == "ref" and I.kind(v) == "obj":
        return I.call(I.getattr(v, "__anext__"), [], {})
    return I.new("anext", {"it": v}, (a[1], True) if len(a) > 1 else ())


def b_next(I, a, kw):
    return I.next_(a[0], a[1] if len(a) > 1 else None, len(a) > 1)


def b_type(I, a, kw):
    v = a[0]
    if len(a) != 1:
        raise Imprecise("type()")
    if v[0] == "un":
        return ("cls", v[1])
    if v[0] == "ref" and I.kind(v) == "obj":
        return ("cls", I.rec(v).meta)
    if v[0] == "ref" and I.kind(v) in ("list", "dict", "set"):
        return ("bi", "builtins." + I.kind(v))
    if v[0] == "k":
        return ("bi", "builtins." + v[1])
    if v[0] == "tup":
        return ("bi", "builtins.tuple")
    if v[0] == "exn":
        return v[1]
    return op("typeof", I.freeze(v))


def b_bool(I, a, kw):
    return K(I.truthy(a[0])) if a else FALSE


def b_partial(I, a, kw):
    return ("partial", a[0], tuple(a[1:]), tuple(kw.items()))


def b_isgen(I, a, kw):
    v = a[0]
    if v[0] == "ref":
        return K(I.kind(v) in ("gen", "genexp") and not (I.rec(v).meta or {}).get("async"))
    if v[0] in ("k", "tup", "un", "clo"):
        return FALSE
    if I.union_info(v) or I.ty(v) in ("int", "str", "bool", "float", "tuple", "list", "dict", "none"):
        return FALSE
    return K(I.fork_atom(("isgen", I.freeze(v))))


def b_isagen(I, a, kw):
    v = a[0]
    if v[0] == "ref":
        return K(I.kind(v) == "gen" and bool((I.rec(v).meta or {}).get("async")))
    if v[0] in ("k", "tup", "un", "clo"):
        return FALSE
    if I.union_info(v) or I.ty(v) in ("int", "str", "bool", "float", "tuple", "list", "dict", "none"):
        return FALSE
    return K(I.fork_atom(("isasyncgen", I.freeze(v))))


def atom(name, kinds=()):
    def h(I, a, kw):
        v = a[0]
        if v[0] == "ref":
            return K(I.kind(v) in kinds)
        if v[0] in ("k", "tup", "un"):
            return FALSE
        if name in ("iscoro", "isaw") and (I.ty(v) in ("int", "str", "bool", "float", "tuple", "list", "dict", "none") or name == "iscoro" and I.union_info(v)):
            return FALSE
        return K(I.fork_atom((name, I.freeze(v))))
    return h


def b_iscorofn(I, a, kw):
    v = a[0]
    if v[0] == "clo":
        return K(I.fid[v[1]].is_async)
    if v[0] in OPAQUE:
        ty = I.ty(v)
        if isinstance(ty, tuple) and ty[0] == "fn":
            return K(isinstance(ty[1], tuple) and ty[1][0] == "aw")
    return K(I.fork_atom(("iscorofn", I.freeze(v))))


def b_isinstance(I, a, kw):
    return K(I.isinstance_(a[0], a[1]))


def b_issubclass(I, a, kw):
    if a[0][0] == "cls" and a[1][0] == "cls":
        return K(I.prog.is_subclass(a[0][1], a[1][1]))
    return K(I.fork_atom(("issubclass", I.freeze(a[0]), I.freeze(a[1]))))


def b_assume(I, a, kw):
    """Spec intrinsic: partitions in which the condition is false are impossible."""
    from .interp import Infeasible
    if not I.truthy(a[0]):
        raise Infeasible
    return NONE


def b_opaque(I, a, kw):
    """Spec intrinsic: an uninterpreted function of the arguments."""
    import ast as _ast
    t = op("fn", a[0][2], *[lone(I.freeze(x)) for x in a[2:]])
    if t in I.st.defs:
        return renewed(I, I.st.defs[t])
    settype(t, I.types.annot(I.spec_mod, _ast.parse(a[1][2], mode="eval").body))
    return I.expand(t)


def renewed(I, v):
    """A defined value, with parts that stood for arbitrary values taken anew (more may be known of them)."""
    if v[0] != "tup":
        return v
    out = []
    for x in v[1]:
        if x[0] == "spl" and x[1][0] == "op" and x[1][1] == "fn" and len(x[1]) == 4 and x[1] not in I.st.defs:
            r = I.prog.resolve(I.spec_mod, x[1][2])
            if r and r[0] == "def":
                x = ("spl", I.call(I.resolved(r), [x[1][3]], {}))
        out.append(x)
    return mk_tup(out)


def b_define(I, a, kw):
    t = op("fn", a[0][2], *[lone(I.freeze(x)) for x in a[2:]])
    I.st.defs.setdefault(t, a[1])
    return NONE


def b_defined(I, a, kw):
    return K(op("fn", a[0][2], *[lone(I.freeze(x)) for x in a[1:]]) in I.st.defs)


def b_shape_known(I, a, kw):
    """Spec intrinsic: is the case of this value (and the class of its payload) known on this path?"""
    v = a[0]
    if v[0] in ("un", "ref", "k", "tup"):
        return K(True)
    tag = I.st.facts.get(("tag", v))
    if tag is None:
        return K(False)
    if len(a) < 2 or tag == "none":
        return K(True)
    return K(("isinst", I.payload(v, tag), a[1][1]) in I.st.facts)


def b_known_nonempty(I, a, kw):
    v = a[0]
    if v[0] == "ref" and I.kind(v) == "list":
        v = ("tup", I.rec(v).f["items"])
    if v[0] == "tup":
        return K(bool(v[1]) and v[1][0][0] != "spl")
    return K(False)


def b_known_empty(I, a, kw):
    v = a[0]
    if v[0] == "ref" and I.kind(v) == "list":
        v = ("tup", I.rec(v).f["items"])
    c, items, sgn = I.form(length(v), K(0))
    if items is None:
        return K(c == 0)
    return K(I.st.facts.get(("lin", items)) == ((-c * sgn, -c * sgn),))


def b_known_zero(I, a, kw):
    c, items, sgn = I.form(a[0], K(0))
    if items is None:
        return K(c == 0)
    key = ("lin", items)
    cur = iv_inter(I.st.facts.get(key, FULL), ((1 - c, None),) if sgn == 1 else ((None, c - 1),))
    return K(not cur or not I.possible(key, cur))


def b_require(I, a, kw):
    if not I.truthy(a[0]):
        raise Imprecise("the obligation does not apply to code of this form")
    return NONE


def b_is_opaque(I, a, kw):
    return K(a[0][0] in ("op", "app", "s"))


def b_sealed(I, a, kw):
    """Spec intrinsic: the object exists before the operation under analysis."""
    seen = set()

    def mark_ref(n):
        if n in seen:
            return
        seen.add(n)
        r = I.st.heap[n]
        if r.kind in ("gen", "genexp", "iter", "coro"):
            return
        if r.kind == "frame":
            mod = r.meta["qual"]
            if mod.startswith("specs."):
                return
            if r.meta["parent"] is not None:
                mark_ref(r.meta["parent"])
        r.pre = True
        for x in r.f.values():
            mark(x)

    def mark(v):
        if not isinstance(v, tuple) or not v:
            return
        if len(v) == 2 and v[0] == "ref":
            mark_ref(v[1])
            return
        if v[0] == "clo" and isinstance(v[2], int):
            mark_ref(v[2])
        for x in v:
            if isinstance(x, tuple):
                mark(x)
    mark(a[0])
    return a[0]


def _refs(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "ref":
            yield t
            return
        for x in t:
            if isinstance(x, tuple):
                yield from _refs(x)


def ident(i):
    def h(I, a, kw):
        return a[i]
    return h


def b_wraps(I, a, kw):
    return ("bi", "sa.identity")


def noop(I, a, kw):
    return NONE


def b_obj_setattr(I, a, kw):
    """object.__setattr__: the plain store, whatever the class defines"""
    if not is_k(a[1]):
        return NONE if I.opaque_call(S("object.__setattr__"), a[1:], {}) else NONE
    I.setattr_(a[0], a[1][2], a[2], None, raw=True)
    return NONE


def b_obj_delattr(I, a, kw):
    if not is_k(a[1]):
        return NONE if I.opaque_call(S("object.__delattr__"), a[1:], {}) else NONE
    I.delattr_(a[0], a[1][2], raw=True)
    return NONE


def b_fields(I, a, kw):
    d = I.getattr(a[0], "__dataclass_fields__")
    if d[0] == "ref" and I.kind(d) == "dict":
        return dict_method(I, "values", d, [], {})
    return op("values", I.freeze(d))


def same(I, t):
    """representative of t modulo the equalities known in this partition"""
    if t[0] == "tup":
        return ("tup", tuple(same(I, x) for x in t[1]))
    if t[0] == "spl":
        return ("spl", same(I, t[1]))
    if t[0] == "un":
        return t[:3] + (same(I, t[3]),)
    seen, work = {t}, [t]
    while work:
        x = work.pop()
        for a, v in I.st.facts.items():
            if a[0] == "lin" and v == ((0, 0),) and a[1] is not None and len(a[1]) == 2 and {k for _, k in a[1]} == {1, -1}:
                ms = [m for m, _ in a[1]]
                if x in ms:
                    for m in ms:
                        if m not in seen:
                            seen.add(m)
                            work.append(m)
    return min(seen, key=repr)


def b_hash(I, a, kw):
    v = a[0]
    if v[0] == "ref" and I.rec(v).kind == "obj":
        m = I.class_member(I.rec(v).meta, "__hash__", v)
        if m is not None:
            return I.call(m, [], {})
    if v[0] == "ref" and I.rec(v).kind in ("list", "dict", "set"):
        I.raise_("TypeError")
    ui = I.union_info(v)
    if ui:
        if not I.prog.union_flag(ui[0], "frozen"):
            I.raise_("TypeError")
        tg = I.tag_of(v)
        v = ("tup", (K(ui[0]), K(tg), I.payload(v, tg)))
    t = op("hash", same(I, I.freeze(v)))
    settype(t, "int")
    return t


def b_new(I, a, kw):
    if len(a) == 1 and a[0][0] == "cls":
        return I.new("obj", {}, a[0][1])
    raise Imprecise("object.__new__")


def b_pairwise(I, a, kw):
    x = zip_arg(I, a[0])
    if x is None:
        if I.demand:
            raise Imprecise("demand of pairwise")
        x = zip_arg(I, I.materialise(a[0]))
    if x[0] == "tup" and not any(i[0] == "spl" for i in x[1]):
        return ("tup", tuple(("tup", p) for p in zip(x[1], x[1][1:])))
    return I.new("iter", {"src": op("pairwise", x), "pos": K(0)})


def b_print(I, a, kw):
    I.opaque_call(("bi", "builtins.print"), a, kw)
    return NONE


def b_concurrently(I, a, kw):
    """run a[0]() while a[1]() runs as another thread or task at an arbitrary moment"""
    I.st.ghost["other"] = a[1]
    r = I.call(a[0], [], {})
    if r[0] == "ref" and I.kind(r) == "coro":
        r = I.await_(r)
    if I.st.ghost.get("other") is not None:
        I.run_other()
    return r


def b_interleaved(I, a, kw):
    I.st.ghost["tasks"] = True
    return b_concurrently(I, a, kw)


def b_elsewhere(I, a, kw):
    """run a[0]() in another thread than the one of the event loop"""
    I.st.ghost["foreign"] = True
    try:
        return I.call(a[0], [], {})
    finally:
        I.st.ghost["foreign"] = False


def b_wake(I, a, kw):
    """something was put in the queue of the event loop: only call_soon_threadsafe wakes the loop from another thread"""
    g = I.st.ghost
    if not g.get("foreign") or a[0] == TRUE:
        g["stuck"] = False
    elif len(I.rec(I.rec(g["loop"]).f["ready"]).f["items"]) == 1:
        g["stuck"] = True
    return NONE


def b_lock_held(I, a, kw):
    return K(bool(I.st.ghost.get("held")))


def b_held(d):
    def f(I, a, kw):
        g = I.st.ghost
        if d > 0 and not g.get("held"):
            I.sched_point()
        g = I.st.ghost
        g["held"] = g.get("held", 0) + d
        if g["held"] < 0:
            I.raise_("RuntimeError")
        if not g["held"]:
            I.sched_point()
        return NONE
    return f


def b_point(I, a, kw):
    I.sched_point()
    return NONE


def module_level(I):
    """references of the objects reachable from the module level of the library"""
    seen, work = set(), list(I.st.globals.values())
    while work:
        v = work.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if v[0] == "ref":
            if v not in seen:
                seen.add(v)
                work.extend(I.st.heap[v[1]].f.values())
        else:
            work.extend(x for x in v if isinstance(x, tuple))
    return seen


def b_retained(I, a, kw):
    return K(a[0] in module_level(I))


def b_tasks_retained(I, a, kw):
    return K(sum(1 for r in module_level(I) if I.kind(r) == "obj" and I.rec(r).meta == STDLIB + ".asyncio__Task"))


def b_loop(I, a, kw):
    if I.st.ghost.get("loop") is None:
        I.st.ghost["loop"] = I.call(I.resolved(I.prog.resolve(STDLIB, "sa_Loop")), [], {})
    return I.st.ghost["loop"]


def b_current(I, a, kw):
    return NONE if I.task is None else I.task.ref


def b_spawn(I, a, kw):
    I.spawn(a[0], a[1])
    return NONE


def b_step(I, a, kw):
    kind, v = I.step_task(a[0], I.truthy(a[1]))
    return ("tup", (K(kind), v))


def b_run_loop(I, a, kw):
    I.drain()
    return NONE


TABLE = {
    "specs.lib.run_loop": b_run_loop, "models.stdlib.sa_drain": b_run_loop, "models.stdlib.sa_loop": b_loop, "models.stdlib.sa_spawn": b_spawn, "models.stdlib.sa_current": b_current, "models.stdlib.sa_step": b_step,
    "specs.lib.concurrently": b_concurrently, "specs.lib.interleaved": b_interleaved, "specs.lib.lock_held": b_lock_held, "specs.lib.elsewhere": b_elsewhere, "models.stdlib.sa_wake": b_wake, "specs.lib.retained": b_retained, "specs.lib.tasks_retained": b_tasks_retained,
    "models.stdlib.sa_acquired": b_held(1), "models.stdlib.sa_released": b_held(-1), "models.stdlib.sa_point": b_point,
    "len": b_len, "callable": b_callable, "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "str": b_str,
    "repr": b_repr, "hash": b_hash, "int": pure("int", "int"), "float": pure("float", "float"),
    "abs": pure("abs"), "ord": pure("ord", "int"), "chr": pure("chr", "str"), "id": pure("id", "int"), "tuple": b_tuple,
    "list": b_list, "collections.deque": b_deque, "dict": b_dict, "dict.fromkeys": b_fromkeys, "set": b_set, "frozenset": pure("frozenset"), "range": b_range, "zip": b_zip, "itertools.zip_longest": b_zip_longest,
    "reversed": b_reversed, "sorted": b_sorted, "max": minmax("max"), "min": minmax("min"), "iter": b_iter, "next": b_next, "aiter": b_aiter, "anext": b_anext,
    "type": b_type, "bool": b_bool, "functools.partial": b_partial, "functools.wraps": b_wraps, "functools.update_wrapper": ident(0), "typing.cast": ident(1),
    "typing_extensions.cast": ident(1), "sa.identity": ident(0), "inspect.isgenerator": b_isgen,
    "inspect.iscoroutine": atom("iscoro", ("coro",)), "inspect.isasyncgen": b_isagen,
    "inspect.isawaitable": atom("isaw", ("coro",)), "inspect.iscoroutinefunction": b_iscorofn,
    "asyncio.iscoroutinefunction": b_iscorofn, "isinstance": b_isinstance, "issubclass": b_issubclass, "object": lambda I, a, kw: I.new("ext", {"args": (), "n": None}, "object"),
    "object.__init__": noop, "object.__setattr__": b_obj_setattr, "object.__delattr__": b_obj_delattr, "object.__new__": b_new, "bytearray": b_buffer("bytearray"), "array.array": b_array, "bytes": pure("bytes"),
    "itertools.pairwise": b_pairwise, "print": b_print, "copy.deepcopy": b_deepcopy, "copy.copy": pure("copy"),
    "slice": lambda I, a, kw: op("sliceobj", *( [NONE, a[0], NONE] if len(a) == 1 else (a + [NONE])[:3])),
    "specs.lib.sealed": b_sealed, "specs.lib.assume": b_assume, "specs.lib.opaque": b_opaque, "specs.lib.define": b_define,
    "specs.lib.defined": b_defined, "specs.lib.known_nonempty": b_known_nonempty, "specs.lib.is_opaque": b_is_opaque, "specs.lib.known_zero": b_known_zero, "specs.lib.require": b_require, "specs.lib.known_empty": b_known_empty, "specs.lib.shape_known": b_shape_known, "dataclasses.fields": b_fields, "dataclasses.field": lambda I, a, kw: op("field", *[x for n in sorted(kw) if n != "**" for x in (K(n), I.freeze(kw[n]))]),
    "collections.abc.ItemsView": b_itemsview, "operator.add": lambda I, a, kw: I.binop(__import__("ast").Add(), a[0], a[1]),
}
SPLAT_OK = {"range", "functools.partial"}


# ------------------------------------------------------------------ methods
def call_method(I, name, v, args, kwargs):
    kind, meth = name.split(".", 1)
    if kind == "model":
        return effect_contract(I, meth, v, args, kwargs)
    if kind == "list":
        return list_method(I, meth, v, args, kwargs)
    if kind == "dict":
        return dict_method(I, meth, v, args, kwargs)
    if kind == "str":
        return str_method(I, meth, v, args, kwargs)
    if kind == "tuple":
        return tuple_method(I, meth, v, args, kwargs)
    if kind in ("gen", "genexp", "iter"):
        if meth == "__next__":
            return I.next_(v)
        if meth in ("__iter__", "__aiter__"):
            return I.iter_(v)
        if kind == "gen" and meth in ("send", "throw") and args and I.rec(v).f["state"] in ("new", "thread", "done") and I.nesting == 1 and I.scope is None:
            if meth == "send":
                return I.step_gen(v, args[0])
            e = args[0]
            return I.step_gen(v, throw=e if e[0] in ("exn", "exsym") else I.call(e, list(args[1:2]), {}))
        if kind == "gen" and meth in ("asend", "athrow") and len(args) == 1 and I.rec(v).f["state"] in ("new", "thread", "done") and I.nesting == 1 and I.scope is None:
            return I.new("anext", {"it": v, meth: args[0]}, ())
        if meth == "__anext__" or meth == "asend" and len(args) == 1 and args[0] == NONE:
            return I.new("anext", {"it": v}, ())
        if meth == "send" and len(args) == 1 and args[0] == NONE:
            return I.next_(v)
        if kind == "gen" and meth == "close" and I.rec(v).f["state"] == "thread":
            exit_ = ("exn", ("bi", "builtins.GeneratorExit"), ())
            try:
                I.step_gen(v, throw=exit_)
            except RaiseSig as s:
                if s.exn == exit_ or s.exn[0] == "exn" and "StopIteration" in I.exn_mro(s.exn[1]):
                    return NONE
                raise
            I.raise_("RuntimeError")
        if meth == "close" and kind != "iter":
            I.rec(v).f["state"] = "done"
            return NONE
        raise Imprecise(f"generator method {meth}")
    if kind == "set":
        return set_method(I, meth, v, args, kwargs)
    if kind == "ext":
        return I.opaque_call(op("attr", I.freeze(v), meth), args, kwargs)
    if kind == "super":
        if meth == "__init__":
            return NONE
        if meth in ("__setattr__",):
            return b_setattr(I, [v] + list(args), kwargs)
        raise Imprecise(f"super().{meth}")
    if kind == "inherited":
        return inherited(I, meth, v, args, kwargs)
    raise Imprecise(f"method {name}")


def inherited(I, meth, v, args, kwargs):
    q = I.rec(v).meta
    if I.prog.find_method(q, "__getitem__") or I.prog.find_method(q, "__iter__"):
        r = I.prog.resolve(STDLIB, "Mixin__" + meth)
        if r is not None:
            return I.call(I.resolved(r), [v] + list(args), kwargs)
    return I.opaque_call(op("attr", I.freeze(v), meth), args, kwargs)


def list_method(I, meth, v, args, kwargs):
    r = I.rec(v)
    items = r.f["items"]

    def put(new):
        if r.pre:
            I.event(("mutate", "list." + meth))
        I.rec(v).f["items"] = new
        return NONE
    if r.meta == "deque" and meth in ("popleft", "appendleft"):
        return list_method(I, "pop", v, [K(0)], {}) if meth == "popleft" else put((args[0],) + items)
    if meth == "append":
        return put(items + (args[0],))
    if meth == "extend":
        t = I.materialise(args[0])
        items = I.rec(v).f["items"]
        return put(items + t[1])
    if meth == "insert" and is_k(args[0]) and args[0][2] == 0:
        return put((args[1],) + items)
    if meth == "insert":
        nospl = not any(x[0] == "spl" for x in items)
        if nospl and is_k(args[0]):
            its = list(items)
            its.insert(args[0][2], args[1])
            return put(tuple(its))
        lo = I.as_items(I.slice(("tup", items), NONE, args[0], NONE))
        hi = I.as_items(I.slice(("tup", items), args[0], NONE, NONE))
        return put(lo + (args[1],) + hi)
    if meth == "clear":
        return put(())
    if meth == "copy":
        return I.new("list", {"items": items}, r.meta)
    if meth == "tolist":
        return I.new("list", {"items": items})
    if meth == "reverse":
        return put(I.mk_reversed(("tup", items))[1])
    if meth == "pop":
        i = args[0] if args else K(-1)
        if not I.truthy(("tup", items)):
            I.raise_("IndexError")
        if is_k(i) and i[2] in (-1, 0) and items:
            e = items[i[2]]
            if e[0] != "spl":
                put(items[:-1] if i[2] == -1 else items[1:])
                return e
            if len(items) == 1:
                x = I.item(("tup", items), i)
                put(I.slice(("tup", items), NONE if i[2] else K(1), K(-1) if i[2] else NONE, NONE)[1])
                return x
        if I.ty(i) == "int" and not r.pre:
            x = I.item(("tup", items), i)
            I.delitem(v, i)
            return x
        raise Imprecise("list.pop")
    if meth == "sort":
        t = b_sorted(I, [("tup", items)], kwargs)
        return put(I.rec(t).f["items"])
    if meth == "__len__":
        return length(("tup", items))
    if meth == "__iter__":
        return I.iter_(v)
    if meth in ("index", "count"):
        return settype(op("list." + meth, I.freeze(v), *[I.freeze(a) for a in args]), "int")
    raise Imprecise("list." + meth)


def set_method(I, meth, v, args, kwargs):
    r = I.rec(v)
    items = r.f["items"]
    known = not any(x[0] == "spl" for x in items)

    def put(new):
        if r.pre and not I.globals_ok:
            I.event(("mutate", "set." + meth))
        I.rec(v).f["items"] = new
        return NONE
    if meth == "add":
        if known and args[0] in items:
            return NONE
        return put(items + (args[0],))
    if meth in ("discard", "remove") and known:
        for n, x in enumerate(items):
            if x == args[0] or I.eq_decide(x, args[0]):
                return put(items[:n] + items[n + 1:])
        if meth == "remove":
            I.raise_("KeyError")
        return NONE
    if meth == "clear":
        return put(())
    if meth == "copy":
        return I.new("set", {"items": items}, r.meta)
    if meth == "__contains__":
        return K(I.contains(args[0], v))
    return I.opaque_call(op("attr", I.freeze(v), meth), args, kwargs)


def view_items(d, meth):
    if meth == "items":
        return ("tup", tuple(("spl", op("items", b)) if a == "dspl" else ("tup", (a, b)) for a, b in d))
    if meth == "values":
        return ("tup", tuple(("spl", op("values", b)) if a == "dspl" else b for a, b in d))
    return ("tup", tuple(("spl", op("keys", b)) if a == "dspl" else a for a, b in d))


def dict_method(I, meth, v, args, kwargs):
    r = I.rec(v)
    if isinstance(r.meta, tuple) and r.meta[:1] == ("vars",):
        if meth in ("pop", "clear", "popitem"):
            raise Imprecise("__dict__")
        r.f["d"] = tuple((K(n), x) for n, x in I.rec(r.meta[1]).f.items())
    d = r.f["d"]
    if meth in ("items", "values", "keys"):
        if I.live and not any(a == "dspl" for a, _ in d):
            return I.new("view", {"of": v}, meth)
        return view_items(d, meth)
    if meth == "copy":
        return I.new("dict", {"d": d})
    if meth in ("get", "pop", "setdefault"):
        dflt = args[1] if len(args) > 1 else NONE
        for n, (a, b) in enumerate(d):
            if a == "dspl":
                raise Imprecise("dict." + meth)
            if a == args[0] or I.eq_decide(a, args[0]):
                if meth == "pop":
                    if r.pre:
                        I.event(("mutate", "dict.pop"))
                    I.rec(v).f["d"] = d[:n] + d[n + 1:]
                return b
        if meth == "pop" and len(args) < 2:
            I.raise_("KeyError")
        if meth == "setdefault":
            I.setitem(v, args[0], dflt)
        return dflt
    if meth == "update" and len(args) <= 1 and all(x[0] == "ref" and I.kind(x) == "dict" for x in args) and "**" not in kwargs:
        for a, b in [ab for x in args for ab in I.rec(x).f["d"]] + [(K(n), x) for n, x in kwargs.items()]:
            if a == "dspl":
                raise Imprecise("dict.update")
            I.setitem(v, a, b)
        return NONE
    if meth == "clear":
        if r.pre:
            I.event(("mutate", "dict.clear"))
        I.rec(v).f["d"] = ()
        return NONE
    raise Imprecise("dict." + meth)


def str_method(I, meth, v, args, kwargs):
    if is_k(v) and all(is_k(a) for a in args) and not kwargs:
        try:
            r = getattr(v[2], meth)(*[a[2] for a in args])
        except Exception as e:
            I.raise_(type(e).__name__)
        if isinstance(r, (str, int, bool)):
            return K(r)
        if isinstance(r, list):
            return I.new("list", {"items": tuple(K(x) for x in r)})
    if meth == "join":
        its = I.materialise(args[0])[1]
        if v == K(""):
            its = tuple(x for x in its if x != K(""))
            if its and all(x[0] != "spl" and typeof(x) == "str" for x in its):
                return I.mk_fstr(list(its)) if len(its) > 1 else its[0]
        if is_k(v) and all(is_k(x) and isinstance(x[2], str) for x in its):
            return K(v[2].join(x[2] for x in its))
        if all(x[0] != "spl" and typeof(x) == "str" for x in its):
            return I.mk_fstr([y for n, x in enumerate(its) for y in ((v, x) if n else (x,))])
        return settype(op("join", I.freeze(v), I.freeze(("tup", its))), "str")
    ty = "bool" if meth.startswith(("is", "starts", "ends")) else ("int" if meth in ("find", "index", "count") else "str")
    t = op("str." + meth, I.freeze(v), *[I.freeze(a) for a in args])
    settype(t, ty)
    if ty == "bool":
        return K(I.fork_atom(("truthy", t)))
    return t


def tuple_method(I, meth, v, args, kwargs):
    if meth == "__len__":
        return length(v)
    if meth == "__iter__":
        return I.iter_(v)
    if meth == "__getitem__":
        return I.item(v, args[0])
    if meth in ("index", "count") and v[0] == "tup" and len(args) == 1 and not any(x[0] == "spl" for x in v[1]):
        n = 0
        for i, x in enumerate(v[1]):
            if I.eq_decide(x, args[0]):
                if meth == "index":
                    return K(i)
                n += 1
        if meth == "index":
            I.raise_("ValueError")
        return K(n)
    return op("tuple." + meth, I.freeze(v), *[I.freeze(a) for a in args])


# ------------------------------------------------------------------ computation expressions by contract
def effect_contract(I, which, fn, args, kwargs):
    """Contract of a computation-expression builder (decided by the builder property):
    ``yield from m`` continues with the carried value or ends with m's failure;
    ``yield x`` records x; the result is success of the returned / last value."""
    kind = which.split(".")[-1]
    q = RESULT if kind == "result" else OPTION
    good = "ok" if kind == "result" else "some"
    g = I.call(fn, args, kwargs)
    if not (g[0] == "ref" and I.kind(g) == "gen"):
        if g == NONE:
            raise Imprecise("builder zero")
        return ("un", q, good, g)
    r = I.rec(g)
    r.f["state"] = "done"
    src = r.meta["act"]
    act = Act(src.frame, src.fi, src.cls, src.mod, selfv=src.selfv)
    tok = object()
    cell = I.new("cell", {"last": NONE, "any": FALSE})

    def on_yield(x):
        I.rec(cell).f["last"] = x
        I.rec(cell).f["any"] = TRUE
        return x

    def delegate(m):
        ui = I.union_info(m)
        if not ui:
            raise Imprecise("yield from a non union in a computation")
        t = I.tag_of(m)
        if t in ("ok", "some"):
            return I.payload(m, t)
        raise Short(tok, ("un", ui[0], t, I.payload(m, t)))
    on_yield.delegate = delegate
    act.on_yield = on_yield
    fi = r.meta["fi"]
    try:
        out = I.run_body(fi, act, (I._keys[id(fi.node)], ("ref", src.frame)), {})
    except Short as s:
        if s.tok is tok:
            return s.v
        raise
    if out != NONE:
        return ("un", q, good, out)
    f = I.rec(cell).f
    if f["any"] == TRUE:
        return ("un", q, good, f["last"])
    raise Imprecise("computation without a value")
