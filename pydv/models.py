"""Models of the built-in types and functions the code uses. Whatever isn't modelled and only gets concrete arguments is
simply called."""
import builtins
import copy
import enum
import functools
import inspect
import math
import re
import itertools
import types
from decimal import Decimal

import attr
import z3

from pydv import text
from pydv.engine import INTERPRETED, is_attrs_method, is_interpreted
from pydv.values import *  # noqa


# Construction ---------------------------------------------------------------------------------------------------------
def construct(eng, cls, args, kwargs):
    if cls in BUILTIN_TYPES:
        return BUILTIN_TYPES[cls](eng, args, kwargs)
    if issubclass(cls, enum.Enum):
        v = eng.norm(args[0])
        if isinstance(v, SText):
            for m in cls:
                if eng.truth(eng.eq(v, m.value)):
                    return m
            raise PyRaise(ValueError(repr(v)))
        return concrete(eng, cls, args, kwargs)
    if issubclass(cls, BaseException):
        return cls(*[a if eng.is_plain_deep(a) else repr(a) for a in args])
    if cls.__module__.startswith(INTERPRETED) or getattr(cls, "__pydv_interpret__", False):
        if inspect.isabstract(cls):
            raise PyRaise(TypeError(f"Can't instantiate abstract class {cls.__name__}"))
        if attr.has(cls) and is_attrs_method(cls.__dict__.get("__init__", cls.__init__)):
            return attrs_construct(eng, cls, args, kwargs)
        obj = object.__new__(cls)
        eng.born(obj)
        init = inspect.getattr_static(cls, "__init__", None)
        if isinstance(init, types.FunctionType):
            if not is_interpreted(init):
                return concrete(eng, cls, args, kwargs)
            eng.call(init, [obj] + list(args), kwargs)
        return obj
    return concrete(eng, cls, args, kwargs)


def convert(eng, converter, v):
    if isinstance(converter, types.FunctionType) and converter.__module__.startswith("attr"):
        inner = inspect.getclosurevars(converter).nonlocals.get("converter")
        if inner is None:
            raise Unsupported("an attrs converter")
        return None if eng.is_none(v) else convert(eng, inner, v)
    return eng.call(converter, [v])


def bind_fields(cls, args, kwargs):
    given, values = list(args), {}
    kw = dict(kwargs)
    init = [f for f in attr.fields(cls) if f.init]
    for f in init:
        if not f.kw_only and given:
            values[f.name] = given.pop(0)
    if given:
        raise PyRaise(TypeError(f"{cls.__name__}: too many arguments"))
    for f in init:
        alias = f.name.lstrip("_")
        if alias in kw:
            if f.name in values:
                raise PyRaise(TypeError(f"{cls.__name__}: multiple values for {alias}"))
            values[f.name] = kw.pop(alias)
    if kw:
        raise PyRaise(TypeError(f"{cls.__name__}: unexpected {sorted(kw)}"))
    for f in init:
        if f.name not in values and f.default is attr.NOTHING:
            raise PyRaise(TypeError(f"{cls.__name__}: missing {f.name}"))
    return values


def attrs_construct(eng, cls, args, kwargs):
    obj = object.__new__(cls)
    eng.born(obj)
    return attrs_fill(eng, obj, cls, args, kwargs)


def attrs_fill(eng, obj, cls, args, kwargs):
    values = bind_fields(cls, args, kwargs)
    for f in attr.fields(cls):
        if f.name in values:
            v = values[f.name]
        elif f.default is attr.NOTHING:
            continue
        elif isinstance(f.default, attr.Factory):
            v = eng.call(f.default.factory, [obj] if f.default.takes_self else [])
        else:
            v = f.default
        if f.converter is not None:
            v = convert(eng, f.converter, v)
        if f.validator is not None:
            raise Unsupported("attrs validator")
        object.__setattr__(obj, f.name, v)
    pre = getattr(cls, "__attrs_pre_init__", None)
    if pre is not None:
        raise Unsupported("__attrs_pre_init__")
    post = getattr(cls, "__attrs_post_init__", None)
    if post is not None:
        eng.call(post, [obj])
    hook = getattr(eng, "constructed", None)
    if hook is not None:
        hook(eng, obj)
    return obj


def concrete(eng, f, args, kwargs):
    if not (all(eng.is_plain_deep(a) for a in args) and all(eng.is_plain_deep(v) for v in kwargs.values())):
        raise Unsupported(f"{getattr(f, '__qualname__', f)} isn't modelled")
    if any(isinstance(a, (Closure, BoundSym, HoleMethod)) for a in list(args) + list(kwargs.values())):
        raise Unsupported(f"{getattr(f, '__qualname__', f)} isn't modelled")
    try:
        r = f(*args, **kwargs)
    except Exception as ex:
        raise PyRaise(ex)
    if isinstance(r, (list, dict, set)):
        eng.born(r)
    return r


# Types as functions
def t_list(eng, args, kwargs):
    return eng.born(list(eng.elements(args[0])) if args else [])


def t_tuple(eng, args, kwargs):
    return eng.born(tuple(eng.elements(args[0])) if args else ())


def t_set(eng, args, kwargs):
    if not args:
        # Whatever is added later
        s = SymSet([])
        eng.born(s)
        eng.born(s.items)
        return s
    if isinstance(args[0], SetSym):
        return SetOp("__or__", args[0], SymSet([]))
    return eng.make_set(eng.elements(args[0]))


def t_frozenset(eng, args, kwargs):
    s = eng.make_set(eng.elements(args[0]) if args else [])
    return frozenset(s) if isinstance(s, set) else s


def t_dict(eng, args, kwargs):
    d = {}
    if args:
        src = eng.norm(args[0])
        if isinstance(src, dict):
            d.update(src)
        else:
            for p in eng.elements(src):
                for q in (p.items if isinstance(p, Each) else [p]):
                    kv = eng.elements(q)
                    if len(kv) != 2:
                        raise PyRaise(ValueError("dict()"))
                    if isinstance(p, Each):
                        d[EachKey(p.base, kv[0])] = kv[1]
                    else:
                        eng.dict_put(d, kv[0], kv[1])
    d.update(kwargs)
    return eng.born(d)


def t_str(eng, args, kwargs):
    return text.str_(eng, args[0]) if args else ""


def t_int(eng, args, kwargs):
    v = eng.norm(args[0]) if args else 0
    if isinstance(v, Fin):
        v = eng.force(v)
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, SText):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], Fn) and v.pieces[0].op == "int":
            return v.pieces[0].arg
        if len(v.pieces) == 1 and isinstance(v.pieces[0], Fn) and v.pieces[0].op == "digits":
            return v.pieces[0].consts[0] if v.pieces[0].consts else eng.memo_int(("intof", v.key()), "intof", 0)
        raise Unsupported(f"int({v!r})")
    return concrete(eng, int, [v] + list(args[1:]), kwargs)


def t_bool(eng, args, kwargs):
    v = eng.norm(args[0]) if args else False
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return eng.norm(SBool(v.e != 0))
    return eng.truth(v)


def t_float(eng, args, kwargs):
    v = eng.norm(args[0]) if args else 0.0
    if isinstance(v, SText):
        return Opaque(float, "float", text=v)
    return concrete(eng, float, args, kwargs)


def t_decimal(eng, args, kwargs):
    v = eng.norm(args[0]) if args else 0
    if isinstance(v, SText):
        hook = getattr(eng, "decimal_of", None)
        if hook is not None:
            return hook(eng, v)
        return Opaque(Decimal, "decimal", text=v)
    if isinstance(v, Opaque) and v.pytype is Decimal:
        return v
    return concrete(eng, Decimal, args, kwargs)


def t_type(eng, args, kwargs):
    if len(args) != 1:
        raise Unsupported("type()")
    return eng.type_of(args[0])


def t_iter(eng, args, kwargs):
    return eng.born(list(eng.elements(args[0])))


def t_enumerate(eng, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get("start", 0)
    out, at = [], start
    for e in eng.elements(args[0]):
        if isinstance(e, Each):
            items = []
            for k, x in enumerate(e.items):
                i = eng.int_("index", 0)
                eng.assume(eng.z(i) < e.base.length.e)
                if at == 0 and len(e.items) == 1:
                    eng.memo[("index of", i.e.sexpr())] = e.base
                items.append((SInt(eng.z(at) + i.e * len(e.items) + k) if not (at == 0 and len(e.items) == 1) else i, x))
            each = Each(e.base, items)
            out.append(each)
            at = SInt(eng.z(at) + len(e.items) * e.base.length.e)
        else:
            out.append((eng.norm(at) if isinstance(at, Sym) else at, e))
            at = at + 1 if isinstance(at, int) else SInt(at.e + 1)
    return eng.born(out)


def t_zip(eng, args, kwargs):
    lists = [eng.elements(a) for a in args]
    if not any(isinstance(e, Each) for l in lists for e in l):
        return eng.born([tuple(t) for t in zip(*lists)])
    out, i = [], 0
    while True:
        at = [l[i] if i < len(l) else None for l in lists]
        if all(i >= len(l) for l in lists):
            return eng.born(out)
        if any(i >= len(l) for l in lists):
            if any(isinstance(l[i], Each) for l in lists if i < len(l)):
                # It may be empty
                for l in lists:
                    if i < len(l) and isinstance(l[i], Each) and not eng.known_equal(l[i].base.length, 0):
                        pass
            return eng.born(out)
        eaches = [isinstance(e, Each) for e in at]
        if not any(eaches):
            out.append(tuple(at))
        elif all(eaches):
            n = len(at[0].items)
            for e in at[1:]:
                if len(e.items) != n or not eng.known_equal(e.base.length, at[0].base.length) or getattr(e, "partial", False):
                    raise Unsupported("zip of lists of different lengths")
            out.append(Each(at[0].base, [tuple(t) for t in zip(*[e.items for e in at])]))
        else:
            raise Unsupported("zip of lists of different shapes")
        i += 1


def t_reversed(eng, args, kwargs):
    es = eng.elements(args[0])
    return eng.born([Each(e.base, list(reversed(e.items))) if isinstance(e, Each) else e for e in reversed(es)])


def over(eng, seq, f, partial=False):
    """[f(x) for x in seq]"""
    out = []
    for e in eng.elements(seq):
        if isinstance(e, Each):
            inner = []
            loop = {"base": e.base, "effects": {}, "reads": {}, "born": {id(inner)}}
            eng.enter(loop)
            try:
                for x in e.items:
                    r = f(x)
                    if r is not SKIP:
                        inner.append(r)
            finally:
                eng.loops.pop()
            each = Each(e.base, inner)
            each.partial = getattr(e, "partial", False) or partial
            out.append(each)
        else:
            r = f(e)
            if r is not SKIP:
                out.append(r)
    return eng.born(out)


SKIP = object()


def t_map(eng, args, kwargs):
    if len(args) == 2:
        return over(eng, args[1], lambda x: eng.call(args[0], [x]))
    z = t_zip(eng, args[1:], {})
    return over(eng, z, lambda t: eng.call(args[0], list(t)))


def t_filter(eng, args, kwargs):
    return over(eng, args[1], lambda x: x if eng.truth(eng.call(args[0], [x]) if args[0] is not None else x) else SKIP, partial=True)


def t_range(eng, args, kwargs):
    args = [eng.norm(a) for a in args]
    if any(isinstance(a, Sym) for a in args):
        if len(args) == 1:
            b = eng.base("range")
            eng.assume(b.length.e == eng.z(args[0]))
            i = eng.int_("index", 0)
            eng.assume(i.e < b.length.e)
            return eng.born([Each(b, [i])])
        raise Unsupported("range")
    return range(*args)


def t_object(eng, args, kwargs):
    return object()


BUILTIN_TYPES = {list: t_list, tuple: t_tuple, set: t_set, frozenset: t_frozenset, dict: t_dict, str: t_str, int: t_int,
                 bool: t_bool, float: t_float, Decimal: t_decimal, type: t_type, enumerate: t_enumerate, zip: t_zip,
                 reversed: t_reversed, map: t_map, filter: t_filter, range: t_range, object: t_object}


BUILTIN_TYPES[itertools.islice] = lambda eng, args, kwargs: f_islice(eng, *args)
BUILTIN_TYPES.setdefault(itertools.chain, lambda eng, args, kwargs: f_chain(eng, *args))


# Functions ------------------------------------------------------------------------------------------------------------
def f_len(eng, v):
    v = eng.norm(v)
    if isinstance(v, Fin):
        v = eng.force(v)
    if isinstance(v, SText):
        return eng.norm(text.length(eng, v))
    if isinstance(v, SymSet):
        return set_size(eng, v)
    if isinstance(v, (list, tuple, dict)):
        return eng.norm(eng.length(v))
    if isinstance(v, Sym) or type(v).__module__.startswith(INTERPRETED) and not isinstance(v, type):
        if isinstance(v, Opaque):
            return eng.memo_int(("len", id(v)), "len", 0)
        if eng.is_none(v):
            raise PyRaise(TypeError("object of type 'NoneType' has no len()"))
        return eng.call_method(v, "__len__")
    return concrete(eng, len, [v], {})


def set_size(eng, s):
    if not any(isinstance(i, Each) for i in s.items):
        distinct = []
        for i in s.items:
            if not any(eng.truth(eng.eq(i, j)) for j in distinct):
                distinct.append(i)
        return len(distinct)
    if all(not isinstance(i, Each) or i.base in eng.distinct and len(i.items) == 1 for i in s.items):
        texts = [i.items[0] if isinstance(i, Each) else i for i in s.items]
        if all(eng.different(a, b) for n, a in enumerate(texts) for b in texts[:n] if isinstance(a, SText) and isinstance(b, SText)) and \
                (len(texts) == 1 or all(isinstance(t, SText) and len(t.pieces) == 1 for t in texts)):
            return eng.norm(eng.length(s.items))
    n = eng.memo_int(("setsize", id(s)), "size", 0)
    return n


def f_all(eng, v):
    conj = []
    for e in eng.elements(v):
        if isinstance(e, Each):
            if not e.items and not getattr(e, "partial", False):
                continue
            rs = [eng.norm(x) for x in e.items]
            if all(r is True for r in rs):
                continue
            if eng.truth(eng.compare_ints(e.base.length, 0)):
                continue
            if any(not isinstance(r, SBool) and not eng.truth(r) for r in rs):
                return False
            rs = [r for r in rs if isinstance(r, SBool)]
            if not rs and not getattr(e, "partial", False):
                continue
            # "For all indexes": the same statement about the same list is the same truth value
            b = eng.memo_bool(("all", id(e.base), tuple(r.e.sexpr() for r in rs), id(e) if getattr(e, "partial", False) else 0), "all").e
            eng.keep.append(e)
            for r in rs:
                eng.assume(z3.Implies(b, r.e))
            conj.append(b)
        else:
            r = eng.norm(e)
            if isinstance(r, SBool):
                conj.append(r.e)
            elif not eng.truth(r):
                return False
    return eng.norm(SBool(z3.And(*conj))) if conj else True


def f_any(eng, v):
    disj = []
    for e in eng.elements(v):
        if isinstance(e, Each):
            if not e.items and not getattr(e, "partial", False):
                continue
            rs = [eng.norm(x) for x in e.items]
            if all(r is False for r in rs) and e.base in eng.uniform and eng.uniform[e.base]():
                continue
            if rs and all(r is False for r in rs) and not getattr(e, "partial", False):
                # Not at the arbitrary index; maybe at another one
                b = eng.bool_("any").e
                disj.append(b)
                continue
            if eng.truth(eng.compare_ints(e.base.length, 0)):
                continue
            if any(not isinstance(r, SBool) and eng.truth(r) for r in rs):
                return True
            rs = [r for r in rs if isinstance(r, SBool)]
            b = eng.memo_bool(("any", id(e.base), tuple(r.e.sexpr() for r in rs), id(e) if not rs or getattr(e, "partial", False) else 0), "any").e
            eng.keep.append(e)
            for r in rs:
                eng.assume(z3.Implies(r.e, b))
            disj.append(b)
        else:
            r = eng.norm(e)
            if isinstance(r, SBool):
                disj.append(r.e)
            elif eng.truth(r):
                return True
    return eng.norm(SBool(z3.Or(*disj))) if disj else False


def f_extreme(name):
    def f(eng, *args, **kwargs):
        items = eng.elements(args[0]) if len(args) == 1 else list(args)
        default = kwargs.pop("default", SKIP)
        if kwargs:
            return concrete(eng, getattr(builtins, name), args, kwargs)
        if not items:
            if default is not SKIP:
                return default
            raise PyRaise(ValueError(f"{name}() arg is an empty sequence"))
        flat = [eng.norm(x) for e in items for x in (e.items if isinstance(e, Each) else [e])]
        flat = [eng.force(x) if isinstance(x, Fin) else x for x in flat]
        if all(isinstance(x, (int, SInt)) for x in flat):
            if len(flat) == len(items) and not any(isinstance(e, Each) for e in items):
                if all(isinstance(x, int) for x in flat):
                    return getattr(builtins, name)(flat)
                r = eng.z(flat[0])
                for x in flat[1:]:
                    x = eng.z(x)
                    r = z3.If(x > r, x, r) if name == "max" else z3.If(x < r, x, r)
                return eng.norm(SInt(r))
            v = eng.int_(name)
            for x in flat:
                eng.assume(v.e >= eng.z(x) if name == "max" else v.e <= eng.z(x))
            return v
        if any(isinstance(x, Sym) for x in flat) or len(flat) != len(items):
            raise Unsupported(name)
        return concrete(eng, getattr(builtins, name), [flat], {})
    return f


def f_sum(eng, v, start=0):
    total, sym = start, False
    for e in eng.elements(v):
        if isinstance(e, Each):
            if e.items or getattr(e, "partial", False):
                xs = [eng.norm(x) for x in e.items]
                if xs and all(type(x) is int for x in xs) and not getattr(e, "partial", False):
                    total = SInt(eng.z(total) + sum(xs) * e.base.length.e)
                else:
                    total = SInt(eng.z(total) + eng.int_("sum").e)
        else:
            e = eng.norm(e)
            e = eng.force(e) if isinstance(e, Fin) else e
            if isinstance(total, Sym) or isinstance(e, Sym):
                total = SInt(eng.z(total) + eng.z(e))
            else:
                try:
                    total = total + e
                except Exception as ex:
                    raise PyRaise(ex)
    return eng.norm(total)


def f_isinstance(eng, v, classes):
    return eng.isinstance_(v, classes)


def f_issubclass(eng, c, classes):
    c = eng.norm(c)
    classes = eng.flat_classes(classes)
    if isinstance(c, TypeOf):
        return eng.split(c.hole, lambda k: issubclass(k, classes))
    return concrete(eng, issubclass, [eng.force(c), classes], {})


def f_getattr(eng, obj, name, *default):
    name = eng.norm(name)
    name = eng.force(name) if isinstance(name, Fin) else name
    if not isinstance(name, str):
        raise Unsupported("getattr of an unknown name")
    try:
        return eng.getattr_(obj, name)
    except PyRaise as p:
        if default and isinstance(p.exc, AttributeError):
            return default[0]
        raise


def f_hasattr(eng, obj, name):
    try:
        f_getattr(eng, obj, name)
    except PyRaise as p:
        if isinstance(p.exc, AttributeError):
            return False
        raise
    return True


def f_setattr(eng, obj, name, value):
    eng.setattr_(obj, eng.force(name), value)


def f_next(eng, it, *default):
    it = eng.norm(it)
    if not isinstance(it, list):
        raise Unsupported("next")
    if not it:
        if default:
            return default[0]
        raise PyRaise(StopIteration())
    if isinstance(it[0], Each):
        e = it[0]
        if getattr(e, "partial", False) or not e.items or len(e.items) != 1:
            raise Unsupported("next of a list of unknown length")
        if eng.truth(eng.compare_ints(e.base.length, 0)):
            it.pop(0)
            return f_next(eng, it, *default)
        return list_item(eng, it, 0)
    return it.pop(0)


def f_reduce(eng, f, items, *init):
    """With a rule for lists of unknown length (eng.fold), that decides: what's reduced, with what, and what comes out"""
    es = eng.elements(items)
    if getattr(eng, "fold", None) is not None and any(isinstance(e, Each) for e in es):
        return eng.fold(eng, f, es, init)
    acc = list(init)
    for e in es:
        if isinstance(e, Each):
            raise Unsupported("reduce over a list of unknown length")
        acc = [eng.call(f, [acc[0], e])] if acc else [e]
    if not acc:
        raise PyRaise(TypeError("reduce() of empty iterable with no initial value"))
    return acc[0]


def f_sorted(eng, v, **kwargs):
    es = eng.elements(v)
    if kwargs.get("key") is not None and not any(isinstance(e, Each) for e in es):
        keys = [eng.force(eng.call(kwargs["key"], [e])) for e in es]
        if all(eng.is_plain_deep(k) for k in keys):
            order = sorted(range(len(es)), key=lambda i: keys[i], reverse=bool(kwargs.get("reverse", False)))
            return eng.born([es[i] for i in order])
    if len(es) == 1 and not isinstance(es[0], Each):
        return eng.born(es)
    return concrete(eng, sorted, [es], kwargs)


def f_repr(eng, v):
    return text.repr_(eng, v)


def f_id(eng, v):
    v = eng.norm(v)
    eng.keep.append(v)
    return id(v)


def f_callable(eng, v):
    v = eng.norm(v)
    if isinstance(v, (Closure, BoundSym, HoleMethod)):
        return True
    if isinstance(v, Sym):
        return False
    return callable(v)


def f_attr_fields(eng, c):
    c = eng.force(c)
    return concrete(eng, attr.fields, [c], {})


def f_attr_has(eng, c):
    c = eng.norm(c)
    if isinstance(c, TypeOf):
        return eng.split(c.hole, attr.has)
    return attr.has(eng.force(c))


def f_fields_dict(eng, c):
    return eng.born(concrete(eng, attr.fields_dict, [eng.force(c)], {}))


def f_evolve(eng, obj, **changes):
    cls = eng.force(eng.type_of(obj))
    obj = eng.norm(obj)
    values = {}
    for f in attr.fields(cls):
        if not f.init:
            continue
        alias = f.name.lstrip("_")
        values[alias] = changes.pop(alias) if alias in changes else eng.getattr_(obj, f.name)
    if changes:
        raise PyRaise(TypeError(f"unexpected {sorted(changes)}"))
    return eng.call(cls, [], values)


def f_copy(eng, v):
    v = eng.norm(v)
    if isinstance(v, (list, dict, set)) and type(v) in (list, dict, set):
        eng.note_read(v) if not isinstance(v, set) else None
        return eng.born(type(v)(v))
    if isinstance(v, Hole):
        raise Unsupported("copy of an unknown object")
    if isinstance(v, SetSym):
        return SetOp("__or__", v, SymSet([]))
    if isinstance(v, Sym) or isinstance(v, (str, int, tuple, type(None), enum.Enum)):
        return v
    if type(v).__module__.startswith(INTERPRETED):
        c = object.__new__(type(v))
        c.__dict__.update(v.__dict__)
        return eng.born(c)
    return concrete(eng, copy.copy, [v], {})


def f_deepcopy(eng, v, *memo):
    """A copy: an unknown object's copy is an object whose parts are copies"""
    v = eng.norm(v)
    if memo:
        raise Unsupported("deepcopy with a memo")
    if isinstance(v, Hole):
        if eng.is_none(v):
            return None
        h = Hole(v.classes, v.name + "'", {"copy": v, "like": v, "getattr": lambda eng, h, name: f_deepcopy(eng, eng.getattr_(v, name)) if _is_field(v, name) else NotImplemented})
        h.info.update({k: x for k, x in v.info.items() if k not in ("copy", "like", "getattr", "fields")})
        return h
    if isinstance(v, SetSym):
        return SetOp("__or__", v, SymSet([]))
    if isinstance(v, Sym) or isinstance(v, (str, int, type(None), enum.Enum, type)):
        return v
    if isinstance(v, Each):
        e = Each(v.base, [f_deepcopy(eng, i) for i in v.items])
        e.partial = getattr(v, "partial", False)
        return e
    if isinstance(v, (list, tuple)):
        return eng.born(type(v)(f_deepcopy(eng, i) for i in v))
    if isinstance(v, dict) and not any(isinstance(k, EachKey) for k in v):
        return eng.born({k: f_deepcopy(eng, x) for k, x in v.items()})
    if type(v).__module__.startswith(INTERPRETED):
        c = object.__new__(type(v))
        for k, x in v.__dict__.items():
            c.__dict__[k] = f_deepcopy(eng, x)
        return eng.born(c)
    return concrete(eng, copy.deepcopy, [v], {})


def _is_field(hole, name):
    return all(attr.has(c) and name in {f.name for f in attr.fields(c)} for c in hole.classes)


def f_islice(eng, it, *args):
    es = eng.elements(it)
    if any(isinstance(e, Each) for e in es) or not all(a is None or isinstance(a, int) for a in args):
        raise Unsupported("islice")
    return eng.born(list(itertools.islice(es, *args)))


def f_chain(eng, *its):
    out = []
    for i in its:
        out += eng.elements(i)
    return eng.born(out)


def f_print(eng, *a, **k):
    return None


def f_iter(eng, v):
    return t_iter(eng, [v], {})


def f_vars(eng, v):
    raise Unsupported("vars")


def f_abs(eng, v):
    v = eng.norm(v)
    if isinstance(v, SInt):
        return SInt(z3.If(v.e < 0, -v.e, v.e))
    if isinstance(v, Opaque):
        hook = getattr(eng, "opaque_method", None)
        if hook is not None:
            return hook(eng, v, "__abs__", [], {})
    return concrete(eng, abs, [v], {})


def f_super(eng, *a):
    if len(a) == 2:
        return Super(a[0], a[1])
    raise Unsupported("super")


FUNCTIONS = {len: f_len, all: f_all, any: f_any, max: f_extreme("max"), min: f_extreme("min"), sum: f_sum, isinstance: f_isinstance,
             issubclass: f_issubclass, getattr: f_getattr, hasattr: f_hasattr, setattr: f_setattr, next: f_next, iter: f_iter,
             functools.reduce: f_reduce, sorted: f_sorted, repr: f_repr, id: f_id, callable: f_callable, attr.fields: f_attr_fields,
             attr.has: f_attr_has, attr.fields_dict: f_fields_dict, attr.evolve: f_evolve, copy.copy: f_copy, copy.deepcopy: f_deepcopy,
             itertools.islice: f_islice, itertools.chain: f_chain, print: f_print, vars: f_vars, abs: f_abs, super: f_super,
             format: text.format_, itertools.chain.from_iterable: lambda eng, its: f_chain(eng, *eng.elements(its))}


def native(eng, f, args, kwargs):
    try:
        h = FUNCTIONS.get(f)
    except TypeError:
        h = None
    if h is not None:
        try:
            inspect.signature(h).bind(eng, *args, **kwargs)
        except TypeError as ex:
            raise PyRaise(ex)
        return h(eng, *args, **kwargs)
    self = getattr(f, "__self__", None)
    if self is not None and isinstance(f, types.BuiltinMethodType) and isinstance(self, (str, list, dict, set, tuple)) and not isinstance(self, enum.Enum):
        return method(eng, self, f.__name__, args, kwargs)
    if isinstance(self, re.Pattern) and not all(eng.is_plain_deep(a) for a in args):
        return pattern_method(eng, self, f.__name__, args, kwargs)
    owner = getattr(f, "__objclass__", None)
    if owner in (str, list, dict, set) and args:
        return method(eng, args[0], f.__name__, list(args[1:]), kwargs)
    return concrete(eng, f, args, kwargs)


class SomeMatch:
    """An arbitrary match of a pattern"""
    __pydv_interpret__ = True

    def __init__(self, text):
        self.text = text

    def group(self, *args):
        return self.text


def pattern_method(eng, pattern, name, args, kwargs):
    """Matching unknown texts: the result isn't known, but a function that makes the replacement is called for an arbitrary match"""
    if name != "sub" or kwargs:
        raise Unsupported(f"Pattern.{name} isn't modelled")
    repl, given = args[0], args[1]
    if not isinstance(eng.norm(repl), (str, SText)):
        m = SomeMatch(eng.str_("match"))
        eng.born(m)
        eng.call(repl, [m])
    return SText([Fn("sub", given if isinstance(given, Sym) else eng.norm(given), pattern.pattern)]) if isinstance(given, Sym) else \
        SText([Fn("sub", Opaque(str, given), pattern.pattern)])


def f_isfinite(eng, v):
    v = eng.norm(v)
    if isinstance(v, Opaque):
        return eng.memo_bool(("isfinite", id(v)), "finite")
    if isinstance(v, (SInt, SBool)):
        return True
    return concrete(eng, math.isfinite, [v], {})


FUNCTIONS[math.isfinite] = f_isfinite


# Methods --------------------------------------------------------------------------------------------------------------
def method(eng, obj, name, args, kwargs):
    obj = eng.norm(obj)
    if isinstance(obj, Fin):
        return eng.call_method(eng.force(obj), name, *args, **kwargs)
    if isinstance(obj, (str, SText)):
        return text.method(eng, obj, name, args, kwargs)
    if isinstance(obj, list):
        return list_method(eng, obj, name, args, kwargs)
    if isinstance(obj, dict):
        return dict_method(eng, obj, name, args, kwargs)
    if isinstance(obj, SetSym):
        return unknown_set_method(eng, obj, name, args, kwargs)
    if isinstance(obj, (set, frozenset, SymSet)):
        return set_method(eng, obj, name, args, kwargs)
    if isinstance(obj, tuple):
        if name in ("index", "count") or name.startswith("__"):
            if name == "__len__":
                return f_len(eng, obj)
            if name == "__getitem__":
                return list_item(eng, obj, args[0])
            return concrete(eng, getattr(obj, name), args, kwargs)
    if isinstance(obj, (SInt, SBool)):
        if name == "__str__":
            return text.str_(eng, obj)
        if name == "bit_length":
            raise Unsupported("bit_length")
    if isinstance(obj, Opaque):
        hook = getattr(eng, "opaque_method", None)
        if hook is not None:
            r = hook(eng, obj, name, args, kwargs)
            if r is not NotImplemented:
                return r
        if obj.pytype is Decimal and name == "is_finite" and not args:
            return True if obj.info.get("finite") else eng.memo_bool(("finite", id(obj)), "finite")
        raise Unsupported(f"{obj.pytype.__name__}.{name}")
    if not isinstance(obj, Sym):
        return concrete(eng, getattr(obj, name), args, kwargs)
    raise Unsupported(f"{obj!r}.{name}")


def list_method(eng, obj, name, args, kwargs):
    if name == "append":
        eng.append(obj, args[0])
        return None
    if name == "extend":
        for e in eng.elements(args[0]):
            if isinstance(e, Each):
                eng.extend_each(obj, e)
            else:
                eng.append(obj, e)
        return None
    if name == "copy":
        eng.note_read(obj)
        return eng.born(list(obj))
    if name == "__len__":
        return f_len(eng, obj)
    if name == "__getitem__":
        return list_item(eng, obj, args[0])
    if name in ("insert", "pop", "reverse", "clear", "sort", "remove"):
        eng.record_write("list", obj, None)
        eng.note_read(obj)
        if any(id(obj) not in l["born"] for l in eng.loops):
            raise Unsupported(f"list.{name} in a loop over a list of unknown length")
        if name == "insert":
            i = eng.norm(args[0])
            if i == 0 and isinstance(i, int):
                obj.insert(0, args[1])
                return None
            if any(isinstance(e, Each) for e in obj) or not isinstance(i, int):
                raise Unsupported("insert")
            obj.insert(i, args[1])
            return None
        if name == "pop":
            i = eng.norm(args[0]) if args else -1
            if not isinstance(i, int) or not obj and False:
                raise Unsupported("pop")
            if obj and isinstance(obj[0 if i == 0 else -1], Each) or i not in (0, -1) and any(isinstance(e, Each) for e in obj):
                raise Unsupported("pop from a list of unknown length")
            try:
                return obj.pop(i)
            except Exception as ex:
                raise PyRaise(ex)
        if name == "reverse":
            obj[:] = t_reversed(eng, [obj], {})
            return None
        if name == "clear":
            obj.clear()
            return None
        if name == "remove":
            for i, e in enumerate(obj):
                if isinstance(e, Each):
                    raise Unsupported("remove")
                if eng.truth(eng.eq(e, args[0])):
                    del obj[i]
                    return None
            raise PyRaise(ValueError("list.remove"))
    if name in ("index", "count"):
        eng.note_read(obj)
        if any(isinstance(e, Each) for e in obj):
            raise Unsupported(f"list.{name}")
        if name == "index":
            for i, e in enumerate(obj):
                if eng.truth(eng.eq(e, args[0])):
                    return i
            raise PyRaise(ValueError("list.index"))
        return sum(1 for e in obj if eng.truth(eng.eq(e, args[0])))
    if name == "__contains__":
        return eng.in_(args[0], obj)
    raise Unsupported(f"list.{name}")


def dict_entries(eng, d):
    eng.note_read(d)
    return [Each(k.base, [(k.key, v)]) if isinstance(k, EachKey) else (k, v) for k, v in d.items()]


def dict_method(eng, obj, name, args, kwargs):
    if name == "items":
        return eng.born(dict_entries(eng, obj))
    if name == "keys":
        if not any(isinstance(k, (Sym, EachKey)) for k in obj):
            return obj.keys()
        return Keys(obj)
    if name == "values":
        eng.note_read(obj)
        return eng.born([Each(k.base, [v]) if isinstance(k, EachKey) else v for k, v in obj.items()])
    if name == "get":
        default = args[1] if len(args) > 1 else kwargs.get("default")
        if eng.truth(eng.in_(args[0], obj)):
            return dict_item(eng, obj, args[0])
        return default
    if name == "copy":
        return eng.born(dict(obj))
    if name == "__contains__":
        return eng.in_(args[0], obj)
    if name == "__getitem__":
        return dict_item(eng, obj, args[0])
    if name == "__len__":
        return f_len(eng, obj)
    if name == "update":
        eng.record_write("dict", obj, None)
        if any(id(obj) not in l["born"] for l in eng.loops):
            raise Unsupported("dict.update in a loop over a list of unknown length")
        for a in args:
            a = eng.norm(a)
            if not isinstance(a, dict):
                a = t_dict(eng, [a], {})
            for k, v in a.items():
                if isinstance(k, EachKey):
                    obj[k] = v
                else:
                    eng.dict_put(obj, k, v)
        for k, v in kwargs.items():
            eng.dict_put(obj, k, v)
        return None
    if name in ("pop", "setdefault"):
        key = args[0]
        if eng.truth(eng.in_(key, obj)):
            v = dict_item(eng, obj, key)
            if name == "pop":
                eng.record_write("dict", obj, key)
                k = eng.norm(key)
                k = eng.force(k) if isinstance(k, (Fin, TypeOf)) else k
                if isinstance(k, SText) and k not in obj:
                    k = text.pick(eng, k, list(obj))
                del obj[k]
            return v
        if name == "setdefault":
            v = args[1] if len(args) > 1 else None
            eng.setitem(obj, key, v)
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError(repr(key)))
    if name == "clear":
        eng.record_write("dict", obj, None)
        obj.clear()
        return None
    raise Unsupported(f"dict.{name}")


class Keys:
    """The keys of a dictionary with unknown keys"""

    def __init__(self, d):
        self.d = d

    def __pydv_iter__(self, eng):
        return eng.elements(self.d)

    def equal(self, eng, other):
        b = other.d if isinstance(other, Keys) else other
        if self.d is b:
            return True
        return eng.memo_bool(("keys",) + tuple(sorted((id(self.d), id(b)))), "keys")


def set_items(v):
    if isinstance(v, Keys) or isinstance(v, type({}.keys())):
        v = v.d if isinstance(v, Keys) else v
        return [Each(k.base, [k.key]) if isinstance(k, EachKey) else k for k in v]
    return list(v.items) if isinstance(v, SymSet) else sorted(v, key=repr)


def member(eng, x, s):
    """x in s"""
    x, s = eng.norm(x), eng.norm(s)
    inside = eng.norm(_member(eng, x, s))
    if isinstance(s, SetSym) and eng.truth(inside):
        # A set that has a member isn't empty
        key = ("nonempty", set_key(eng, s))
        if not eng.truth(eng.memo.setdefault(key, True)):
            raise Infeasible()
        return True
    return inside


def _member(eng, x, s):
    if isinstance(s, SetOp):
        if s.op == "__or__":
            return eng.truth(member(eng, x, s.a)) or eng.truth(member(eng, x, s.b))
        inside = eng.truth(member(eng, x, s.a))
        return inside and eng.truth(member(eng, x, s.b)) == (s.op == "__and__")
    if isinstance(s, GhostSet):
        for v, inside in s.facts:
            if eng.term_key(v) == eng.term_key(x):
                return inside
        eng.keep.append(s)
        return eng.memo_bool(("member", id(s), eng.term_key(x)), "member")
    # One after the other, so that parts of a set are known to be its parts
    for e in set_items(s):
        if eng.truth(eng.among_elements(x, [e]) if isinstance(e, Each) else eng.eq(x, e)):
            return True
    return False


def set_key(eng, s):
    if isinstance(s, SetOp):
        return (s.op, set_key(eng, s.a), set_key(eng, s.b))
    eng.keep.append(s)
    if isinstance(s, GhostSet):
        return ("ghost", id(s))
    return tuple(("each", id(e.base), id(e) if getattr(e, "partial", False) else 0) + tuple(eng.term_key(i) for i in e.items) if isinstance(e, Each)
                 else eng.term_key(e) for e in set_items(s))


def some_member(eng, s):
    """Whether s has members"""
    if isinstance(s, SetOp):
        if s.op == "__or__":
            return eng.truth(s.a) or eng.truth(s.b)
        if not eng.truth(s.a):
            return False
        if s.op == "__sub__" and not eng.truth(s.b):
            return True
        if s.op == "__and__" and not eng.truth(s.b):
            return False
    if isinstance(s, GhostSet):
        if any(inside for v, inside in s.facts):
            return True
    return eng.truth(eng.memo_bool(("nonempty", set_key(eng, s)), "nonempty"))


def set_op(eng, name, a, b):
    a, b = eng.norm(a), eng.norm(b)
    unknown = lambda s: isinstance(s, SetSym) or isinstance(s, SymSet) and any(isinstance(e, Each) for e in s.items)
    if isinstance(a, SetSym) or isinstance(b, SetSym) or name != "__or__" and unknown(a):
        if name not in ("__or__", "__and__", "__sub__"):
            raise Unsupported(f"set {name}")
        return SetOp(name, a, b)
    if name == "__or__":
        return eng.make_set(set_items(a) + set_items(b))
    if name == "__and__":
        return eng.make_set([x for x in set_items(a) if not isinstance(x, Each) and eng.truth(eng.in_(x, b)) or _no_each(x)])
    if name == "__sub__":
        return eng.make_set([x for x in set_items(a) if not _no_each(x) and not eng.truth(eng.in_(x, b))])
    raise Unsupported(f"set {name}")


def _no_each(x):
    if isinstance(x, Each):
        raise Unsupported("set operation on a set of unknown size")
    return False


def unknown_set_method(eng, obj, name, args, kwargs):
    ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "__or__": "BitOr", "__and__": "BitAnd", "__sub__": "Sub"}
    if name in ops:
        r = obj
        for a in args:
            a = eng.norm(a)
            r = eng.binop(ast_op(ops[name]), r, a if isinstance(a, (set, frozenset, SymSet, SetSym)) else eng.make_set(eng.elements(a)))
        return r if args else SetOp("__or__", obj, SymSet([]))
    if name == "copy":
        return SetOp("__or__", obj, SymSet([]))
    if name == "__contains__":
        return eng.in_(args[0], obj)
    raise Unsupported(f"set.{name}")


def set_method(eng, obj, name, args, kwargs):
    args = [eng.norm(a) for a in args]
    as_set = lambda v: v if isinstance(v, (set, frozenset, SymSet)) else eng.make_set(eng.elements(v))
    if name in ("add", "update", "discard", "remove", "clear"):
        if isinstance(obj, set):
            eng.record_write("set", obj, None)
            if any(id(obj) not in l["born"] for l in eng.loops):
                # Added at every index: unknown from here on
                eng.memo[("loopset", id(obj))] = True
        if name == "add":
            if isinstance(obj, SymSet):
                eng.append(obj.items, args[0])
                return None
            if not eng.is_plain(args[0]):
                raise Unsupported("an unknown value is added to a set")
            try:
                obj.add(args[0])
            except TypeError as ex:
                raise PyRaise(ex)
            return None
        if name == "update" and isinstance(obj, set):
            for a in args:
                s = as_set(a)
                if isinstance(s, SymSet):
                    raise Unsupported("unknown values are added to a set")
                obj.update(s)
            return None
        if isinstance(obj, SymSet) and name == "update":
            for a in args:
                for e in eng.elements(a):
                    if isinstance(e, Each):
                        eng.extend_each(obj.items, e)
                    else:
                        eng.append(obj.items, e)
            return None
        if isinstance(obj, SymSet) and name == "clear" and not eng.loops:
            obj.items.clear()
            return None
        if isinstance(obj, SymSet) and name in ("discard", "remove") and not eng.loops and all(eng.is_plain(i) for i in obj.items + args):
            if args[0] in obj.items:
                obj.items[:] = [i for i in obj.items if i != args[0]]
            elif name == "remove":
                raise PyRaise(KeyError(args[0]))
            return None
        if isinstance(obj, SymSet):
            raise Unsupported(f"set.{name}")
        return concrete(eng, getattr(obj, name), args, kwargs)
    if name in ("issubset", "__le__"):
        return eng.subset(obj, as_set(args[0]))
    if name in ("issuperset", "__ge__"):
        return eng.subset(as_set(args[0]), obj)
    if name == "isdisjoint":
        return not any(eng.truth(eng.in_(x, args[0])) for x in set_items(obj) if not _no_each(x))
    if name in ("union", "intersection", "difference"):
        r = obj
        for a in args:
            r = eng.binop({"union": ast_op("BitOr"), "intersection": ast_op("BitAnd"), "difference": ast_op("Sub")}[name], r, as_set(a))
        return r
    if name == "copy":
        return eng.born(set(obj)) if isinstance(obj, (set, frozenset)) else SymSet(obj.items)
    if name == "__contains__":
        return eng.in_(args[0], obj)
    if name == "__len__":
        return f_len(eng, obj)
    if isinstance(obj, SymSet):
        raise Unsupported(f"set.{name}")
    return concrete(eng, getattr(obj, name), args, kwargs)


def ast_op(name):
    import ast
    return getattr(ast, name)()


# Items ----------------------------------------------------------------------------------------------------------------
def list_item(eng, obj, key):
    if isinstance(key, slice):
        parts = [key.start, key.stop, key.step]
        if any(isinstance(p, Sym) for p in parts):
            raise Unsupported("slice by unknown numbers")
        if not any(isinstance(e, Each) for e in obj):
            return eng.born(obj[key])
        if key.step is None and (key.start in (None, 0)) and key.stop is None:
            return eng.born(obj[:])
        n_front = next(i for i, e in enumerate(obj) if isinstance(e, Each))
        n_back = next(i for i, e in enumerate(reversed(obj)) if isinstance(e, Each))
        start, stop = key.start or 0, key.stop
        if key.step is None and 0 <= start <= n_front and (stop is None or -n_back <= stop < 0):
            return eng.born(obj[start:stop])
        if key.step == -1 and key.start is None and key.stop is None:
            return eng.born(t_reversed(eng, [obj], {}))
        raise Unsupported("slice of a list of unknown length")
    if isinstance(key, SInt):
        if not any(isinstance(e, Each) for e in obj) and len(obj) < 12:
            for i, e in enumerate(obj):
                if eng.truth(eng.compare_ints(key, i)):
                    return e
            raise PyRaise(IndexError("list index out of range")) if eng.check(z3.And(key.e >= -len(obj), key.e < 0)) == z3.unsat else Unsupported("index")
        b = eng.memo.get(("index of", key.e.sexpr()))
        if b is not None and len(obj) == 1 and len(obj[0].items) == 1 and not getattr(obj[0], "partial", False) and eng.known_equal(b.length, obj[0].base.length):
            # The elements at the same arbitrary index
            return obj[0].items[0]
        raise Unsupported("unknown index of a list")
    if isinstance(key, Fin):
        key = eng.force(key)
    if not isinstance(key, int):
        raise PyRaise(TypeError("list indices must be integers"))
    if not any(isinstance(e, Each) for e in obj):
        try:
            return obj[key]
        except IndexError as ex:
            raise PyRaise(ex)
    order = list(obj) if key >= 0 else list(reversed(obj))
    left = key if key >= 0 else -key - 1
    for e in order:
        if isinstance(e, Each):
            if not e.items and not getattr(e, "partial", False):
                continue
            if left:
                raise Unsupported("index in a list of unknown length")
            if eng.truth(eng.compare_ints(e.base.length, 0)):
                continue
            if len(e.items) == 1 and not getattr(e, "partial", False) and eng.known_equal(e.base.length, 1):
                return e.items[0]
            return eng.element_at(e, key)
        if not left:
            return e
        left -= 1
    raise PyRaise(IndexError("list index out of range"))


def dict_item(eng, obj, key):
    key = eng.norm(key)
    missing = getattr(type(obj), "__missing__", None)
    if isinstance(key, Fin):
        if eng.split(key, lambda v: v in obj) is False and missing is None:
            raise PyRaise(KeyError(repr(key)))
        values = {id(obj.get(o)) for o in key.opts}
        if len(values) == 1 and key.opts[0] in obj:
            return obj[key.opts[0]]
        key = eng.force(key)
    if isinstance(key, TypeOf):
        if not eng.split(key.hole, lambda c: c in obj):
            raise PyRaise(KeyError(repr(key)))
        # Classes with the same value stay together
        same = {}
        eng.split(key.hole, lambda c: (obj[c] if isinstance(obj[c], (int, str, type(None))) else id(obj[c])))
        return obj[key.hole.classes[0]]
    for k in obj:
        if isinstance(k, EachKey) and k.key is key:
            return obj[k]
    if any(isinstance(k, EachKey) for k in obj):
        hook = getattr(eng, "each_item", None)
        if hook is not None:
            r = hook(eng, obj, key)
            if r is not NotImplemented:
                return r
        if isinstance(key, (str, SText)):
            for k in obj:
                if not isinstance(k, EachKey) and eng.truth(eng.eq(k, key)):
                    return obj[k]
        raise Unsupported("item of a dictionary of unknown length")
    if isinstance(key, SText):
        for k in obj:
            if k is key:
                return obj[k]
        if not text.among(eng, key, list(obj)):
            raise PyRaise(KeyError(repr(key)))
        return obj[text.pick(eng, key, [k for k in obj if isinstance(k, (str, SText))])]
    if isinstance(key, str) and any(isinstance(k, SText) for k in obj):
        for k in obj:
            if eng.truth(eng.eq(k, key)):
                return obj[k]
        raise PyRaise(KeyError(key))
    if isinstance(key, Sym) and key not in obj:
        raise Unsupported(f"item {key!r} of a dictionary")
    try:
        hash(key)
    except TypeError as ex:
        raise PyRaise(ex)
    if key in obj:
        return obj[key]
    if missing is not None and not isinstance(obj, types.MappingProxyType):
        # defaultdict: the lookup creates the entry
        return obj[key]
    raise PyRaise(KeyError(repr(key)))
