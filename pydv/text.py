"""Symbolic text: constants, unknown strings, functions of them and repetitions, one after the other"""
import enum
import types

import attr
import z3

from pydv.values import *  # noqa

# Functions whose result is never empty, and those whose result is empty if and only if the argument is
NONEMPTY = {"sql", "int", "repr", "name", "char", "str", "operand_sql", "digits", "nonempty", "decimal"}
SAME_EMPTINESS = {"upper", "lower", "replace", "pad"}


def pieces_of(eng, v):
    v = eng.norm(v)
    if isinstance(v, Fin):
        v = eng.force(v)
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, SText):
        return v.pieces
    if isinstance(v, Opaque) and v.pytype is str:
        return (Fn("opaque", v),)
    raise Unsupported(f"{v!r} as text")


def concat(eng, a, b):
    return eng.norm(SText(pieces_of(eng, a) + pieces_of(eng, b)))


def var_of(eng, p):
    """The (derived) unknown string behind a piece: what's known about its value is remembered there"""
    if isinstance(p, StrVar):
        return p.root()
    key = ("fnvar", p.key())
    if key not in eng.memo:
        v = StrVar(eng.name("d"), isinstance(p, Fn) and p.op in NONEMPTY)
        eng.memo[key] = v
    return eng.memo[key].root()


def domain(v):
    return getattr(v, "domain", None)


def narrow_eq(eng, v, const):
    """Whether an unknown string is a constant"""
    if v.value is not None:
        return v.value == const
    if const in v.excluded or v.without & set(const):
        return False
    d = domain(v)
    if d is not None:
        if const not in d:
            return False
        if len(d) == 1:
            v.value = const
            return True
    test = getattr(v, "test", None)
    if test is not None and not test(const):
        return False
    if eng.choose(2, (v.name, const)) == 0:
        v.value = const
        return True
    v.excluded.add(const)
    if d is not None:
        v.domain = d - {const}
    return False


def is_empty(eng, v):
    v = eng.norm(v)
    if isinstance(v, str):
        return v == ""
    rest = []
    for p in v.pieces:
        if isinstance(p, str):
            return False
        while isinstance(p, Fn) and p.op in SAME_EMPTINESS:
            q = p.arg
            if isinstance(q, SText):
                if any(isinstance(x, str) for x in q.pieces):
                    return False
                if len(q.pieces) != 1:
                    break
                q = q.pieces[0]
            p = q
        if isinstance(p, Fn) and p.op in NONEMPTY:
            return False
        if isinstance(p, StrVar):
            p = p.root()
            if "" in p.excluded or p.value:
                return False
        rest.append(p)
    for p in rest:
        if isinstance(p, Rep):
            if eng.truth(eng.compare_ints(p.base.length, 0)):
                continue
            if p.sep or any(isinstance(x, str) for x in p.items):
                return False
            if any(not is_empty(eng, SText([x])) for x in p.items):
                return False
            continue
        if isinstance(p, Pad):
            if not eng.truth(eng.memo_bool(("padempty", id(p)))):
                return False
            continue
        if not narrow_eq(eng, var_of(eng, p), ""):
            return False
    return True


def min_length(v):
    return sum(len(p) if isinstance(p, str) else (1 if isinstance(p, Fn) and p.op in NONEMPTY else 0) for p in v.pieces)


def equal(eng, a, b):
    a, b = eng.norm(a), eng.norm(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if len(a.pieces) == 1 and not isinstance(a.pieces[0], (str, Rep, Pad)):
            p = a.pieces[0]
            if isinstance(p, Fn) and p.op in NONEMPTY and b == "":
                return False
            if isinstance(p, Fn) and getattr(eng, "text_excludes", None) is not None and eng.text_excludes(eng, p, b):
                return False
            if isinstance(p, Fn) and p.op in ("upper", "lower"):
                if getattr(b, p.op)() != b:
                    return False
                s = SText([p.arg]) if not isinstance(p.arg, SText) else p.arg
                s = eng.norm(s)
                if isinstance(s, SText) and len(s.pieces) == 1 and isinstance(s.pieces[0], StrVar):
                    # The unknown string may be known (or known not) to be this in some case
                    v = s.pieces[0].root()
                    d = domain(v)
                    if d is not None:
                        ok = {x for x in d if getattr(x, p.op)() == b}
                        if not ok:
                            return False
                        if ok == d:
                            return True
            return narrow_eq(eng, var_of(eng, p), b)
        if b == "":
            return is_empty(eng, a)
        first, last = a.pieces[0], a.pieces[-1]
        if isinstance(first, str) and not (b.startswith(first) or len(first) > len(b) and False):
            return False
        if isinstance(last, str) and not b.endswith(last):
            return False
        if min_length(a) > len(b):
            return False
        # Same constant prefix and suffix around one unknown
        if len(a.pieces) == 2 and isinstance(first, str):
            return equal(eng, SText([last]), b[len(first):])
        if len(a.pieces) == 2 and isinstance(last, str):
            return equal(eng, SText([first]), b[:len(b) - len(last)])
        return eng.memo_bool(("texteq", a.key(), b), "texteq")
    if a.key() == b.key():
        return True
    # Strip equal ends
    pa, pb = list(a.pieces), list(b.pieces)
    while pa and pb and piece_key(pa[0]) == piece_key(pb[0]):
        pa.pop(0), pb.pop(0)
    while pa and pb and piece_key(pa[-1]) == piece_key(pb[-1]):
        pa.pop(), pb.pop()
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], StrVar) and isinstance(pb[0], StrVar):
        x, y = pa[0].root(), pb[0].root()
        key = ("streq",) + tuple(sorted((id(x), id(y))))
        if key not in eng.memo:
            if eng.choose(2, (x.name, y.name)) == 0:
                y.alias = x
                x.without |= y.without
                x.excluded |= y.excluded
                return True
            eng.memo[key] = False
        return False
    if (not pa or not pb) and (pa or pb):
        return is_empty(eng, SText(pa or pb))
    return eng.memo_bool(("texteq",) + tuple(sorted((repr(a.key()), repr(b.key())))), "texteq")


def contains(eng, x, c):
    x, c = eng.norm(x), eng.norm(c)
    if isinstance(x, str) and isinstance(c, str):
        return x in c
    if isinstance(x, Fin):
        return contains(eng, eng.force(x), c)
    if isinstance(x, str) and isinstance(c, SText):
        if x == "" or any(isinstance(p, str) and x in p for p in c.pieces):
            return True
        if len(c.pieces) == 1 and isinstance(c.pieces[0], StrVar):
            v = c.pieces[0].root()
            if v.value is None and domain(v) is not None:
                yes = {d for d in domain(v) if x in d}
                if not yes:
                    return False
                if yes == domain(v):
                    return True
        if len(x) == 1 and all(has(p, x) is False for p in c.pieces):
            return False
        return eng.memo_bool(("contains", x, c.key()), "contains")
    if isinstance(x, SText) and isinstance(c, str):
        return among(eng, x, [c[i:j] for i in range(len(c)) for j in range(i + 1, len(c) + 1)] + [""]) if len(c) < 9 else _no(x, c)
    if isinstance(x, SText) and isinstance(c, SText):
        return eng.memo_bool(("contains", x.key(), c.key()), "contains")
    if not isinstance(x, (str, SText)):
        raise PyRaise(TypeError("in string requires a string"))
    return _no(x, c)


def _no(x, c):
    raise Unsupported(f"{x!r} in {c!r}")


def among(eng, x, container):
    x = eng.norm(x)
    consts = [k for k in container if isinstance(k, str)]
    if isinstance(x, SText) and len(x.pieces) == 1 and isinstance(x.pieces[0], (StrVar, Fn)) and len(consts) > 12:
        p = x.pieces[0]
        if isinstance(p, Fn) and p.op in ("upper", "lower"):
            consts = [k for k in consts if getattr(k, p.op)() == k]
        v = var_of(eng, p)
        if v.value is not None:
            return v.value in consts
        possible = set(consts) - v.excluded
        d = domain(v)
        if d is not None:
            possible &= d
            if possible == d:
                return True
        if not possible:
            return False
        if eng.choose(2, (v.name, "among")) == 0:
            v.domain = possible
            return True
        v.excluded |= possible
        if d is not None:
            v.domain = d - possible
        return False
    for k in container:
        if isinstance(k, (str, SText, Fin)) or isinstance(k, Each):
            if isinstance(k, Each):
                raise Unsupported("membership in a list of unknown length")
            if eng.truth(eng.eq(x, k)):
                return True
    return False


def assume_different(eng, a, b):
    """Two unknown texts are known to differ (whichever the arbitrary elements are of which they come)"""
    x, y = eng.norm(a).pieces[0].root(), eng.norm(b).pieces[0].root()
    eng.memo[("alldifferent",) + tuple(sorted((id(x), id(y))))] = True
    eng.memo[("streq",) + tuple(sorted((id(x), id(y))))] = False


def pick(eng, x, keys):
    """x is known to be one of the keys: which one"""
    for k in keys[:-1]:
        if eng.truth(equal(eng, x, k)):
            return k
    return keys[-1]


def item(eng, obj, key):
    obj, key = eng.norm(obj), eng.norm(key)
    if isinstance(obj, str):
        if isinstance(key, slice):
            raise Unsupported("slice of a string by unknown numbers")
        raise Unsupported("unknown index of a string")
    if isinstance(key, slice):
        start, stop, step = key.start, key.stop, key.step
        if any(isinstance(k, Sym) for k in (start, stop, step)) or step is not None:
            raise Unsupported("slice of a string")
        pieces = list(obj.pieces)
        if start is not None and start > 0:
            first = pieces[0] if pieces else ""
            if not isinstance(first, str) or len(first) < start:
                return SText([Fn("slice", obj, start, stop)])
            pieces[0] = first[start:]
        elif start is not None and start < 0:
            return SText([Fn("slice", obj, start, stop)])
        if stop is not None and stop < 0:
            last = pieces[-1]
            if not isinstance(last, str) or len(last) < -stop:
                return SText([Fn("slice", obj, start, stop)])
            pieces[-1] = last[:stop]
        elif stop is not None:
            return SText([Fn("slice", obj, start, stop)])
        return eng.norm(SText(pieces))
    if key not in (0, -1):
        return SText([Fn("char", obj, key)])
    if is_empty(eng, obj):
        raise PyRaise(IndexError("string index out of range"))
    obj = eng.norm(obj)
    if isinstance(obj, str):
        return obj[key]
    p = obj.pieces[key]
    if isinstance(p, str):
        return p[key]
    return SText([Fn("char", SText([p]) if isinstance(p, Fn) and p.op in NONEMPTY else obj, key)])


def format_(eng, v, spec=""):
    v = eng.norm(v)
    if spec == "":
        return str_(eng, v)
    if isinstance(v, Fin):
        v = eng.force(v)
    if not isinstance(v, Sym) and not isinstance(spec, Sym):
        try:
            return format(v, spec)
        except Exception as ex:
            raise PyRaise(ex)
    if isinstance(v, Opaque) and isinstance(spec, str):
        if (spec, "text") in v.info:
            return v.info[(spec, "text")]
        return SText([Fn("format", v, spec)])
    raise Unsupported(f"format of {v!r} with {spec!r}")


def str_(eng, v):
    v = eng.norm(v)
    if isinstance(v, (str, SText)) and not isinstance(v, enum.Enum):
        return v
    if isinstance(v, Fin):
        return str_(eng, eng.force(v))
    if isinstance(v, SInt):
        return SText([Fn("int", v)])
    if isinstance(v, SBool):
        return "True" if eng.truth(v) else "False"
    if isinstance(v, Opaque):
        return SText([Fn("str", v)])
    if isinstance(v, TypeOf):
        return SText([Fn("str", v.hole)])
    if isinstance(v, Hole):
        if eng.is_none(v):
            return "None"
        return eng.call_method(v, "__str__")
    if isinstance(v, Sym):
        raise Unsupported(f"str of {v!r}")
    if isinstance(v, (list, tuple, dict, set)) and not eng.is_plain_deep(v):
        return SText([Fn("str", Opaque(type(v), "container"))])
    t = type(v)
    if t.__module__.startswith(("treeno.", "contracts.")) and not isinstance(v, (type, enum.Enum, types.FunctionType)):
        return eng.call_method(v, "__str__")
    if isinstance(v, (Closure, BoundSym, HoleMethod)):
        raise Unsupported("str of a function")
    return str(v)


def repr_(eng, v):
    v = eng.norm(v)
    if isinstance(v, Sym) or not eng.is_plain_deep(v):
        return SText([Fn("repr", v if isinstance(v, (Sym,)) else Opaque(type(v), "value"))])
    return repr(v)


def join(eng, sep, items):
    if not isinstance(sep, str):
        items = eng.elements(items)
        if any(isinstance(e, Each) for e in items):
            # Only that it's some text made of these
            return SText([Fn("joined", Opaque(str, "joined"))])
        out = []
        for i, e in enumerate(items):
            out += (pieces_of(eng, sep) if i else []) + pieces_of(eng, text_only(eng, e))
        return SText(out)
    items = eng.elements(items)
    out, first = [], True          # first: True / False / a base (nothing so far if that one's empty)
    for i, e in enumerate(items):
        if isinstance(e, Each):
            if not e.items:
                if getattr(e, "partial", False):
                    raise Unsupported("join of a filtered list")
                continue
            if getattr(e, "partial", False):
                raise Unsupported("join of a filtered list")
            group = []
            for j, x in enumerate(e.items):
                if j:
                    group.append(sep)
                group += pieces_of(eng, text_only(eng, x))
            if first is True:
                out.append(Rep(e.base, sep, SText(group).pieces))
                first = e.base
            else:
                if first is not False:
                    if eng.truth(eng.compare_ints(first.length, 0)):
                        out.pop()
                        out.append(Rep(e.base, sep, SText(group).pieces))
                        first = e.base
                        continue
                    first = False
                out.append(Rep(e.base, None, SText([sep] + group).pieces))
            continue
        if first is not True and first is not False:
            if eng.truth(eng.compare_ints(first.length, 0)):
                out.pop()
                first = True
            else:
                first = False
        if first is False:
            out.append(sep)
        out += pieces_of(eng, text_only(eng, e))
        first = False
    return eng.norm(SText(out))


def text_only(eng, x):
    x = eng.norm(x)
    if isinstance(x, Fin):
        x = eng.force(x)
    if isinstance(x, (str, SText)) or isinstance(x, Opaque) and x.pytype is str:
        return x
    if isinstance(x, Sym) and not isinstance(x, (Hole, SInt, SBool)):
        raise Unsupported(f"{x!r} as text")
    raise PyRaise(TypeError("sequence item: expected str instance"))


def map_pieces(eng, v, op, consts, f):
    """A function that distributes over concatenation"""
    def one(p):
        if isinstance(p, str):
            return f(p)
        if isinstance(p, Rep):
            return Rep(p.base, None if p.sep is None else f(p.sep), [one(x) for x in p.items])
        if isinstance(p, Pad):
            return p if f(" ") == " " else Fn(op, p, *consts)
        if isinstance(p, Fn) and p.op in ("int", "digits") and f("0123456789-") == "0123456789-":
            return p
        if isinstance(p, Fn) and p.op == op and op in ("upper", "lower"):
            return p
        return Fn(op, p, *consts)
    return eng.norm(SText([one(p) for p in v.pieces]))


def format_template(eng, template, args, kwargs):
    import string
    out, auto = [], 0
    if not isinstance(template, str):
        # Braces of unknown parts would be placeholders
        raise Unsupported("format of a template that isn't constant")
    try:
        parsed = list(string.Formatter().parse(template))
    except ValueError as ex:
        raise PyRaise(ex)
    for lit, name, spec, conv in parsed:
        out.append(lit)
        if name is None:
            continue
        if name == "":
            name, auto = str(auto), auto + 1
        if name.isdigit():
            if int(name) >= len(args):
                raise PyRaise(IndexError(name))
            v = args[int(name)]
        elif name.isidentifier():
            if name not in kwargs:
                raise PyRaise(KeyError(name))
            v = kwargs[name]
        else:
            raise Unsupported("format field")
        if conv:
            raise Unsupported("conversion in a format string")
        out += pieces_of(eng, format_(eng, v, spec or ""))
    return eng.norm(SText(out))


DIGITS = "0123456789"


def has(p, c):
    """Whether a piece has a character: True, False, or None if it isn't known"""
    if isinstance(p, str):
        return c in p
    if isinstance(p, Fn) and p.op == "digits":
        return None if c in DIGITS else False
    if isinstance(p, StrVar) and c in p.root().without:
        return False
    return None


def stripped(eng, pieces, chars):
    """pieces without the leading characters among chars, or None if that isn't known"""
    ps = list(pieces)
    while ps:
        p = ps[0]
        if isinstance(p, str):
            ps[0] = p.lstrip(chars)
            if ps[0]:
                return ps
        elif isinstance(p, Fn) and p.op == "digits":
            if not set(DIGITS) & set(chars):
                return ps
            if not set(DIGITS) <= set(chars):
                return None
        elif isinstance(p, StrVar) and set(chars) <= p.root().without:
            if not is_empty(eng, SText([p])):
                return ps
        else:
            return None
        ps = ps[1:]
    return ps


def split_at(pieces, sep):
    """The parts of a text between single characters, or None if it isn't known where they are"""
    out = [[]]
    for p in pieces:
        if isinstance(p, str):
            first, *rest = p.split(sep)
            out[-1].append(first)
            out += [[r] for r in rest]
        elif has(p, sep) is False:
            out[-1].append(p)
        else:
            return None
    return out


def method(eng, s, name, args, kwargs):
    s = eng.norm(s)
    args = [eng.norm(a) for a in args]
    args = [eng.force(a) if isinstance(a, Fin) else a for a in args]
    if name == "join":
        return join(eng, s, args[0])
    if name == "format":
        return format_template(eng, s, args, kwargs)
    if isinstance(s, str) and not any(isinstance(a, Sym) or isinstance(a, (list, tuple)) and not eng.is_plain_deep(a) for a in args):
        try:
            return getattr(s, name)(*args, **kwargs)
        except Exception as ex:
            raise PyRaise(ex)
    if isinstance(s, str):
        s = SText([s])
        if not s.pieces:
            s = SText([""])
    if name in ("upper", "lower") and not args:
        return map_pieces(eng, s, name, (), lambda p: getattr(p, name)())
    if name == "replace" and len(args) == 2 and isinstance(args[0], str) and args[0] and isinstance(args[1], SText):
        if all(isinstance(p, str) for p in s.pieces):
            out = []
            for i, part in enumerate("".join(s.pieces).split(args[0])):
                out += (list(pieces_of(eng, args[1])) if i else []) + [part]
            return eng.norm(SText(out))
        return SText([Fn("replace", s, *args)])
    if name == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args):
        if len(args[0]) == 1:
            return map_pieces(eng, s, "replace", tuple(args), lambda p: p.replace(*args))
        if args[0] == args[1] * 2:
            # Lemma: undoubling q in a concatenation of texts in which all q are doubled gives the texts with q as it was
            q, out = args[1], []
            for p in s.pieces:
                if isinstance(p, str) and p.replace(q + q, q).replace(q, q + q) == p:
                    out.append(p.replace(q + q, q))
                elif isinstance(p, Fn) and p.op == "replace" and p.consts == (q, q + q):
                    out += [p.arg] if isinstance(p.arg, StrVar) else pieces_of(eng, p.arg)
                elif isinstance(p, Fn) and p.op in ("int", "digits"):
                    out.append(p)
                else:
                    break
            else:
                return eng.norm(SText(out))
        return SText([Fn("replace", s, *args)])
    if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], (str, tuple)):
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        if not s.pieces:
            return any(o == "" for o in opts)
        p = s.pieces[0 if name == "startswith" else -1]
        if isinstance(p, str):
            if any(getattr(p, name)(o) for o in opts):
                return True
            if all(len(o) <= len(p) or (p != o[:len(p)] if name == "startswith" else p != o[-len(p):]) for o in opts):
                return False
        return eng.memo_bool((name, s.key(), opts), name)
    if name in ("rjust", "ljust"):
        return SText([Pad(), *s.pieces] if name == "rjust" else [*s.pieces, Pad()])
    if name == "lstrip" and len(args) == 1 and isinstance(args[0], str):
        ps = stripped(eng, s.pieces, args[0])
        if ps is not None:
            return eng.norm(SText(ps))
    if name in ("count", "index", "find", "rindex", "rfind", "split", "rsplit", "partition", "rpartition") and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
        parts = split_at(s.pieces, args[0])
        if parts is not None:
            texts = [eng.norm(SText(q)) for q in parts]
            if name == "count":
                return len(parts) - 1
            if name in ("split", "rsplit"):
                return eng.born(texts)
            if name in ("partition", "rpartition"):
                if len(parts) == 1:
                    return (texts[0], "", "") if name == "partition" else ("", "", texts[0])
                joined = lambda ts: eng.norm(SText([x for i, t in enumerate(ts) for x in ([args[0]] if i else []) + t]))
                return (texts[0], args[0], joined(parts[1:])) if name == "partition" else (joined(parts[:-1]), args[0], texts[-1])
            if len(parts) == 1:
                if name in ("find", "rfind"):
                    return -1
                raise PyRaise(ValueError("substring not found"))
            if name in ("index", "find"):
                return length(eng, texts[0])
            return eng.norm(SInt(eng.z(length(eng, s)) - eng.z(length(eng, texts[-1])) - 1))
    if name in ("strip", "rstrip", "lstrip"):
        if not args:
            return SText([Fn(name, s)])
        return SText([Fn(name, s, *args)])
    if name in ("isdigit", "isidentifier", "isupper", "islower", "isspace", "isalpha", "isnumeric", "isdecimal"):
        p = s.pieces[0] if len(s.pieces) == 1 else None
        if isinstance(p, Fn) and p.op == "digits":
            return True
        return eng.memo_bool((name, s.key()), name)
    if name == "__str__":
        return s
    if name in ("count", "index", "find", "__len__"):
        return eng.memo_int((name, s.key(), tuple(args)), name, 0 if name in ("count", "__len__", "index") else -1)
    if name in ("encode",):
        return Opaque(bytes, "bytes")
    if name == "__eq__":
        return eng.eq(s, args[0])
    if name == "__hash__":
        raise Unsupported("hash")
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition", "title", "capitalize", "casefold", "swapcase", "zfill", "translate"):
        if name in ("title", "capitalize", "casefold", "swapcase", "zfill"):
            return SText([Fn(name, s, *args)])
        raise Unsupported(f"str.{name}")
    raise Unsupported(f"str.{name}")


def length(eng, v):
    v = eng.norm(v)
    if isinstance(v, str):
        return len(v)
    total = z3.IntVal(0)
    for p in v.pieces:
        if isinstance(p, str):
            total = total + len(p)
        else:
            n = eng.memo_int(("len", piece_key(p)), "len", 1 if isinstance(p, Fn) and p.op in NONEMPTY or isinstance(p, StrVar) and "" in p.root().excluded else 0)
            total = total + n.e
    return SInt(total)
