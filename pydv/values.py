"""Symbolic values of the verifier.

Everything that isn't one of these is an ordinary Python object. Lists (and dictionaries) of unknown length are real
lists that contain `Each` markers: Each(base, items) stands for any number of elements, one group of `items` for every
index of `base`; `items` are the elements at an arbitrary but fixed index. Reasoning is per element: what is shown for the
element at the arbitrary index holds for all.
"""
import itertools


class Unsupported(Exception):
    """Out of the verifier's reach: the function is undecided (never an alarm)"""


class Infeasible(Exception):
    """The assumptions of this path contradict one another"""


class PyRaise(Exception):
    """The interpreted code raises an exception"""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Sym:
    __slots__ = ()


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"


class Fin(Sym):
    """One of finitely many concrete (hashable) values"""
    __slots__ = ("opts", "name")

    def __init__(self, opts, name=""):
        self.opts, self.name = list(opts), name

    def __repr__(self):
        return f"Fin({self.name}: {self.opts if len(self.opts) < 6 else len(self.opts)})"


class StrVar:
    """An unknown string"""

    def __init__(self, name, nonempty=False):
        self.name, self.value, self.excluded, self.alias = name, None, set(), None
        self.without = frozenset()  # characters that aren't in it
        self.nonempty = nonempty
        if nonempty:
            self.excluded.add("")

    def root(self):
        v = self
        while v.alias is not None:
            v = v.alias
        return v

    def __repr__(self):
        return f"<{self.name}>"


class Fn:
    """A piece of text: op applied to a piece (a StrVar, an opaque value or another Fn), with constant arguments"""

    def __init__(self, op, arg, *consts):
        self.op, self.arg, self.consts = op, arg, consts

    def key(self):
        a = self.arg
        number = lambda n: ("int", n.e.sexpr()) if isinstance(n, SInt) else n
        if isinstance(a, SInt):
            return (self.op, tuple(number(c) for c in self.consts), number(a))
        return (self.op, self.consts, a.key() if isinstance(a, (Fn, Rep, SText)) else (id(a.root()) if isinstance(a, StrVar) else id(a)))

    def __repr__(self):
        return f"{self.op}({self.arg!r}{''.join(', ' + repr(c) for c in self.consts)})"


class Rep:
    """A piece of text: the texts of all elements, each group of them being `items` (tuple of pieces), between the
    elements (not in front of the first one unless `lead`) the separator; None for plain repetition"""

    def __init__(self, base, sep, items):
        self.base, self.sep, self.items = base, sep, tuple(items)

    def key(self):
        return ("rep", id(self.base), self.sep, tuple(piece_key(p) for p in self.items))

    def __repr__(self):
        return f"Rep[{self.base}]({self.sep!r}, {list(self.items)})"


class Pad:
    """A piece of text: some number of spaces (possibly none)"""

    def __init__(self, name="pad"):
        self.name = name

    def __repr__(self):
        return "<spaces>"


def piece_key(p):
    if isinstance(p, str):
        return p
    if isinstance(p, (Fn, Rep)):
        return p.key()
    if isinstance(p, StrVar):
        return id(p.root())
    if isinstance(p, tuple):
        return tuple(piece_key(x) for x in p)
    return id(p)


class SText(Sym):
    """A string made of pieces: str, StrVar, Fn, Rep, Pad"""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, StrVar):
                p = p.root()
                if p.value is not None:
                    p = p.value
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def key(self):
        return tuple(piece_key(p) for p in SText(self.pieces).pieces)

    def __repr__(self):
        return "T" + repr(list(self.pieces))


class _Unused(Sym):
    """The first (index 0) or last (-1) character of a text that isn't empty"""
    __slots__ = ("text", "index")

    def __init__(self, text, index):
        self.text, self.index = text, index


_ids = itertools.count()


class Hole(Sym):
    """An arbitrary instance of one of the classes (NoneType for None). Its fields are created when they're looked at."""
    __slots__ = ("classes", "fields", "name", "info", "owner")

    def __init__(self, classes, name="", info=None):
        self.classes, self.fields, self.name, self.info = tuple(classes), {}, name or f"h{next(_ids)}", info or {}
        self.owner = None

    def __repr__(self):
        cs = ",".join(c.__name__ for c in self.classes) if len(self.classes) < 4 else f"{len(self.classes)} classes"
        return f"Hole<{self.name}: {cs}>"


class TypeOf(Sym):
    __slots__ = ("hole",)

    def __init__(self, hole):
        self.hole = hole

    def __repr__(self):
        return f"TypeOf({self.hole!r})"


class Opaque(Sym):
    """An unknown value of a known python type"""
    __slots__ = ("pytype", "name", "info")

    def __init__(self, pytype, name, **info):
        self.pytype, self.name, self.info = pytype, name, info

    def __repr__(self):
        return f"Opaque<{self.pytype.__name__} {self.name}>"


class SymSet(Sym):
    """A set of values of which some are symbolic"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"SymSet({self.items})"


class SetSym(Sym):
    """A set of which it's only asked what its members are, and whether there are any"""
    __slots__ = ()


class GhostSet(SetSym):
    """An unknown set. `facts`: pairs of a value and whether it's a member"""
    __slots__ = ("name", "facts")

    def __init__(self, name, facts=()):
        self.name, self.facts = name, list(facts)

    def __repr__(self):
        return f"GhostSet({self.name})"


class SetOp(SetSym):
    """Union, intersection or difference"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def __repr__(self):
        return f"({self.a} {self.op} {self.b})"


class Base:
    """The index set of a list of unknown length. `tag` identifies it on every path (if it does)"""

    def __init__(self, name, length, tag=None):
        self.name, self.length, self.tag = name, length, tag

    def __repr__(self):
        return self.name


class Each:
    def __init__(self, base, items):
        self.base, self.items = base, list(items)

    def __repr__(self):
        return f"Each[{self.base}]{self.items}"


class EachKey:
    """The key at the arbitrary index of a dictionary of unknown length"""

    def __init__(self, base, key):
        self.base, self.key = base, key

    def __repr__(self):
        return f"EachKey[{self.base}]({self.key})"


class Havoc(Sym):
    """A value that isn't known, and that can't be used"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class BoundSym:
    """A method of a symbolic value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class HoleMethod:
    def __init__(self, hole, name, func):
        self.hole, self.name, self.func = hole, name, func


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Closure:
    def __init__(self, node, frame, name, defaults, kwdefaults):
        self.node, self.frame, self.name, self.defaults, self.kwdefaults = node, frame, name, defaults, kwdefaults

    def __repr__(self):
        return f"Closure<{self.name}>"


class Frame:
    def __init__(self, globals_, parent=None, locals_=None, code=None):
        self.globals, self.parent, self.locals, self.code = globals_, parent, locals_ if locals_ is not None else {}, code
        self.nonlocals = set()
        self.cls = None
        self.first = None
