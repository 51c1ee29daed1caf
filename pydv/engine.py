"""pydv: a deductive verifier for the Python functions of this repository.

The AST of every function is read from the file its code object names (on every run), and executed over symbolic values:
all paths are explored by replaying decisions, conditions over integers and booleans go to z3, everything else is decided
structurally. Calls to functions under a contract use the contract, all others are inlined. Loops over lists of unknown
length are executed once for the element at an arbitrary index; whatever the loop carries is havoced (or accumulates).
"""
import ast
import builtins
import enum
import functools
import inspect
import numbers
import os
import time
import types

import attr
import z3

from pydv.values import *  # noqa
from pydv.values import _ids

INTERPRETED = ("treeno.", "contracts.")
NOT_INTERPRETED = ("treeno.grammar.gen.SqlBaseParser", "treeno.grammar.gen.SqlBaseLexer", "treeno.grammar.gen.SqlBaseListener")


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# Source ----------------------------------------------------------------------------------------------------------
_trees = {}


def tree_of(filename):
    if filename not in _trees:
        with open(filename) as f:
            tree = ast.parse(f.read())
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([d.lineno for d in n.decorator_list] + [n.lineno])
                index.setdefault((first, n.name), []).append(n)
                if first != n.lineno:
                    index.setdefault((n.lineno, n.name), []).append(n)
            elif isinstance(n, ast.Lambda):
                index.setdefault((n.lineno, "<lambda>"), []).append(n)
        _trees[filename] = index
    return _trees[filename]


def node_of(func):
    code = func.__code__
    try:
        found = tree_of(code.co_filename).get((code.co_firstlineno, code.co_name), [])
    except OSError:
        raise Unsupported(f"no source of {func.__qualname__}")
    if len(found) > 1:
        names = code.co_varnames[:code.co_argcount]
        cols = [p[2] for p in code.co_positions() if p[2] is not None and p[0] is not None]
        found = [n for n in found if [a.arg for a in n.args.args] == list(names)
                 and (not isinstance(n, ast.Lambda) or any(n.body.col_offset <= c <= (n.body.end_col_offset or c) for c in cols))]
        found = found[:1] if len({ast.dump(n) for n in found}) == 1 else found
    if len(found) != 1:
        raise Unsupported(f"the source of {func.__qualname__} can't be located")
    return found[0]


def is_interpreted(func):
    m = getattr(func, "__module__", None) or ""
    return isinstance(func, types.FunctionType) and m.startswith(INTERPRETED) and not m.startswith(NOT_INTERPRETED) \
        and os.path.exists(func.__code__.co_filename)


def is_attrs_method(f):
    return isinstance(f, types.FunctionType) and (f.__code__.co_filename.startswith("<attrs generated") or f.__code__.co_filename.endswith("/attr/_make.py") and f.__name__.startswith("__"))


def concrete_subclasses(cls):
    return list(_concrete_subclasses(cls))


@functools.lru_cache(None)
def _concrete_subclasses(cls):
    from abc import ABC
    seen, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.append(c)
        todo.extend(type.__subclasses__(c))
    return sorted((c for c in seen if c.__module__.startswith(INTERPRETED) and not inspect.isabstract(c) and ABC not in c.__bases__),
                  key=lambda c: (c.__module__, c.__qualname__))


class TimeUp(Exception):
    pass


class Refuted(Exception):
    """A postcondition doesn't hold on this path"""

    def __init__(self, name, detail, model=None):
        super().__init__(name)
        self.name, self.detail, self.model = name, detail, model


class Engine:
    max_paths = 60000
    max_steps = 400000

    def __init__(self, contracts=None, methods=None, make_field=None):
        self.contracts = dict(contracts or {})      # function object -> handler(engine, args, kwargs)
        self.methods = dict(methods or {})          # name -> handler(engine, hole, args, kwargs), for methods of holes
        self.ih = None
        self.equal_hook = None
        self.distinct = []                          # bases whose elements are known to be distinct
        self.time_limit = None
        self.make_field = make_field                # (engine, hole/owner class, attribute) -> value
        self.stats = dict(paths=0, solver=0.0, queries=0, proved=0, functions=set())

    # Exploration ---------------------------------------------------------------------------------------------
    def explore(self, harness, stop_at_first=False):
        # Loops that turn out to be filters on some path have to be seen as filters on all of them
        self.counts, self.varying, self.keep_nodes, self.seen_effects, self.inconsistent = {}, set(), [], {}, set()
        for _ in range(4):
            self.again, n = False, len(self.inconsistent)
            paths, proved = self.stats["paths"], self.stats["proved"]
            out = self.explore_once(harness, stop_at_first)
            if not self.again and len(self.inconsistent) == n:
                return out
            self.stats["proved"] = proved
        return out + [("unsupported", "loops don't stabilise")]

    def explore_once(self, harness, stop_at_first=False):
        """Runs harness(engine) on every path: a list of (status, detail) with status ok/refuted/unsupported"""
        out, prefix = [], []
        self.answers = []
        while True:
            self.prefix, self.trace = prefix, []
            self.asked, self.decided = 0, {}
            self.solver = z3.Solver()
            self.solver.set("timeout", 10000)
            self.pc, self.steps, self.n = [], 0, 0
            self.pre, self.fresh, self.writes, self.loops, self.stack = {}, {}, [], [], []
            self.memo, self.notes, self.started, self.visible = {}, [], False, []
            self.keep, self.executions, self.filtered = [], {}, []
            # Bases of which each element answers alike as long as the condition holds
            self.uniform = {}
            try:
                r = harness(self)
                out.append(("ok", r))
            except Infeasible:
                pass
            except TimeUp:
                return out + [("unsupported", "time is up")]
            except Unsupported as u:
                out.append(("unsupported", str(u)))
            except Refuted as r:
                out.append(("refuted", r))
            except RecursionError:
                out.append(("unsupported", "recursion too deep"))
            self.stats["paths"] += 1
            if stop_at_first and out and out[-1][0] != "ok":
                break
            t = self.trace
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                break
            if self.time_limit and time.time() > self.time_limit:
                out.append(("unsupported", "time is up"))
                break
            if len(out) > self.max_paths:
                out.append(("unsupported", "too many paths"))
                break
            prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        return out

    def choose(self, n, note=None):
        if n == 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        if note:
            self.notes.append((note, c))
        return c

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("too many steps")
        if self.time_limit and self.steps % 256 == 0 and time.time() > self.time_limit:
            raise TimeUp()

    def start(self):
        """Everything that exists now belongs to the caller"""
        self.started = True

    def born(self, x):
        (self.fresh if self.started else self.pre)[id(x)] = x
        if self.loops:
            self.loops[-1]["born"].add(id(x))
        return x

    def name(self, prefix):
        self.n += 1
        return f"{prefix}{self.n}"

    # Logic ------------------------------------------------------------------------------------------------------
    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        if isinstance(e, SBool):
            e = e.e
        self.solver.add(e)
        self.pc.append(e)

    def check(self, *es):
        # Up to the choice that makes this path differ from the previous one, the answers are the same
        i, self.asked = self.asked, self.asked + 1
        if len(self.trace) < len(self.prefix) and i < len(self.answers):
            return self.answers[i]
        t = time.time()
        r = self.solver.check(*es)
        self.stats["solver"] += time.time() - t
        self.stats["queries"] += 1
        self.answers[i:] = [r]
        return r

    def branch(self, e, note=None):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        # What was decided on this path stays so
        known = self.decided.get(e.get_id())
        if known is not None:
            return known[1]
        can_true, can_false = self.check(e) != z3.unsat, self.check(z3.Not(e)) != z3.unsat
        if can_true and can_false:
            value = self.choose(2, note) == 0
        elif not can_true and not can_false:
            raise Infeasible()
        else:
            value = can_true
        self.assume(e if value else z3.Not(e))
        self.decided[e.get_id()] = (e, value)
        return value

    only = None          # a choice of obligations, by name

    def prove(self, cond, name, detail=""):
        """Obligation: cond holds on this path"""
        if self.only is not None and not self.only(name):
            return
        if isinstance(cond, SBool):
            r = self.check(z3.Not(cond.e))
            if r == z3.sat:
                raise Refuted(name, detail, str(self.solver.model()))
            if r != z3.unsat:
                raise Unsupported(f"{name}: the solver gives no answer")
        elif not cond:
            raise Refuted(name, detail)
        self.stats["proved"] += 1

    def int_(self, name="n", low=None, high=None):
        v = z3.Int(self.name(name))
        if low is not None:
            self.assume(v >= low)
        if high is not None:
            self.assume(v <= high)
        return SInt(v)

    def bool_(self, name="b"):
        return SBool(z3.Bool(self.name(name)))

    def str_(self, name="s", nonempty=False):
        return SText([StrVar(self.name(name), nonempty)])

    def base(self, name="L", nonempty=False):
        return Base(self.name(name), self.int_("len", 1 if nonempty else 0))

    def memo_bool(self, key, name="b"):
        if key not in self.memo:
            self.memo[key] = self.bool_(name)
        return self.memo[key]

    def memo_int(self, key, name="n", low=None):
        if key not in self.memo:
            self.memo[key] = self.int_(name, low)
        return self.memo[key]

    def compare_ints(self, a, b):
        return self.norm(SBool(self.z(a) == self.z(b)))

    def known_equal(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        return self.check(self.z(a) != self.z(b)) == z3.unsat

    def is_plain_deep(self, v, depth=0):
        """Whether a value has no symbolic parts"""
        if isinstance(v, (Sym, Each, EachKey, Closure, BoundSym, HoleMethod)):
            return False
        if isinstance(v, (list, tuple, set, frozenset)):
            return all(self.is_plain_deep(x) for x in v)
        if isinstance(v, dict):
            return all(self.is_plain_deep(k) and self.is_plain_deep(x) for k, x in v.items())
        if attr.has(type(v)) and type(v).__module__.startswith(INTERPRETED) and depth < 12:
            return all(self.is_plain_deep(x, depth + 1) for x in v.__dict__.values())
        return True

    def term_key(self, x):
        x = self.norm(x)
        if isinstance(x, SText):
            return ("text", x.key())
        if isinstance(x, (SInt, SBool)):
            return ("int", x.e.sexpr())
        if isinstance(x, (str, int, float, type(None))):
            return (type(x).__name__, x)
        if isinstance(x, tuple):
            return tuple(self.term_key(i) for i in x)
        self.keep.append(x)
        return id(x)

    def element_at(self, each, key):
        """A particular element of a list of unknown length"""
        k = ("element", id(each), key)
        if k not in self.memo:
            make = getattr(each, "make", None)
            if make is None:
                raise Unsupported("a particular element of a list of unknown length")
            self.memo[k] = make()
            self.keep.append(each)
        return self.memo[k]

    # Values -----------------------------------------------------------------------------------------------------
    def norm(self, v):
        if not isinstance(v, Sym):
            return v
        if isinstance(v, Fin):
            return v.opts[0] if len(v.opts) == 1 else v
        if isinstance(v, Hole):
            return None if v.classes == (type(None),) else v
        if isinstance(v, SText):
            w = SText(v.pieces)
            v = v if len(v.pieces) == len(w.pieces) and all(x is y for x, y in zip(v.pieces, w.pieces)) else w
            if not v.pieces:
                return ""
            return v.pieces[0] if len(v.pieces) == 1 and isinstance(v.pieces[0], str) else v
        if isinstance(v, SInt):
            e = v.e if isinstance(v.e, int) else z3.simplify(v.e)
            return e if isinstance(e, int) else e.as_long() if z3.is_int_value(e) else v
        if isinstance(v, SBool):
            e = v.e if isinstance(v.e, bool) else z3.simplify(v.e)
            return e if isinstance(e, bool) else True if z3.is_true(e) else False if z3.is_false(e) else v
        if isinstance(v, TypeOf):
            return v.hole.classes[0] if len(v.hole.classes) == 1 else v
        if isinstance(v, Havoc):
            raise Unsupported(f"use of a value carried by a loop ({v.why})")
        return v

    def split(self, hole, key):
        """Decides which group of classes a hole (or which group of values a Fin) belongs to"""
        groups = {}
        fin = isinstance(hole, Fin)
        like = None if fin else hole.info.get("like")
        if like is not None:
            # It's of the class of another object
            k = self.split(like, key)
            hole.classes = like.classes
            return k
        for c in (hole.opts if fin else hole.classes):
            groups.setdefault(key(c), []).append(c)
        ks = list(groups)
        k = ks[self.choose(len(ks), (hole.name, [str(x)[:30] for x in ks[:4]]))]
        if fin:
            hole.opts = groups[k]
        else:
            hole.classes = tuple(groups[k])
        return k

    def force(self, v):
        """A single concrete value"""
        v = self.norm(v)
        if isinstance(v, Fin):
            i = self.choose(len(v.opts), (v.name, None))
            v.opts = [v.opts[i]]
            return v.opts[0]
        if isinstance(v, TypeOf):
            self.split(v.hole, lambda c: c)
            return v.hole.classes[0]
        return v

    def is_none(self, v):
        v = self.norm(v)
        if isinstance(v, Hole):
            return self.split(v, lambda c: c is type(None))
        if isinstance(v, Fin):
            return self.split(v, lambda c: c is None)
        return v is None

    def type_of(self, v):
        v = self.norm(v)
        if isinstance(v, Hole):
            return v.classes[0] if len(v.classes) == 1 else TypeOf(v)
        if isinstance(v, Fin):
            return self.split(v, type)
        return self.pytype(v)

    def pytype(self, v):
        if isinstance(v, SText):
            return str
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SymSet):
            return set
        if isinstance(v, Opaque):
            return v.pytype
        if isinstance(v, (TypeOf,)):
            return type
        if isinstance(v, (Closure, BoundSym, HoleMethod)):
            return types.FunctionType
        if isinstance(v, Sym):
            raise Unsupported(f"type of {v!r}")
        return type(v)

    def isinstance_(self, v, classes):
        v = self.norm(v)
        classes = self.flat_classes(classes)
        if isinstance(v, Hole):
            return self.split(v, lambda c: issubclass(c, classes))
        if isinstance(v, Fin):
            return self.split(v, lambda c: isinstance(c, classes))
        return issubclass(self.pytype(v), classes)

    def flat_classes(self, classes):
        classes = self.norm(classes)
        if isinstance(classes, (tuple, list)):
            return tuple(self.force(c) for c in classes)
        return self.force(classes)

    def truth(self, v):
        v = self.norm(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return self.branch(v.e)
        if isinstance(v, SInt):
            return self.branch(v.e != 0)
        if isinstance(v, SText):
            from pydv import text
            return not text.is_empty(self, v)
        if isinstance(v, Fin):
            return self.split(v, bool)
        if isinstance(v, Hole):
            if self.split(v, lambda c: c is type(None)):
                return False
            for m in ("__bool__", "__len__"):
                if any(hasattr(c, m) for c in v.classes):
                    raise Unsupported(f"truth of {v!r}")
            return True
        if isinstance(v, SetSym):
            from pydv import models
            return models.some_member(self, v)
        if isinstance(v, SymSet):
            return bool(v.items) if not any(isinstance(i, Each) for i in v.items) else self.truth(self.length(v.items))
        if isinstance(v, (list, tuple)):
            if any(not isinstance(e, Each) for e in v):
                self.note_read(v)
                return True
            return self.truth(self.length(v)) if v else (self.note_read(v) or False)
        if isinstance(v, dict):
            self.note_read(v)
            if any(not isinstance(k, EachKey) for k in v):
                return True
            return self.truth(self.length(v)) if v else False
        if isinstance(v, Opaque):
            return self.truth(self.memo_bool(("truth", id(v)), "truth"))
        if isinstance(v, Sym):
            raise Unsupported(f"truth of {v!r}")
        if isinstance(v, (Closure, BoundSym, HoleMethod)):
            return True
        t = type(v)
        if t.__module__.startswith(INTERPRETED) and not isinstance(v, (type, enum.Enum)):
            for m in ("__bool__", "__len__"):
                if hasattr(t, m):
                    return self.truth(self.call_method(v, m))
            return True
        return bool(v)

    def length(self, v):
        self.note_read(v)
        n, syms = 0, []
        for e in v:
            if isinstance(e, Each):
                if getattr(e, "partial", False):
                    key = ("partial", id(e))
                    self.keep.append(e)
                    n_part = self.memo_int(key, "part", 0)
                    if not any(e is x for x in self.filtered):
                        # The arbitrary element is one of those that are left, or isn't
                        self.filtered.append(e)
                        self.assume(z3.Or(e.base.length.e == 0, n_part.e >= 1 if e.items else n_part.e >= 0))
                    syms.append((Base("partial", n_part), 1))
                    continue
                if len(e.items) == 0:
                    continue
                syms.append((e.base, len(e.items)))
            elif isinstance(e, EachKey):
                syms.append((e.base, 1))
            else:
                n += 1
        if not syms:
            return n
        return SInt(sum((k * b.length.e for b, k in syms), z3.IntVal(n)))

    # Loops and ghost bookkeeping --------------------------------------------------------------------------------
    def note_read(self, v):
        for l in self.loops:
            if id(v) in l["effects"]:
                raise Unsupported("a list is read in the loop that fills it")
            if isinstance(v, list) and id(v) not in l["born"]:
                l["reads"][id(v)] = v

    def append(self, lst, x):
        """lst.append(x), which may happen in a loop over a list of unknown length"""
        self.record_write("list", lst, None)
        active = [l for l in self.loops if id(lst) not in l["born"]]
        if not active:
            lst.append(x)
            return
        if len(active) > 1:
            raise Unsupported("nested loops over lists of unknown length fill the same list")
        loop = active[0]
        if loop is not self.loops[-1] and False:
            pass
        if id(lst) in loop["reads"]:
            raise Unsupported("a list is read in the loop that fills it")
        if id(lst) in loop["effects"]:
            marker = loop["effects"][id(lst)][1]
            assert lst[-1] is marker
        else:
            marker = Each(loop["base"], [])
            loop["effects"][id(lst)] = (lst, marker)
            lst.append(marker)
        marker.items.append(x)

    def record_write(self, kind, obj, what):
        if id(obj) in self.fresh:
            return
        if id(obj) in self.pre:
            if self.started:
                self.writes.append((kind, obj, what))
            return
        raise Unsupported(f"write to an object that belongs to neither the caller nor the call: {type(obj).__name__}")

    def elements(self, v):
        """What iterating over v gives: a list in which Each markers stand for unknown numbers of elements"""
        v = self.norm(v)
        if isinstance(v, (list, tuple)):
            self.note_read(v)
            return [x for x in v if not isinstance(x, Each) or x.items or getattr(x, "partial", False)]
        if isinstance(v, dict):
            self.note_read(v)
            return [Each(k.base, [k.key]) if isinstance(k, EachKey) else k for k in v]
        if isinstance(v, SymSet):
            return list(v.items)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if hasattr(v, "__pydv_iter__"):
            return v.__pydv_iter__(self)
        if isinstance(v, Fin):
            return self.elements(self.force(v))
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Sym):
            raise Unsupported(f"iteration over {v!r}")
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return list(v)
        if isinstance(v, types.GeneratorType):
            raise Unsupported("generator")
        try:
            return list(v)
        except TypeError as ex:
            raise PyRaise(ex)

    def enter(self, loop):
        """The elements stand for arbitrary ones: two nested loops over the same list would need two of them"""
        if any(l["base"] is loop["base"] for l in self.loops):
            raise Unsupported("nested loops over the same list")
        self.loops.append(loop)

    def run_each(self, each, body, carried, frame, node):
        """Executes body(items) for the arbitrary index of a list of unknown length"""
        base = each.base
        loop = {"base": base, "effects": {}, "reads": {}, "born": set()}
        before = {}
        for name in carried:
            if name in frame.locals:
                old = frame.locals[name]
                before[name] = old
                frame.locals[name] = self.havoc_carried(name, old)
        accs = {n: frame.locals[n] for n in before}
        self.enter(loop)
        outer = self.pc
        try:
            for item in each.items:
                body(item)
        finally:
            self.loops.pop()
        loop_key = (id(node), self.execution(node, "loop", base))
        for k, (lst, marker) in enumerate(loop["effects"].values()):
            marker.partial = self.note_count(node, k, len(marker.items), len(each.items), base) or loop_key in self.inconsistent or \
                getattr(each, "partial", False)
        self.keep_nodes.append(node)
        if len(loop["effects"]) != self.seen_effects.setdefault(loop_key, len(loop["effects"])):
            self.inconsistent.add(loop_key)
        for name in carried:
            if name not in frame.locals:
                continue
            new, old = frame.locals[name], before.get(name)
            if name in before and new is accs[name]:
                frame.locals[name] = old  # isn't changed after all
                continue
            frame.locals[name] = self.after_carried(name, old, accs.get(name), new, base, name in before)

    def execution(self, node, k, base):
        """The same loop may be executed several times: executions of the same ordinal number over lists with the same tag are compared"""
        tag = getattr(base, "tag", None)
        if tag is None:
            return None
        n = self.executions.get((id(node), k, tag), 0)
        self.executions[id(node), k, tag] = n + 1
        return tag, n

    def note_count(self, node, k, n, of, base=None):
        """Whether the number of elements that a loop produces for one element varies (a filter)"""
        key = (id(node), k, self.execution(node, k, base))
        self.keep_nodes.append(node)
        if self.counts.setdefault(key, (n, of)) != (n, of):
            if key not in self.varying:
                self.varying.add(key)
                self.again = True
        return key in self.varying

    def havoc_carried(self, name, old):
        o = self.norm(old) if not isinstance(old, Havoc) else old
        if isinstance(o, bool) or isinstance(o, SBool):
            return self.bool_("carried_" + name)
        if isinstance(o, (int, SInt)):
            return self.int_("carried_" + name)
        if isinstance(o, (str, SText)):
            return SText([Fn("carried", Opaque(str, name))])
        return Havoc(name)

    def after_carried(self, name, old, acc, new, base, existed):
        if isinstance(new, Havoc):
            return new
        n = self.norm(new)
        if isinstance(n, (int, SInt, SBool, bool)) and existed:
            return self.havoc_carried(name, n)
        if existed and isinstance(acc, SText) and isinstance(n, SText) and isinstance(acc.pieces[0], Fn) and acc.pieces[0].op == "carried":
            if n.pieces and n.pieces[0] is acc.pieces[0] and not any(p is acc.pieces[0] for p in n.pieces[1:]):
                from pydv import text
                return SText(text.pieces_of(self, old) + self.repeated(base, n.pieces[1:]))
        return Havoc(name)

    def repeated(self, base, items):
        """The text of all elements, one after the other: blanks in front of each of them separate them, and there's another one in front"""
        first = items[0] if items else None
        if not isinstance(first, str) or first[:1] not in (" ", "\n"):
            return (Rep(base, None, items),)
        blanks = first[:len(first) - len(first.lstrip(" \n"))]
        if self.truth(self.compare_ints(base.length, 0)):
            return ()
        rest = ((first[len(blanks):],) if len(first) > len(blanks) else ()) + tuple(items[1:])
        return (blanks, Rep(base, blanks, rest)) if rest else (Rep(base, None, items),)

    # Attributes -------------------------------------------------------------------------------------------------
    def lookup(self, cls, name):
        """How instances of a class have an attribute: ("field", attribute), ("class", raw value) or None"""
        if attr.has(cls):
            for f in attr.fields(cls):
                if f.name == name:
                    return "field", f
        for c in cls.__mro__:
            if name in c.__dict__:
                return "class", c.__dict__[name]
        return None

    def getattr_(self, obj, name):
        self.step()
        obj = self.norm(obj)
        if isinstance(obj, Hole):
            return self.hole_attr(obj, name)
        if isinstance(obj, Fin):
            return self.getattr_(self.force(obj), name)
        if isinstance(obj, TypeOf):
            if name in ("__name__", "__qualname__"):
                return SText([Fn("name", obj.hole)])
            return self.getattr_(self.force(obj), name)
        if isinstance(obj, Super):
            mro = self.force(self.type_of(obj.obj)).__mro__
            for c in mro[mro.index(obj.cls) + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], obj.obj, mro[0])
            raise PyRaise(AttributeError(name))
        if isinstance(obj, Opaque):
            if name in obj.info:
                return obj.info[name]
            if name == "__class__":
                return obj.pytype
            return BoundSym(obj, name)
        if isinstance(obj, (SText, SInt, SBool, SymSet, SetSym)):
            if name == "__class__":
                return self.pytype(obj)
            return BoundSym(obj, name)
        if isinstance(obj, Sym):
            raise Unsupported(f"attribute {name} of {obj!r}")
        if isinstance(obj, (str, list, dict, tuple, set, frozenset)) and type(obj) in (str, list, dict, tuple, set, frozenset) or type(obj).__name__ == "defaultdict":
            return BoundSym(obj, name)
        if isinstance(obj, (Closure, BoundSym, HoleMethod)):
            raise Unsupported(f"attribute {name} of a function")
        # An ordinary object
        if name == "__class__":
            return type(obj)
        if name == "__dict__":
            raise Unsupported("__dict__")
        hook = getattr(type(obj), "__pydv_getattr__", None)
        if hook is not None:
            return hook(obj, self, name)
        if name not in getattr(obj, "__dict__", {}):
            raw = inspect.getattr_static(type(obj), name, None)
            if isinstance(raw, property) and is_interpreted(raw.fget):
                return self.call(raw.fget, [obj])
        try:
            return getattr(obj, name)
        except AttributeError as ex:
            raise PyRaise(ex)

    def bind(self, raw, obj, cls):
        if isinstance(raw, (staticmethod,)):
            return raw.__func__
        if isinstance(raw, classmethod):
            return types.MethodType(raw.__func__, cls)
        if isinstance(raw, property):
            return self.call(raw.fget, [obj])
        if isinstance(raw, types.FunctionType):
            return HoleMethod(obj, raw.__name__, raw)
        return raw

    def hole_attr(self, hole, name):
        if name == "__class__":
            return self.type_of(hole)
        if name in hole.fields:
            return hole.fields[name]
        hook = hole.info.get("getattr")
        if hook is not None:
            r = hook(self, hole, name)
            if r is not NotImplemented:
                return r

        def key(cls):
            found = self.lookup(cls, name)
            if found is None:
                extra = self.extra_field(cls, name)
                return ("field", extra) if extra is not None else ("missing",)
            if found[0] == "field":
                return ("field", str(found[1].type))
            raw = found[1]
            return ("class", id(raw) if not isinstance(raw, (str, int, bool, type(None))) else raw)
        if name in self.methods and all(callable(getattr(c, name, None)) for c in hole.classes):
            return HoleMethod(hole, name, None)
        k = self.split(hole, key)
        hole = self.norm(hole)
        if hole is None:
            return self.getattr_(None, name)
        if k[0] == "missing":
            raise PyRaise(AttributeError(f"{hole!r} has no attribute {name}"))
        cls = hole.classes[0]
        if k[0] == "field":
            value = self.make_field(self, hole, cls, name)
            hole.fields[name] = value
            return value
        raw = self.lookup(cls, name)[1]
        if isinstance(raw, types.FunctionType):
            return HoleMethod(hole, name, raw)
        if isinstance(raw, (classmethod, staticmethod, property)):
            if isinstance(raw, classmethod):
                cls = self.force(self.type_of(hole))
            return self.bind(raw, hole, cls)
        return raw

    def extra_field(self, cls, name):
        return None

    def setattr_(self, obj, name, value):
        obj = self.norm(obj)
        if isinstance(obj, Hole):
            if self.started:
                self.writes.append(("attr", obj, name))
            obj.fields[name] = value
            return
        if isinstance(obj, Sym) or isinstance(obj, type):
            raise Unsupported(f"assignment to an attribute of {obj!r}")
        self.record_write("attr", obj, name)
        if self.loops and not all(id(obj) in l["born"] for l in self.loops):
            raise Unsupported("a loop over a list of unknown length assigns to an attribute")
        object.__setattr__(obj, name, value)

    # Calls ------------------------------------------------------------------------------------------------------
    def call_method(self, obj, name, *args, **kwargs):
        return self.call(self.getattr_(obj, name), list(args), kwargs)

    def call(self, f, args=(), kwargs=None):
        self.step()
        args, kwargs = list(args), dict(kwargs or {})
        f = self.norm(f)
        if isinstance(f, TypeOf):
            f = self.force(f)
        if isinstance(f, Fin):
            f = self.force(f)
        if isinstance(f, Closure):
            return self.invoke(f.node, f.frame, args, kwargs, f.defaults, f.kwdefaults, f.name)
        if isinstance(f, HoleMethod):
            if f.name in self.methods and isinstance(self.norm(f.hole), Hole):
                r = self.methods[f.name](self, f.hole, args, kwargs)
                if r is not NotImplemented:
                    return r
            func = f.func
            if func is None:
                h = f.hole
                self.split(h, lambda c: id(inspect.getattr_static(c, f.name, None)))
                h = self.norm(h)
                func = inspect.getattr_static(h.classes[0], f.name)
                if not isinstance(func, types.FunctionType):
                    return self.call(self.bind(func, h, self.force(self.type_of(h))), args, kwargs)
            return self.call(func, [f.hole] + args, kwargs)
        if isinstance(f, BoundSym):
            from pydv import models
            return models.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        handler = None
        try:
            handler = self.contracts.get(f)
        except TypeError:
            pass
        if handler is not None:
            r = handler(self, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, types.FunctionType):
            if is_attrs_method(f):
                return self.attrs_method(f, args, kwargs)
            wrapped = getattr(f, "__wrapped__", None)
            if not is_interpreted(f) and wrapped is None:
                from pydv import models
                return models.native(self, f, args, kwargs)
            if hasattr(f, "__pydv_native__"):
                return f(self, *args, **kwargs)
            self.stats["functions"].add(f"{f.__module__}.{f.__qualname__}")
            node = node_of(f)
            cells = {}
            for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
            outer = Frame(f.__globals__, None, cells)
            return self.invoke(node, outer, args, kwargs, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), f.__qualname__, f)
        if isinstance(f, type):
            from pydv import models
            return models.construct(self, f, args, kwargs)
        if isinstance(f, Sym):
            raise Unsupported(f"call of {f!r}")
        from pydv import models
        m = getattr(type(f), "__pydv_call__", None)
        if m is not None:
            return m(f, self, args, kwargs)
        return models.native(self, f, args, kwargs)

    def attrs_method(self, f, args, kwargs):
        if f.__name__ == "__eq__":
            return self.attrs_eq(args[0], args[1])
        if f.__name__ == "__ne__":
            r = self.attrs_eq(args[0], args[1])
            return r if r is NotImplemented else self.not_(r)
        if f.__name__ in ("__attrs_init__", "__init__"):
            from pydv import models
            models.attrs_fill(self, args[0], type(args[0]), args[1:], kwargs)
            return None
        if f.__name__ == "__repr__":
            return SText([Fn("repr", args[0])])
        raise Unsupported(f"attrs method {f.__name__}")

    def invoke(self, node, outer, args, kwargs, defaults, kwdefaults, name, func=None):
        if len(self.stack) > 150:
            raise Unsupported(f"recursion too deep in {name}")
        if self.ih is not None and any(n is node for _, n, _ in self.stack):
            # Induction: the recursive call fulfils the contract
            r = self.ih(self, name, args, kwargs)
            if r is not NotImplemented:
                return r
        a = node.args
        frame = Frame(outer.globals, outer, {}, node)
        params = [p.arg for p in a.posonlyargs + a.args]
        given = list(args)
        if given:
            frame.first = given[0]
        for p in params:
            if given:
                frame.locals[p] = given.pop(0)
        if given:
            if any(isinstance(g, Each) for g in given) and a.vararg is None:
                raise Unsupported(f"unknown number of arguments for {name}")
            if a.vararg is None:
                raise PyRaise(TypeError(f"{name}: too many arguments"))
            frame.locals[a.vararg.arg] = self.born(tuple(given))
        elif a.vararg is not None:
            frame.locals[a.vararg.arg] = ()
        if any(isinstance(frame.locals.get(p), Each) for p in params):
            raise Unsupported(f"unknown number of arguments for {name}")
        kw = dict(kwargs)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p in kw:
                if p in frame.locals:
                    raise PyRaise(TypeError(f"{name}: multiple values for {p}"))
                frame.locals[p] = kw.pop(p)
        if a.kwarg is not None:
            frame.locals[a.kwarg.arg] = self.born(kw)
        elif kw:
            raise PyRaise(TypeError(f"{name}: unexpected {sorted(map(str, kw))}"))
        for p, d in zip(params[len(params) - len(defaults):], defaults):
            frame.locals.setdefault(p, d)
        for p in a.kwonlyargs:
            if p.arg not in frame.locals:
                if p.arg not in kwdefaults:
                    raise PyRaise(TypeError(f"{name}: missing {p.arg}"))
                frame.locals[p.arg] = kwdefaults[p.arg]
        for p in params:
            if p not in frame.locals:
                raise PyRaise(TypeError(f"{name}: missing {p}"))
        self.stack.append((name, node, args))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            if yields(node):
                frame.locals["*yield"] = self.born([])
                try:
                    self.block(node.body, frame)
                except _Return:
                    pass
                return frame.locals["*yield"]
            try:
                self.block(node.body, frame)
            except _Return as r:
                return r.value
            return None
        finally:
            self.stack.pop()

    # Statements -------------------------------------------------------------------------------------------------
    def block(self, body, frame):
        for s in body:
            self.stmt(s, frame)

    def stmt(self, s, f):
        self.step()
        m = getattr(self, "stmt_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, f)

    def stmt_Expr(self, s, f):
        if not (isinstance(s.value, ast.Constant)):
            self.eval(s.value, f)

    def stmt_Pass(self, s, f):
        pass

    def stmt_Return(self, s, f):
        raise _Return(self.eval(s.value, f) if s.value is not None else None)

    def stmt_Break(self, s, f):
        raise _Break()

    def stmt_Continue(self, s, f):
        raise _Continue()

    def stmt_Global(self, s, f):
        raise Unsupported("global")

    def stmt_Nonlocal(self, s, f):
        f.nonlocals |= set(s.names)

    def stmt_Import(self, s, f):
        for a in s.names:
            m = __import__(a.name)
            f.locals[a.asname or a.name.split(".")[0]] = m if a.asname is None else __import__(a.name, fromlist=["x"])

    def stmt_ImportFrom(self, s, f):
        try:
            m = __import__(s.module, fromlist=[a.name for a in s.names])
        except ImportError as ex:
            raise PyRaise(ex)
        for a in s.names:
            f.locals[a.asname or a.name] = getattr(m, a.name)

    def stmt_FunctionDef(self, s, f):
        c = self.closure(s, f, s.name)
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, f), [c])
        f.locals[s.name] = c

    def closure(self, node, f, name):
        a = node.args
        return Closure(node, f, name, [self.eval(d, f) for d in a.defaults],
                       {p.arg: self.eval(d, f) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def stmt_Assign(self, s, f):
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign(t, v, f)

    def stmt_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, f), f)

    def stmt_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name_(t.id, f)
            self.assign(t, self.augmented(s.op, old, self.eval(s.value, f)), f)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, f)
            old = self.getattr_(obj, t.attr)
            self.setattr_(obj, t.attr, self.augmented(s.op, old, self.eval(s.value, f)))
        elif isinstance(t, ast.Subscript):
            obj, key = self.eval(t.value, f), self.eval(t.slice, f)
            old = self.getitem(obj, key)
            self.setitem(obj, key, self.augmented(s.op, old, self.eval(s.value, f)))
        else:
            raise Unsupported("augmented assignment")

    def augmented(self, op, old, value):
        old = self.norm(old)
        if isinstance(old, list) and isinstance(op, ast.Add):
            for e in self.elements(value):
                if isinstance(e, Each):
                    self.extend_each(old, e)
                else:
                    self.append(old, e)
            return old
        if isinstance(old, (set, SymSet, SetSym)) and isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            r = self.binop(op, old, value)
            # In place, unlike the operator
            if isinstance(old, (set, GhostSet)) and id(old) not in self.fresh:
                self.record_write("set", old, None)
            return r
        if isinstance(old, dict) and isinstance(op, ast.BitOr):
            self.record_write("dict", old, None)
        return self.binop(op, old, value)

    def extend_each(self, lst, each):
        self.record_write("list", lst, None)
        if any(id(lst) not in l["born"] for l in self.loops):
            raise Unsupported("a loop extends a list by a list of unknown length")
        lst.append(each)

    def stmt_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj, key = self.norm(self.eval(t.value, f)), self.force(self.eval(t.slice, f))
                self.record_write(type(obj).__name__, obj, key)
                try:
                    del obj[key]
                except Exception as ex:
                    raise PyRaise(ex)
            elif isinstance(t, ast.Name):
                f.locals.pop(t.id, None)
            else:
                raise Unsupported("del")

    def stmt_If(self, s, f):
        self.block(s.body if self.truth(self.eval(s.test, f)) else s.orelse, f)

    def stmt_While(self, s, f):
        n = 0
        while self.truth(self.eval(s.test, f)):
            n += 1
            if n > 200:
                raise Unsupported("a loop that needs an invariant")
            try:
                self.block(s.body, f)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, f)

    def search(self, s, f):
        """for x in xs: if test: return constant -- that's if any(test for x in xs): return constant"""
        if len(s.body) != 1 or not isinstance(s.body[0], ast.If) or s.body[0].orelse or len(s.body[0].body) != 1 or s.orelse:
            return NotImplemented
        r = s.body[0].body[0]
        if not isinstance(r, ast.Return) or r.value is not None and not isinstance(r.value, ast.Constant):
            return NotImplemented
        elements = self.elements(self.eval(s.iter, f))
        if not any(isinstance(e, Each) for e in elements):
            return elements
        from pydv import models
        negated = isinstance(s.body[0].test, ast.UnaryOp) and isinstance(s.body[0].test.op, ast.Not)
        test = s.body[0].test.operand if negated else s.body[0].test

        def one(x):
            self.assign(s.target, x, f)
            return self.as_bool(self.eval(test, f))
        found = models.f_all(self, models.over(self, elements, one)) if negated else models.f_any(self, models.over(self, elements, one))
        if self.truth(found) != negated:
            self.stmt(r, f)
        return None

    def as_bool(self, x):
        """The truth value of x"""
        x = self.norm(x)
        return x if isinstance(x, (bool, SBool)) else self.truth(x)

    def stmt_For(self, s, f):
        carried = assigned_names(s.body) - assigned_target(s.target)
        broke = []

        def body(item):
            self.assign(s.target, item, f)
            try:
                self.block(s.body, f)
            except _Continue:
                pass
        elements = self.search(s, f)
        if elements is None:
            return
        for e in self.elements(self.eval(s.iter, f)) if elements is NotImplemented else elements:
            if isinstance(e, Each):
                try:
                    self.run_each(e, body, carried, f, s)
                except _Break:
                    raise Unsupported("break in a loop over a list of unknown length")
            else:
                try:
                    body(e)
                except _Break:
                    broke.append(1)
                    break
        if not broke:
            self.block(s.orelse, f)

    def stmt_Assert(self, s, f):
        if not self.truth(self.eval(s.test, f)):
            raise PyRaise(AssertionError(ast.unparse(s.test)[:80]))

    def stmt_Raise(self, s, f):
        if s.exc is None:
            cur = [x for x in self.visible]
            if not cur:
                raise Unsupported("raise")
            raise cur[-1]
        e = s.exc
        target = e.func if isinstance(e, ast.Call) else e
        v = self.norm(self.eval(target, f))
        if isinstance(v, type) and issubclass(v, BaseException):
            try:
                raise PyRaise(v(ast.unparse(e)[:80]))
            except TypeError:
                raise PyRaise(Exception(v.__name__))
        if isinstance(v, BaseException):
            raise PyRaise(v)
        raise Unsupported("raise")

    def stmt_Try(self, s, f):
        try:
            try:
                self.block(s.body, f)
            except PyRaise as p:
                for h in s.handlers:
                    types_ = Exception if h.type is None else self.flat_classes(self.eval(h.type, f))
                    if isinstance(p.exc, types_):
                        if h.name:
                            f.locals[h.name] = p.exc
                        self.visible.append(p)
                        try:
                            self.block(h.body, f)
                        finally:
                            self.visible.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, f)
        finally:
            if s.finalbody:
                self.block(s.finalbody, f)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            g = f
            if t.id in f.nonlocals:
                g = f.parent
                while g is not None and t.id not in g.locals:
                    g = g.parent
                if self.loops:
                    raise Unsupported("nonlocal in a loop over a list of unknown length")
            g.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            es = self.elements(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if any(isinstance(e, Each) for e in es):
                if isinstance(self.norm(v), (list, tuple)) and len(es) == 1 and not stars:
                    raise Unsupported("unpacking of a list of unknown length")
                if not stars:
                    raise Unsupported("unpacking of a list of unknown length")
            if stars:
                i = stars[0]
                k = len(t.elts) - i - 1
                if len(es) < len(t.elts) - 1 or any(isinstance(e, Each) for e in es[:i]) or any(isinstance(e, Each) for e in es[len(es) - k:] if k):
                    raise Unsupported("unpacking of a list of unknown length")
                for x, e in zip(t.elts[:i], es[:i]):
                    self.assign(x, e, f)
                self.assign(t.elts[i].value, self.born(es[i:len(es) - k]), f)
                for x, e in zip(t.elts[i + 1:], es[len(es) - k:]):
                    self.assign(x, e, f)
                return
            if len(es) != len(t.elts):
                raise PyRaise(ValueError("unpacking"))
            for x, e in zip(t.elts, es):
                self.assign(x, e, f)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, f), self.eval(t.slice, f), v)
        else:
            raise Unsupported("assignment")

    # Expressions ------------------------------------------------------------------------------------------------
    def eval(self, e, f):
        self.step()
        m = getattr(self, "eval_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, f)

    def eval_Constant(self, e, f):
        return e.value

    def name_(self, name, f):
        g = f
        while g is not None:
            if name in g.locals:
                return g.locals[name]
            g = g.parent
        if name in f.globals:
            return f.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def eval_Name(self, e, f):
        v = self.name_(e.id, f)
        if isinstance(v, Havoc):
            raise Unsupported(f"{e.id} is carried by a loop over a list of unknown length")
        return v

    def eval_Attribute(self, e, f):
        return self.getattr_(self.eval(e.value, f), e.attr)

    def eval_Lambda(self, e, f):
        return self.closure(e, f, "<lambda>")

    def eval_IfExp(self, e, f):
        return self.eval(e.body if self.truth(self.eval(e.test, f)) else e.orelse, f)

    def eval_BoolOp(self, e, f):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, f)
            if i < len(e.values) - 1:
                if self.truth(v) != is_and:
                    return self.settled(v, not is_and)
        return v

    def settled(self, v, truth):
        return truth if isinstance(v, SBool) else v

    def eval_UnaryOp(self, e, f):
        v = self.eval(e.operand, f)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        v = self.norm(v)
        if isinstance(v, (int, float)) and not isinstance(v, Sym):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if isinstance(v, SInt):
            return SInt(-v.e) if isinstance(e.op, ast.USub) else v if isinstance(e.op, ast.UAdd) else SInt(-v.e - 1)
        name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
        if isinstance(v, Opaque):
            return Opaque(v.pytype, name + v.name, op=(name, v))
        if isinstance(v, Sym) and not isinstance(v, Hole):
            raise Unsupported(f"{name} of {v!r}")
        if not isinstance(v, Hole) and not type(v).__module__.startswith(INTERPRETED):
            from pydv import models
            return models.native(self, getattr(v, name, None) or (lambda: 1 / 0), [], {})
        return self.call_method(v, name)

    def not_(self, v):
        v = self.norm(v)
        if isinstance(v, SBool):
            return SBool(z3.Not(v.e))
        return not self.truth(v)

    def eval_BinOp(self, e, f):
        return self.binop(e.op, self.eval(e.left, f), self.eval(e.right, f))

    BIN = {ast.Add: ("__add__", "__radd__", lambda a, b: a + b), ast.Sub: ("__sub__", "__rsub__", lambda a, b: a - b),
           ast.Mult: ("__mul__", "__rmul__", lambda a, b: a * b), ast.Div: ("__truediv__", "__rtruediv__", lambda a, b: a / b),
           ast.Mod: ("__mod__", "__rmod__", lambda a, b: a % b), ast.Pow: ("__pow__", "__rpow__", lambda a, b: a ** b),
           ast.BitAnd: ("__and__", "__rand__", lambda a, b: a & b), ast.BitOr: ("__or__", "__ror__", lambda a, b: a | b),
           ast.BitXor: ("__xor__", "__rxor__", lambda a, b: a ^ b), ast.FloorDiv: ("__floordiv__", "__rfloordiv__", lambda a, b: a // b)}

    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        name, rname, fn = self.BIN[type(op)]
        from pydv import models, text
        if isinstance(a, (str, SText)) and isinstance(b, (str, SText)) and isinstance(op, ast.Add):
            return text.concat(self, a, b)
        if isinstance(op, ast.Mult) and (isinstance(a, str) and isinstance(b, SInt) or isinstance(b, str) and isinstance(a, SInt)):
            s = a if isinstance(a, str) else b
            return SText([Pad()]) if s == " " else SText([Fn("times", s)])
        if isinstance(op, ast.Mod) and isinstance(a, (str, SText)):
            raise Unsupported("% formatting")
        if isinstance(a, (int, SInt, bool)) and isinstance(b, (int, SInt, bool)) and (isinstance(a, Sym) or isinstance(b, Sym)):
            x, y = self.z(a), self.z(b)
            if isinstance(op, ast.Add):
                return SInt(x + y)
            if isinstance(op, ast.Sub):
                return SInt(x - y)
            if isinstance(op, ast.Mult):
                return SInt(x * y)
            raise Unsupported(f"{name} on integers")
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and (isinstance(a, Sym) or isinstance(b, Sym)):
            x, y = self.zb(a), self.zb(b)
            if isinstance(op, ast.BitAnd):
                return SBool(z3.And(x, y))
            if isinstance(op, ast.BitOr):
                return SBool(z3.Or(x, y))
            raise Unsupported(name)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(op, ast.Add):
            self.note_read(a)
            self.note_read(b)
            try:
                return self.born(a + b)
            except TypeError as ex:
                raise PyRaise(ex)
        if isinstance(a, (list, str, tuple)) and isinstance(b, int) and isinstance(op, ast.Mult):
            return self.born(a * b)
        if isinstance(a, models.Keys) or isinstance(b, models.Keys):
            return models.set_op(self, name, a, models.set_items(b))
        if isinstance(a, (set, frozenset, SymSet, SetSym)) and isinstance(b, (set, frozenset, SymSet, SetSym)) and (isinstance(a, Sym) or isinstance(b, Sym)):
            return models.set_op(self, name, a, b)
        if isinstance(a, Fin):
            return self.binop(op, self.force(a), b)
        if isinstance(b, Fin):
            return self.binop(op, a, self.force(b))
        if isinstance(a, dict) and isinstance(b, dict) and isinstance(op, ast.BitOr):
            return self.born({**a, **b})
        custom = lambda v: isinstance(v, Hole) or (not isinstance(v, Sym) and type(v).__module__.startswith(INTERPRETED) and not isinstance(v, (enum.Enum, type)))
        if custom(a):
            m = self.try_method(a, name)
            if m is not None:
                r = self.call(m, [b])
                if r is not NotImplemented:
                    return r
        if custom(b):
            m = self.try_method(b, rname)
            if m is not None:
                r = self.call(m, [a])
                if r is not NotImplemented:
                    return r
        if custom(a) or custom(b):
            raise PyRaise(TypeError(f"unsupported operand types for {name}"))
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported(f"{name} of {a!r} and {b!r}")
        try:
            return self.born(fn(a, b))
        except Exception as ex:
            raise PyRaise(ex)

    def try_method(self, v, name):
        if isinstance(v, Hole):
            if not self.split(v, lambda c: hasattr(c, name)):
                return None
            return self.hole_attr(v, name)
        return getattr(v, name, None)

    def z(self, v):
        if isinstance(v, SInt):
            return v.e
        if isinstance(v, SBool):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        return z3.IntVal(int(v))

    def zb(self, v):
        return v.e if isinstance(v, SBool) else z3.BoolVal(v)

    def eval_Compare(self, e, f):
        left = self.eval(e.left, f)
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(right, f)
            r = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return self.settled(r, False)
            left = right

    def compare(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.In):
            return self.in_(a, b)
        if isinstance(op, ast.NotIn):
            return self.not_(self.in_(a, b))
        from pydv import models
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            x, y = self.z(a), self.z(b)
            r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return self.norm(SBool(r))
        if isinstance(a, Fin) or isinstance(b, Fin):
            return self.compare(op, self.force(a), self.force(b))
        name = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        if isinstance(a, (set, frozenset, SymSet)):
            return models.method(self, a, {"__le__": "issubset", "__ge__": "issuperset"}.get(name, name), [b], {})
        if isinstance(a, Hole) or (not isinstance(a, Sym) and type(a).__module__.startswith(INTERPRETED)):
            m = self.try_method(a, name)
            if m is not None:
                return self.call(m, [b])
        if isinstance(b, Hole) or (not isinstance(b, Sym) and type(b).__module__.startswith(INTERPRETED)):
            m = self.try_method(b, {"__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__"}[name])
            if m is not None:
                return self.call(m, [a])
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Unsupported(f"{name} of {a!r} and {b!r}")
        try:
            return {"__lt__": lambda: a < b, "__le__": lambda: a <= b, "__gt__": lambda: a > b, "__ge__": lambda: a >= b}[name]()
        except Exception as ex:
            raise PyRaise(ex)

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                return self.is_none(x)
            if isinstance(x, Fin):
                if isinstance(y, Fin):
                    return self.is_(self.force(x), self.force(y))
                return self.split(x, lambda c: c is y)
            if isinstance(x, TypeOf):
                if isinstance(y, TypeOf):
                    if x.hole is y.hole:
                        return True
                    return self.force(x) is self.force(y)
                return self.split(x.hole, lambda c: c is y)
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                return self.norm(SBool(self.zb(a) == self.zb(b)))
            return False
        if isinstance(a, (SText, SInt)) or isinstance(b, (SText, SInt)):
            if self.pytype(a) is not self.pytype(b):
                return False
            # Equal strings (or numbers) may or may not be the same object, different ones aren't
            key = ("is",) + tuple(sorted([repr(a), repr(b)]))
            if key not in self.memo:
                self.memo[key] = self.choose(2, key) == 0
                if self.memo[key]:
                    self.assume(True if self.truth(self.eq(a, b)) else False)
            return self.memo[key]
        return False  # different values of the caller are taken to be different objects

    def ne(self, a, b):
        # != of a node isn't the negation of ==
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Hole) and self.is_none(x):
                return self.ne(None, y) if x is a else self.ne(y, None)
        for x, y in ((a, b), (b, a)):
            cls = None
            if isinstance(x, Hole):
                self.split(x, lambda c: id(inspect.getattr_static(c, "__ne__")))
                cls = x.classes[0]
            elif not isinstance(x, Sym):
                cls = type(x)
            if cls is not None and cls.__module__.startswith(INTERPRETED):
                raw = inspect.getattr_static(cls, "__ne__")
                if isinstance(raw, types.FunctionType) and not is_attrs_method(raw):
                    return self.call(raw, [x, y])
                break
        return self.not_(self.eq(a, b))

    def eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if self.equal_hook is not None and a is not b:
            r = self.equal_hook(self, a, b)
            if r is not NotImplemented:
                return r
        if type(a).__name__ == "Keys" or type(b).__name__ == "Keys":
            k, o = (a, b) if type(a).__name__ == "Keys" else (b, a)
            return k.equal(self, o)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Hole) and any(c is type(None) for c in x.classes):
                self.is_none(x)
                return self.eq(a, b)
        for x, y in ((a, b), (b, a)):
            cls = None
            if isinstance(x, Hole):
                self.split(x, lambda c: "attrs" if is_attrs_method(inspect.getattr_static(c, "__eq__")) else id(inspect.getattr_static(c, "__eq__")))
                cls = x.classes[0]
            elif not isinstance(x, Sym) and not isinstance(x, (type, enum.Enum)):
                cls = type(x)
            if cls is not None and cls.__module__.startswith(INTERPRETED):
                raw = inspect.getattr_static(cls, "__eq__")
                if isinstance(raw, types.FunctionType):
                    r = self.attrs_eq(x, y) if is_attrs_method(raw) else self.call(raw, [x, y])
                    if r is not NotImplemented:
                        return r
                elif x is a and y is b and a is not b and raw is object.__eq__:
                    continue
        if a is b:
            return True
        if isinstance(a, Hole) or isinstance(b, Hole):
            return False
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
                if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                    return self.norm(SBool(self.zb(a) == self.zb(b)))
                return self.norm(SBool(self.z(a) == self.z(b)))
            if isinstance(a, Fin) or isinstance(b, Fin):
                return self.eq(self.force(a), self.force(b))
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return self.memo_bool(("eq",) + tuple(sorted((id(a), id(b)))), "eq")
            return False
        from pydv import text
        if isinstance(a, SText) or isinstance(b, SText):
            if isinstance(a, Fin) or isinstance(b, Fin):
                fin, other = (a, b) if isinstance(a, Fin) else (b, a)
                return self.eq(self.force(fin), other)
            if self.pytype(a) is str and self.pytype(b) is str:
                return text.equal(self, a, b)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return False
            return False
        if isinstance(a, Fin) or isinstance(b, Fin):
            if isinstance(a, Fin) and isinstance(b, Fin):
                return self.eq(self.force(a), b)
            fin, other = (a, b) if isinstance(a, Fin) else (b, a)
            if isinstance(other, Sym):
                return self.eq(self.force(fin), other)
            return self.split(fin, lambda c: c == other)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            return self.eq_lists(a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            return self.eq_dicts(a, b)
        if isinstance(a, (SymSet, set, frozenset)) and isinstance(b, (SymSet, set, frozenset)):
            if not isinstance(a, SymSet) and not isinstance(b, SymSet):
                return a == b
            return self.all_of([lambda: self.subset(a, b), lambda: self.subset(b, a)])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            ta, tb = self.pytype(a), self.pytype(b)
            if ta is not tb and not (issubclass(ta, numbers.Number) and issubclass(tb, numbers.Number)):
                return False
            return self.memo_bool(("eq",) + tuple(sorted((id(a), id(b)))), "eq")
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, SymSet) or isinstance(b, SymSet):
                return False
            raise Unsupported(f"== of {a!r} and {b!r}")
        if isinstance(a, (Closure, BoundSym, HoleMethod)) or isinstance(b, (Closure, BoundSym, HoleMethod)):
            return False
        return a == b

    def all_of(self, thunks):
        """Conjunction of values which may be symbolic (without branching where that's possible)"""
        conj = []
        for t in thunks:
            r = self.norm(t())
            if isinstance(r, SBool):
                conj.append(r.e)
            elif not self.truth(r):
                return False
        if not conj:
            return True
        return SBool(z3.And(*conj) if len(conj) > 1 else conj[0])

    def eq_lists(self, a, b):
        sa, sb = any(isinstance(x, Each) for x in a), any(isinstance(x, Each) for x in b)
        if not sa and not sb:
            if len(a) != len(b):
                return False
            return self.all_of([lambda x=x, y=y: self.eq(x, y) for x, y in zip(a, b)])
        if len(a) == len(b) and all(isinstance(x, Each) == isinstance(y, Each) for x, y in zip(a, b)):
            thunks = []
            for x, y in zip(a, b):
                if isinstance(x, Each):
                    if x.base is not y.base or len(x.items) != len(y.items):
                        break
                    thunks += [lambda p=p, q=q: self.eq(p, q) for p, q in zip(x.items, y.items)]
                else:
                    thunks.append(lambda x=x, y=y: self.eq(x, y))
            else:
                r = self.norm(self.all_of(thunks))
                if r is True:
                    return True
                # The same for all other elements: it's only known if they're equal at the arbitrary index
                return self.memo_bool(("eqlist", id(a), id(b)), "eqlist") if not isinstance(r, SBool) else \
                    SBool(z3.And(r.e, self.memo_bool(("eqlist", id(a), id(b)), "eqlist").e))
        if not a or not b:
            return self.compare_ints(self.length(a or b), 0)
        equal = self.memo_bool(("eqlist", id(a), id(b)), "eqlist")
        if not any(getattr(x, "partial", False) for x in list(a) + list(b) if isinstance(x, Each)):
            try:
                na, nb = self.length(a), self.length(b)
            except Unsupported:
                return equal
            # Equal lists have the same length
            self.assume(z3.Implies(equal.e if isinstance(equal, SBool) else z3.BoolVal(equal), self.z(na) == self.z(nb)))
        return equal

    def eq_dicts(self, a, b):
        if any(isinstance(k, EachKey) for k in a) or any(isinstance(k, EachKey) for k in b):
            if a is b:
                return True
            return self.memo_bool(("eqdict", id(a), id(b)), "eqdict")
        if set(a) != set(b):
            return False
        return self.all_of([lambda k=k: self.eq(a[k], b[k]) for k in a])

    def subset(self, a, b):
        items = self.elements(a)
        if any(isinstance(i, Each) for i in items):
            flat = []
            for i in items:
                flat += i.items if isinstance(i, Each) else [i]
            r = self.norm(self.all_of([lambda x=x: self.in_(x, b) for x in flat]))
            if r is False:
                return False if not any(isinstance(i, Each) for i in items) else self._nonempty_false(items)
            return self.memo_bool(("subset", id(a), id(b)), "subset")
        return self.all_of([lambda x=x: self.in_(x, b) for x in items])

    def _nonempty_false(self, items):
        return False  # the arbitrary element exists, and isn't in the set

    def attrs_eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b and not isinstance(a, Hole):
            pass
        ta, tb = self.type_of(a), self.type_of(b)
        if isinstance(ta, TypeOf) or isinstance(tb, TypeOf):
            if a is b:
                return True
            if isinstance(ta, TypeOf) and not isinstance(tb, TypeOf) and tb not in ta.hole.classes:
                return NotImplemented
            if isinstance(tb, TypeOf) and not isinstance(ta, TypeOf) and ta not in tb.hole.classes:
                return NotImplemented
            ta, tb = self.force(ta), self.force(tb)
        if ta is not tb:
            return NotImplemented
        if a is b:
            return True
        hook = getattr(self, "eq_hook", None)
        if hook is not None:
            r = hook(self, a, b, ta)
            if r is not NotImplemented:
                return r
        return self.all_of([lambda f=f: self.eq(self.getattr_(a, f.name), self.getattr_(b, f.name)) for f in attr.fields(ta) if f.eq])

    def different(self, a, b):
        """Whether two unknown texts are known to differ"""
        ps = [t.pieces[0] for t in (a, b)]
        if not all(hasattr(p, "root") for p in ps):
            return False
        return ("alldifferent",) + tuple(sorted(id(p.root()) for p in ps)) in self.memo

    def among_elements(self, x, eaches):
        """Whether x is one of the elements of lists of unknown length"""
        eaches = [k for k in eaches if k.items or getattr(k, "partial", False)]
        if not eaches:
            return False
        for k in eaches:
            if any(i is x or isinstance(i, SText) and isinstance(x, SText) and i.key() == x.key() for i in k.items):
                return True
        if isinstance(x, SText) and all(isinstance(i, SText) and len(i.pieces) == 1 and len(x.pieces) == 1 and self.different(x, i) or
                                        i is None and k.base in self.uniform and self.uniform[k.base]() for k in eaches for i in k.items):
            # The arbitrary element differs from it
            return False
        key = tuple((id(k.base), tuple(self.term_key(i) for i in k.items), id(k) if getattr(k, "partial", False) else 0) for k in eaches)
        self.keep += [x] + eaches
        return self.memo_bool(("in", self.term_key(x), key), "in")

    def in_(self, x, c):
        x, c = self.norm(x), self.norm(c)
        if isinstance(c, Fin):
            c = self.force(c)
        if isinstance(c, (str, SText)):
            from pydv import text
            return text.contains(self, x, c)
        if isinstance(c, SetSym):
            from pydv import models
            return models.member(self, x, c)
        if isinstance(c, SymSet):
            c = c.items
        if isinstance(c, (dict, set, frozenset, types.MappingProxyType)) or type(c).__name__ in ("dict_keys", "odict_keys"):
            if type(c).__name__ == "dict_keys":
                c = set(c)
            if isinstance(x, Fin):
                return self.split(x, lambda v: v in c)
            if isinstance(x, TypeOf):
                return self.split(x.hole, lambda v: v in c)
            if isinstance(x, tuple) and any(isinstance(i, Sym) or attr.has(type(i)) for i in x):
                c = [k for k in c]
            elif not isinstance(x, Sym) and not any(isinstance(k, EachKey) for k in c):
                if isinstance(x, int) and any(isinstance(k, Sym) for k in c):
                    pass
                else:
                    try:
                        hash(x)
                    except TypeError as ex:
                        raise PyRaise(ex)
                    return x in c
            c = [Each(k.base, [k.key]) if isinstance(k, EachKey) else k for k in c]
            if isinstance(x, SText) and any(isinstance(k, Each) for k in c):
                for k in c:
                    if not isinstance(k, Each) and self.truth(self.eq(x, k)):
                        return True
                return self.among_elements(x, [k for k in c if isinstance(k, Each)])
            if isinstance(x, SText):
                from pydv import text
                return text.among(self, x, c)
        if isinstance(c, (list, tuple)):
            self.note_read(c)
            if isinstance(x, SText) and not any(isinstance(k, (Sym, Each)) for k in c):
                from pydv import text
                return text.among(self, x, c)
            if any(isinstance(k, Each) for k in c):
                for k in c:
                    if not isinstance(k, Each) and self.truth(self.eq(x, k)):
                        return True
                return self.among_elements(x, [k for k in c if isinstance(k, Each)])
            if isinstance(x, Fin) and not any(isinstance(k, Sym) for k in c):
                return self.split(x, lambda v: v in c)
            if isinstance(x, TypeOf) and not any(isinstance(k, Sym) for k in c):
                return self.split(x.hole, lambda v: v in c)
            disj = []
            for k in c:
                if k is x:
                    return True
                r = self.norm(self.eq(x, k))
                if isinstance(r, SBool):
                    disj.append(r.e)
                elif self.truth(r):
                    return True
            return self.norm(SBool(z3.Or(*disj))) if disj else False
        if isinstance(c, range) and isinstance(x, SInt) and c.step == 1:
            return SBool(z3.And(x.e >= c.start, x.e < c.stop))
        if isinstance(x, Sym) or isinstance(c, Sym):
            raise Unsupported(f"{x!r} in {c!r}")
        try:
            return x in c
        except Exception as ex:
            raise PyRaise(ex)

    def eval_Call(self, e, f):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            g = f
            while g is not None and g.first is None and not (isinstance(g.code, ast.FunctionDef)):
                g = g.parent
            cls = self.name_("__class__", f)
            return Super(cls, g.first)
        fn = self.eval(e.func, f)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.elements(self.eval(a.value, f))
            else:
                args.append(self.eval(a, f))
        for k in e.keywords:
            if k.arg is None:
                d = self.norm(self.eval(k.value, f))
                if not isinstance(d, dict) or any(not isinstance(x, str) for x in d):
                    raise Unsupported("** of an unknown dictionary")
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.eval(k.value, f)
        return self.call(fn, args, kwargs)

    def eval_JoinedStr(self, e, f):
        from pydv import text
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = text.concat(self, out, v.value)
            else:
                out = text.concat(self, out, self.eval_FormattedValue(v, f))
        return out

    def eval_FormattedValue(self, e, f):
        from pydv import text
        v = self.eval(e.value, f)
        spec = self.norm(self.eval(e.format_spec, f)) if e.format_spec is not None else ""
        if e.conversion == 114:
            return self.born_text(text.repr_(self, v))
        if e.conversion not in (-1, 115):
            raise Unsupported("conversion in a format string")
        return text.format_(self, v, spec)

    def born_text(self, v):
        return v

    def eval_Tuple(self, e, f):
        return self.born(tuple(self.items(e.elts, f)))

    def eval_List(self, e, f):
        return self.born(self.items(e.elts, f))

    def items(self, elts, f):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.elements(self.eval(x.value, f))
            else:
                out.append(self.eval(x, f))
        return out

    def eval_Set(self, e, f):
        return self.make_set(self.items(e.elts, f))

    def make_set(self, items):
        items = [self.norm(i) if not isinstance(i, Each) else i for i in items]
        if all(not isinstance(i, (Sym, Each)) and self.is_plain(i) for i in items):
            try:
                return self.born(set(items))
            except TypeError as ex:
                raise PyRaise(ex)
        return SymSet(items)

    def is_plain(self, x):
        if isinstance(x, (tuple, frozenset)):
            return all(self.is_plain(i) for i in x)
        return not isinstance(x, (Sym, Each))

    def eval_Dict(self, e, f):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.norm(self.eval(v, f)))
            else:
                k, v = self.eval(k, f), self.eval(v, f)
                self.dict_put(d, k, v)
        return self.born(d)

    def dict_put(self, d, k, v):
        k = self.norm(k)
        if isinstance(k, SText):
            # Equal keys would be merged
            for other in list(d):
                if isinstance(other, (str, SText)) and self.truth(self.eq(other, k)):
                    d[other] = v
                    return
            d[k] = v
            return
        if isinstance(k, (Fin, TypeOf)):
            k = self.force(k)
        if isinstance(k, Sym) and not isinstance(k, (Hole,)):
            raise Unsupported(f"{k!r} as a key")
        if isinstance(k, str):
            for other in list(d):
                if isinstance(other, SText) and self.truth(self.eq(other, k)):
                    d[other] = v
                    return
        try:
            d[k] = v
        except TypeError as ex:
            raise PyRaise(ex)

    # Comprehensions
    def comprehension(self, gens, emit, f):
        """Runs emit(frame) for all elements; a list in which Each markers stand for the unknown ones"""
        g = Frame(f.globals, f, {}, None)

        def level(i, out):
            if i == len(gens):
                out.append(emit(g))
                return
            gen = gens[i]
            for e in self.elements(self.eval(gen.iter, g if i else f)):
                if isinstance(e, Each):
                    inner = self.born([])

                    def body(item):
                        self.assign(gen.target, item, g)
                        for cond in gen.ifs:
                            if not self.truth(self.eval(cond, g)):
                                return
                        level(i + 1, inner)
                    loop = {"base": e.base, "effects": {}, "reads": {}, "born": {id(inner)}}
                    self.enter(loop)
                    try:
                        for item in e.items:
                            body(item)
                    finally:
                        self.loops.pop()
                    if any(isinstance(x, Each) for x in inner):
                        raise Unsupported("nested lists of unknown length")
                    each = Each(e.base, inner)
                    each.partial = self.note_count(gen, i, len(inner), len(e.items), e.base) or getattr(e, "partial", False)
                    out.append(each)
                else:
                    self.assign(gen.target, e, g)
                    if all(self.truth(self.eval(cond, g)) for cond in gen.ifs):
                        level(i + 1, out)
        out = []
        level(0, out)
        return out

    def eval_ListComp(self, e, f):
        return self.born(self.comprehension(e.generators, lambda g: self.eval(e.elt, g), f))

    eval_GeneratorExp = eval_ListComp

    def eval_SetComp(self, e, f):
        return self.make_set(self.comprehension(e.generators, lambda g: self.eval(e.elt, g), f))

    def eval_DictComp(self, e, f):
        d = {}
        for p in self.comprehension(e.generators, lambda g: (self.eval(e.key, g), self.eval(e.value, g)), f):
            if isinstance(p, Each):
                for k, v in p.items:
                    d[EachKey(p.base, k)] = v
            else:
                self.dict_put(d, p[0], p[1])
        return self.born(d)

    def eval_Starred(self, e, f):
        raise Unsupported("starred")

    def eval_NamedExpr(self, e, f):
        v = self.eval(e.value, f)
        g = f
        while g.code is None and g.parent is not None:
            g = g.parent
        g.locals[e.target.id] = v
        return v

    def eval_Yield(self, e, f):
        g = f
        while "*yield" not in g.locals:
            g = g.parent
        self.append(g.locals["*yield"], self.eval(e.value, f) if e.value is not None else None)

    def eval_Subscript(self, e, f):
        return self.getitem(self.eval(e.value, f), self.eval(e.slice, f))

    def eval_Slice(self, e, f):
        part = lambda x: None if x is None else self.norm(self.eval(x, f))
        return slice(part(e.lower), part(e.upper), part(e.step))

    def getitem(self, obj, key):
        obj, key = self.norm(obj), self.norm(key)
        from pydv import models, text
        if isinstance(obj, Fin):
            obj = self.force(obj)
        if isinstance(obj, (str, SText)) and (isinstance(obj, Sym) or isinstance(key, Sym)):
            return text.item(self, obj, key)
        if isinstance(obj, (list, tuple)):
            self.note_read(obj)
            return models.list_item(self, obj, key)
        if isinstance(obj, dict) or isinstance(obj, types.MappingProxyType):
            return models.dict_item(self, obj, key)
        if isinstance(obj, type) and issubclass(obj, enum.Enum):
            if isinstance(key, (Fin, SText)):
                if isinstance(key, SText):
                    for m in obj.__members__:
                        if self.truth(self.eq(key, m)):
                            return obj[m]
                    raise PyRaise(KeyError(repr(key)))
                key = self.force(key)
            try:
                return obj[key]
            except KeyError as ex:
                raise PyRaise(ex)
        if isinstance(obj, Hole) or (not isinstance(obj, Sym) and type(obj).__module__.startswith(INTERPRETED) and not isinstance(obj, type)):
            return self.call_method(obj, "__getitem__", key)
        if isinstance(obj, Sym) or isinstance(key, Sym):
            raise Unsupported(f"{obj!r}[{key!r}]")
        try:
            return obj[key]
        except Exception as ex:
            raise PyRaise(ex)

    def setitem(self, obj, key, value):
        obj, key = self.norm(obj), self.norm(key)
        if isinstance(obj, dict):
            self.record_write("dict", obj, key)
            active = [l for l in self.loops if id(obj) not in l["born"]]
            if active:
                if len(active) > 1:
                    raise Unsupported("nested loops fill the same dictionary")
                if isinstance(key, (str, int)):
                    raise Unsupported("a loop over a list of unknown length assigns to a fixed key")
                obj[EachKey(active[0]["base"], key)] = value
                return
            self.dict_put(obj, key, value)
            return
        if isinstance(obj, list):
            self.record_write("list", obj, key)
            if any(id(obj) not in l["born"] for l in self.loops) or any(isinstance(e, Each) for e in obj) or isinstance(key, Sym):
                raise Unsupported("assignment to an element of a list of unknown length")
            try:
                obj[key] = value
            except Exception as ex:
                raise PyRaise(ex)
            return
        raise Unsupported(f"assignment to an element of {obj!r}")


def own_nodes(node):
    """The nodes of a function without those of the functions within it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
            todo.extend(ast.iter_child_nodes(n))


_yields = {}


def yields(node):
    if id(node) not in _yields:
        _yields[id(node)] = (node, any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in own_nodes(node)))
    return _yields[id(node)][1]


def assigned_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


_assigned = {}


def assigned_names(body):
    if id(body) not in _assigned:
        _assigned[id(body)] = (body, _assigned_names(body))
    return _assigned[id(body)][1]


def _assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            elif isinstance(n, (ast.FunctionDef,)):
                out.add(n.name)
    return out
