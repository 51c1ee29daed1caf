"""P14: contract of C.visit for every node class C: visitor.visit is called exactly once for every node that's directly part
of the node, and for nothing else."""
import attr

from pydv import run, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from vlib import T


class Visitor:
    """A visitor about which only its interface is known: what it's called with is recorded (ghost state)"""

    def __init__(self):
        self.log = []

    def visit(self, node):
        pass


def children(eng, cls, h):
    """The nodes that are directly part of a node, by the annotations of its fields (names and data types aren't nodes to visit)"""
    out = []

    def add(v, base):
        v = eng.norm(v)
        if isinstance(v, Hole):
            if T.DataType in v.classes:
                return
            if eng.is_none(v):
                return
            if eng.isinstance_(v, (T.Sql,)):
                out.append((v, base))
        elif isinstance(v, Each):
            for i in v.items:
                add(i, v.base)
        elif isinstance(v, (list, tuple)):
            for i in v:
                add(i, base)
        elif isinstance(v, dict):
            for k, i in v.items():
                add(i, k.base if isinstance(k, EachKey) else base)
        elif isinstance(v, T.Sql):
            out.append((v, base))

    def parts(cls, h, base):
        for f in attr.fields(cls) if cls is not T.DataType else ():
            if f.type is not T.DataType and f.type is not T.Schema:
                add(eng.getattr_(h, f.name), base)
    parts(cls, h, None)
    return out


def job(cls):
    def harness(eng):
        h = shapes.instance(eng, cls)
        v = Visitor()
        eng.pre[id(v)] = v
        log = []

        def visit(eng, args, kwargs):
            given = args[1:] + list(kwargs.values())
            if len(given) != 1:
                raise Refuted("the visitor gets one node", repr(given))
            if len(eng.loops) > 1:
                raise Unsupported("nested loops")
            log.append((eng.norm(given[0]), eng.loops[-1]["base"] if eng.loops else None))
        eng.contracts[Visitor.visit] = visit
        # What's absent: the state in which visit() is called is arbitrary, so the parts are looked at first
        eng.start()
        try:
            eng.call(cls.visit, [h, v])
        except PyRaise as p:
            raise Refuted("visit succeeds", repr(p.exc))
        want = children(eng, cls, h)
        left = list(log)
        for node, base in want:
            if base is not None and eng.known_equal(base.length, 0):
                continue
            same = [x for x in left if x[0] is node and x[1] is base]
            eng.prove(len(same) == 1, "every child is visited exactly once", f"{node!r} is visited {len(same)} times; calls: {log}")
            left.remove(same[0])
        eng.prove(not left, "nothing else is visited", f"{left}")
        eng.prove(not [w for w in eng.writes if w[1] is not v], "nothing is changed", repr(eng.writes))
    return f"{cls.__name__}.visit reaches each child once", f"{cls.__module__}.{cls.__qualname__}.visit", shapes.engine, harness


def jobs():

    return [job(c) for c in T.node_classes()]


def dispatch(cls):
    from treeno.visitor import TreenoVisitor

    def harness(eng):
        h = shapes.instance(eng, cls)
        v = object.__new__(TreenoVisitor)
        eng.pre[id(v)] = v
        log = []
        for n, f in vars(TreenoVisitor).items():
            if n.startswith("visit_"):
                eng.contracts[f] = lambda eng, args, kwargs, n=n: log.append((n, args[1:]))
        eng.start()
        try:
            eng.call(TreenoVisitor.visit, [v, h])
        except PyRaise as p:
            raise Refuted("the visitor accepts every node", repr(p.exc))
        eng.prove(len(log) == 1 and log[0][0] == "visit_" + cls.__name__ and len(log[0][1]) == 1 and log[0][1][0] is h,
                  "exactly the method of the node's class is called", f"{log}")
    return f"TreenoVisitor.visit of a {cls.__name__}", "treeno.visitor.TreenoVisitor.visit", shapes.engine, harness


_children_jobs = jobs


def jobs():
    return _children_jobs() + [dispatch(c) for c in T.node_classes()]
