"""P13: frame conditions: an operation writes to nothing that was there before it (what resolving is documented to record excepted).
Operations on parts of a node fulfil their own frame conditions (induction)."""
import inspect
import types
import typing

import attr

from pydv import shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T, env


def text_of(eng, hole, args, kwargs):
    """ensures: the text of a node. assigns: nothing"""
    return SText([Fn("sql", hole)])


def some_text(eng, args, kwargs):
    """ensures: some text. assigns: nothing (obligations of their own, see `helpers`)"""
    return SText([Fn("printed", eng.str_("text"))])


def printing_functions():
    """Every function of the library with an argument for the print options that gives a text"""
    out = {}
    for name, mod in sorted(env.MOD.items()):
        if not name.startswith("treeno") or ".gen" in name:
            continue
        for owner in [mod] + [c for c in vars(mod).values() if isinstance(c, type) and c.__module__ == name]:
            for n, f in list(vars(owner).items()):
                if not isinstance(f, types.FunctionType) or f.__module__ != name:
                    continue
                ps = inspect.signature(f).parameters
                if f.__name__ == "sql" or f.__annotations__.get("return") not in (str, "str") or not ({"opts", "spaces"} & set(ps)):
                    continue
                out[f] = (f"{owner.__name__}.{n}" if owner is not mod else n, owner if owner is not mod else None)
    return out


HELPERS = printing_functions()


def engine():
    eng = common.engine()
    for f in HELPERS:
        eng.contracts[f] = some_text
    for n in ["sql"] + [f.__name__ for f in HELPERS]:
        eng.methods[n] = text_of
    eng.methods["visit"] = lambda eng, hole, args, kwargs: None
    eng.methods["equals"] = lambda eng, hole, args, kwargs: eng.bool_("equal")
    return eng


def options(eng):
    o = Hole((T.PrintOptions,), "opts")
    o.fields["mode"] = Fin(list(T.PrintMode), "mode")
    o.fields["spaces"] = eng.int_("spaces", 0)
    eng.pre[id(o)] = o
    return o


class Silent:
    def visit(self, node):
        pass


def operation(cls, op):
    def harness(eng):
        h = shapes.dtype(eng, "node") if cls is T.DataType else shapes.instance(eng, cls)
        o = options(eng)

        def ih(eng, name, args, kwargs):
            return NotImplemented
        eng.start()
        try:
            if op == "sql":
                eng.call(cls.sql, [h, o])
            elif op == "visit":
                eng.call(cls.visit, [h, Silent()])
        except PyRaise:
            pass
        common.unchanged(eng)
    return f"{cls.__name__}.{op} assigns nothing", f"{cls.__module__}.{cls.__name__}.{op}", engine, harness


def helper(f):
    """A printing function with arbitrary arguments"""
    name, owner = HELPERS[f]

    def make():
        eng = engine()
        del eng.contracts[f]
        return eng

    def harness(eng):
        args = []
        for i, (n, p) in enumerate(inspect.signature(f).parameters.items()):
            if n == "self":
                args.append(shapes.instance(eng, pick_class(eng, owner)))
            elif n == "opts":
                args.append(options(eng))
            elif p.annotation is inspect.Parameter.empty:
                raise Unsupported(f"no annotation of {n}")
            elif p.annotation == typing.Type[T.Value] or n == "current_type":
                args.append(eng.type_of(common.value(eng)))
            elif "Type[" in str(p.annotation) and p.default is None:
                args.append(None if eng.choose(2, (n, None)) else eng.born([T.Join]))
            elif n == "string_format":
                args.append("{left} {right} {value}")
            else:
                args.append(shapes.by_annotation(eng, p.annotation, n))
        eng.start()
        try:
            eng.call(f, args)
        except PyRaise:
            pass
        common.unchanged(eng)
    return f"{name} assigns nothing", f"{f.__module__}.{name}", make, harness


FRAME = "nothing that was there before is changed"


def framed(job):
    """The frame condition of a function which has other contracts as well (these are decided by other properties)"""
    name, function, make, harness = job[:4]

    def make_():
        eng = make()
        eng.only = lambda n: "changed" in n
        return eng

    def harness_(eng):
        try:
            harness(eng)
        except Refuted as r:
            if "changed" in r.name:
                raise
        common.unchanged(eng)
    return name + ": assigns nothing", function, make_, harness_


def mutable_default(cls):
    def harness(eng):
        for f in attr.fields(cls):
            eng.prove(not isinstance(f.default, (list, dict, set, T.Sql)), "defaults are made for each node", f"{f.name} = {f.default!r}")
        eng.prove(True, "all")
    return f"{cls.__name__}: defaults aren't shared", f"{cls.__module__}.{cls.__name__}.__init__", engine, harness


def construction(cls):
    def harness(eng):
        if cls is T.DataType:
            name = list(shapes.TYPES)[eng.choose(len(shapes.TYPES), ("type", list(shapes.TYPES)))]
            h = shapes.dtype(eng, "given", [name])
            given = dict(eng.getattr_(h, "parameters"))
            for k in list(given):
                if eng.choose(2, ("without", k)):
                    del given[k]
            eng.pre[id(given)] = given
            kwargs = {"type_name": name, "parameters": given}
        else:
            h = shapes.instance(eng, cls)
            kwargs = {f.name.lstrip("_"): eng.getattr_(h, f.name) for f in attr.fields(cls) if f.init}
        eng.start()
        try:
            obj = eng.call(cls, [], kwargs)
        except PyRaise:
            obj = None
        common.unchanged(eng)
        if cls is T.DataType and obj is not None:
            eng.prove(obj.parameters is not kwargs["parameters"], "the parameters aren't shared with the caller (changed together)")
    return f"{cls.__name__}: the constructor assigns nothing but the new node", f"{cls.__module__}.{cls.__name__}.__init__", engine, harness


def literal(kind):
    def harness(eng):
        v = common.plain(eng, kind)
        eng.start()
        try:
            eng.call(common.expr.wrap_literal, [v])
        except PyRaise:
            pass
        common.unchanged(eng)
    return f"wrap_literal of {kind} assigns nothing", "treeno.expression.wrap_literal", common.engine, harness


def pick_class(eng, owner):
    cs = [c for c in T.node_classes() if issubclass(c, owner)] or [owner]
    return cs[eng.choose(len(cs), ("class", [c.__name__ for c in cs]))]


def jobs():
    from proofs import p08, p11, p14, p16, p17
    out = [helper(f) for f in HELPERS] + [operation(c, "sql") for c in T.node_classes()]
    for c in T.node_classes():
        out += [mutable_default(c), construction(c)]
    out += [literal(k) for k in common.PLAIN]
    return out + [framed(j) for jobs in (p08.jobs(), p11.jobs(), p14._children_jobs(), p16.jobs(), p17.jobs()) for j in jobs]
