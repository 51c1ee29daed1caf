"""P05. Contract of ConvertVisitor for every alternative of the grammar that a query, an expression or a type is derived from: what's made
of a phrase is what contracts/conversion.py says it means, its parts being alike (induction); what has no meaning there is an error."""
import enum
import inspect

import attr

from contracts import conversion as C
from contracts import functions as F
from pydv import grammar, phrase, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, p04, p09, p15, trips
from vlib import T

ASSUMES = [
    "the parser's derivation of a text is one of SqlBase.g4 (P06); the generated contexts give their children as the generated code says",
    "computing types of operands doesn't change them (P10, P13)",
    "unicode escapes are decoded as documented (bounded)",
    "the lambda of a body has the parameters in place of their names (P17)",
]
G = phrase.G
LEXER = phrase.SqlBaseLexer
RAISES = object()


# Phrases ----------------------------------------------------------------------------------------------------------------
def value(eng, name):
    return shapes.hole(eng, T.Value, name, exclude=trips.ASIDE)


def query(eng, name):
    return shapes.hole(eng, T.Query, name)


def instance(cls, **fields):
    return lambda eng, name: shapes.instance(eng, cls, **fields)


# What the phrases of a rule are converted to
LEAVES = {r: value for r in ("expression", "booleanExpression", "valueExpression", "primaryExpression")}
LEAVES.update({r: trips.operand_query for r in ("queryNoWith", "queryTerm", "queryPrimary")})
LEAVES.update({r: lambda eng, name: shapes.hole(eng, T.Relation, name) for r in ("relation", "sampledRelation", "patternRecognition", "aliasedRelation", "relationPrimary")})
LEAVES.update({
    "query": query, "querySpecification": lambda eng, name: plain_select(eng), "sortItem": trips.order_term and (lambda eng, name: trips.order_term(eng, name)),
    "groupBy": instance(T.GroupBy), "groupingElement": lambda eng, name: shapes.hole(eng, T.Group, name), "groupingSet": instance(T.GroupingSet),
    "windowSpecification": instance(T.Window), "namedQuery": trips.named_query, "selectItem": lambda eng, name: shapes.hole(eng, T.Value, name, exclude=(T.Lambda.Variable,)),
    "whenClause": instance(T.When), "frameBound": lambda eng, name: shapes.hole(eng, T.FrameBound, name), "type_": lambda eng, name: shapes.dtype(eng, name),
    "interval": instance(T.Interval), "number": instance(T.Literal), "identifier": lambda eng, name: eng.str_(name, nonempty=True),
    "string": lambda eng, name: eng.str_(name),
    # It has no meaning, but what's in it may be looked at
    "jsonValueExpression": value, "tableFunctionArgument": value, "descriptorField": value, "patternPrimary": lambda eng, name: eng.str_(name, nonempty=True), "rowPattern": lambda eng, name: eng.str_(name, nonempty=True),
})


def plain_select(eng):
    none = lambda eng: None
    return shapes.instance(eng, T.SelectQuery, with_=lambda eng: eng.born([]), orderby=none, offset=none, limit=none)


def number(*ns):
    """One of these numbers of parts; -n is more than n"""
    return lambda eng: ns[eng.choose(len(ns), ("number", ns))]


def has_meaning(rule):
    return any((lab or rule)[0].upper() + (lab or rule)[1:] in C.SPECS for lab, _ in G.rules[rule].alts)


SPELLINGS = {"NEQ": ["<>", "!="], "TEXT_STRING": ["STRING"]}


def spellings(arg):
    """The texts of a token, and whether they're the same in the other case of letters"""
    t = G.token_type(arg)
    cands = SPELLINGS.get(arg, [])[:]
    for c in (arg.strip("'"), phrase.SqlBaseParser.literalNames[t].strip("'") if t < len(phrase.SqlBaseParser.literalNames) else ""):
        ts = phrase.lex(c) if c else []
        if not cands and len(ts) == 1 and ts[0].type == t:
            cands.append(c)
    if not cands:
        raise Unsupported(f"token {arg}")
    return t, cands


def written(eng, arg, case):
    """A token of a kind"""
    t = G.token_type(arg) if arg != "EOF" else -1
    if arg == "INTEGER_VALUE":
        return grammar.Tok(t, SText([Fn("digits", StrVar(eng.name("digits"), True))]))
    if arg == "BINARY_LITERAL":
        return grammar.Tok(t, SText(["X'", Fn("source", StrVar(eng.name("binary"))), "'"]))
    t, cands = spellings(arg)
    s = cands[eng.choose(len(cands), (arg, cands))]
    if case == "lower" and s.lower() != s:
        ts = phrase.lex(s.lower())
        s = ts[0].text if len(ts) == 1 and ts[0].type == t else s
    return grammar.Tok(t, s)


class Forms:
    """The sentential forms of an alternative: which optional parts there are is decided by the path"""

    def __init__(self, eng, given=None):
        self.eng, self.given = eng, given or {}
        self.case = ["upper", "lower"][eng.choose(2, ("keywords in", ["upper", "lower"]))]

    def element(self, e):
        eng, k = self.eng, e.kind
        if k == "tok":
            return [] if e.arg == "EOF" else [written(eng, e.arg, self.case)]
        if k == "rule":
            return self.rule(e.arg)
        if k == "seq":
            return self.sequence(e.arg)
        if k == "alt":
            return self.element(e.arg[eng.choose(len(e.arg), ("one of", [repr(a)[:30] for a in e.arg]))])
        if k == "opt":
            return self.element(e.arg) if eng.choose(2, ("optional", [repr(e.arg)[:40], ""])) == 0 else []
        if k == "plus":
            return [grammar.Several(eng.base("several", True), None, self.element(e.arg))]
        if k == "star":
            return [grammar.Several(eng.base("several", False), None, self.element(e.arg))]
        raise AssertionError(k)

    def sequence(self, els):
        out, i = [], 0
        while i < len(els):
            e = els[i]
            # x (sep x)*
            if i + 1 < len(els) and els[i + 1].kind in ("star", "plus") and els[i + 1].arg.kind == "seq":
                s = els[i + 1].arg.arg
                if len(s) == 2 and s[0].kind == "tok" and s[1].kind == e.kind and s[1].arg == e.arg:
                    if f"{e.arg}s" in self.given:
                        n = self.given[f"{e.arg}s"](self.eng)
                        if n == 0:
                            raise Infeasible()
                        for j in range(abs(n)):
                            out += (self.element(s[0]) if j else []) + self.element(e)
                        if n < 0:
                            out.append(grammar.Several(self.eng.base("more", True), None, self.element(s[0]) + self.element(e)))
                        i += 2
                        continue
                    b = self.eng.base("several", True)
                    if "distinct" in self.given:
                        self.eng.distinct.append(b)
                    if els[i + 1].kind == "plus":
                        self.eng.assume(self.eng.z(b.length) >= 2)
                    out.append(grammar.Several(b, G.token_type(s[0].arg), self.element(e)))
                    i += 2
                    continue
            out += self.element(e)
            i += 1
        return out

    def rule(self, name):
        if name in self.given:
            return self.given[name](self.eng, self)
        if name == "qualifiedName":
            n = self.eng.choose(5, ("names", [1, 2, 3, 4, "5 or more"])) + 1
            return self.names(n) + ([grammar.Several(self.eng.base("more"), None, [written(self.eng, "'.'", "")] + self.rule("identifier"))] if n == 5 else [])
        if name in LEAVES:
            l = grammar.Leaf(name, trips.PRIMARY, LEAVES[name](self.eng, name))
            l.split = None
            return [l]
        if not has_meaning(name):
            # Converting it is an error (an obligation of its own)
            l = grammar.Leaf(name, trips.PRIMARY, RAISES)
            l.split = None
            return [l]
        alts = G.rules[name].alts
        return self.element(alts[self.eng.choose(len(alts), (name, [a for a, _ in alts])) if len(alts) > 1 else 0][1])

    def names(self, n):
        out = []
        for i in range(n):
            out += ([written(self.eng, "'.'", "")] if i else []) + self.rule("identifier")
        return out


# Meanings ---------------------------------------------------------------------------------------------------------------
class Part(C.Rec):
    """The meaning of a phrase that stands for a node"""

    def __init__(self, eng, v):
        self.__dict__.update(value=v)

    def __repr__(self):
        return f"<{self.value!r}>"

    def __pydv_getattr__(self, eng, name):
        if name == "fields":
            return Fields(self.value)
        if name == "but":
            return phrase.Native(lambda **k: Changed(self.value, k))
        raise Unsupported(f"{name} of the meaning of a part")


class Fields:
    def __init__(self, v):
        self.value = v

    def __pydv_getattr__(self, eng, name):
        if name == "get":
            return phrase.Native(lambda n: eng.getattr_(self.value, n))
        raise Unsupported(f"{name} of the parts of a part")


class Changed(C.Rec):
    """A node with some of its parts changed"""

    def __init__(self, v, changes):
        self.__dict__.update(value=v, changes=changes)

    def __repr__(self):
        return f"<{self.value!r} with {self.changes}>"


class Captured(Part):
    """The body of a lambda"""


def meaning(eng, args, kwargs):
    """V: the meaning of a part, or the specification of its kind of context"""
    ctx = args[0]
    if not isinstance(ctx, phrase.Context):
        raise Unsupported(f"meaning of {ctx!r}")
    if ctx.leaf:
        v = eng.norm(ctx.value)
        if v is RAISES:
            raise PyRaise(C.Unsupported(ctx.rule))
        return v if isinstance(v, (str, SText)) else Part(eng, v)
    name = ctx.generated.__name__[:-len("Context")]
    spec = C.SPECS.get(name)
    if spec is None:
        raise PyRaise(C.Unsupported(name))
    return eng.call(spec, [V] + list(args))


class _V:
    def __pydv_call__(self, eng, args, kwargs):
        return meaning(eng, args, kwargs)


V = _V()


def base(eng, args, kwargs):
    """C.base of a part: the name of a field that's nothing but a name"""
    p = args[0]
    if not isinstance(p, Part):
        return NotImplemented
    v = eng.norm(p.value)
    if not eng.truth(eng.isinstance_(v, (T.Field,))):
        return p
    if not eng.truth(eng.is_none(eng.getattr_(v, "table"))):
        raise PyRaise(C.Unsupported("name with more than two parts"))
    return eng.getattr_(v, "name")


def captured(eng, args, kwargs):
    return Captured(eng, args[0].value) if isinstance(args[0], Part) else NotImplemented


def differs(eng, rec, got, where=""):
    """None, or where what's made of a phrase isn't what it means"""
    rec, got = eng.norm(rec), eng.norm(got)
    if isinstance(rec, Part):
        return trips.equal(eng, got, rec.value, where)
    if isinstance(rec, Changed):
        v = eng.norm(rec.value)
        if isinstance(v, Hole) and len(v.classes) > 1:
            eng.force(eng.type_of(v))
            v = eng.norm(v)
        cls = v.classes[0] if isinstance(v, Hole) else type(v)
        if (got.classes != (cls,)) if isinstance(got, Hole) else eng.pytype(got) is not cls:
            return f"{where}: {got!r} for {rec!r}"
        for f in attr.fields(cls):
            if f.name in trips.IGNORED or f.name == "data_type":
                continue
            g = eng.getattr_(got, f.name)
            d = differs(eng, rec.changes[f.name], g, f"{where}.{f.name}") if f.name in rec.changes else trips.equal(eng, g, eng.getattr_(v, f.name), f"{where}.{f.name}")
            if d:
                return d
        return None
    if isinstance(rec, C.Rec):
        cls = T.Lambda.Variable if rec.cls == "Variable" else getattr(T, rec.cls)
        if eng.pytype(got) is not cls:
            return f"{where}: {got!r} for {rec!r}"
        if cls is T.DataType:
            return differs(eng, rec.fields["type_name"], eng.getattr_(got, "type_name"), where) or \
                differs(eng, rec.fields["parameters"], eng.getattr_(got, "parameters"), where + ".parameters")
        for f in attr.fields(cls):
            if f.name in trips.IGNORED or not f.init or f.name == "data_type" and "data_type" not in rec.fields:
                continue
            g = eng.getattr_(got, f.name)
            if f.name in rec.fields:
                want = rec.fields[f.name]
            elif f.default is attr.NOTHING:
                return f"{where}.{f.name}: specified nowhere"
            else:
                want = f.default.factory() if isinstance(f.default, attr.Factory) else f.default
            d = differs(eng, want, g, f"{where}.{f.name}")
            if d:
                return d
        return None
    if isinstance(rec, (list, tuple)):
        rec, got = trips.settled(eng, list(rec)), trips.settled(eng, list(got) if isinstance(got, (list, tuple)) else got)
        if got is None or len(got) != len(rec):
            return f"{where}: {got!r} for {rec!r}"
        for i, (x, y) in enumerate(zip(rec, got)):
            if isinstance(x, Each) or isinstance(y, Each):
                if not (isinstance(x, Each) and isinstance(y, Each) and x.base is y.base and len(x.items) == len(y.items) and
                        getattr(x, "partial", False) == getattr(y, "partial", False)):
                    return f"{where}: {got!r} for {rec!r}"
                d = next((d for a, b in zip(x.items, y.items) for d in [differs(eng, a, b, f"{where}[..]")] if d), None)
            else:
                d = differs(eng, x, y, f"{where}[{i}]")
            if d:
                return d
        return None
    if isinstance(rec, dict):
        if eng.pytype(got) is not dict:
            return f"{where}: {got!r} for {rec!r}"
        rk, gk = list(rec), list(got)
        if where.endswith(".parameters"):
            rk, gk = sorted(rk), sorted(gk)
        if len(rk) != len(gk):
            return f"{where}: {got!r} for {rec!r}"
        for x, y in zip(rk, gk):
            if isinstance(x, EachKey) or isinstance(y, EachKey):
                if not (isinstance(x, EachKey) and isinstance(y, EachKey) and x.base is y.base and common.same(eng, x.key, y.key)):
                    return f"{where}: {got!r} for {rec!r}"
            elif not common.same(eng, x, y):
                return f"{where}: {got!r} for {rec!r}"
            d = differs(eng, rec[x], got[y], f"{where}[{x!r}]")
            if d:
                return d
        return None
    if isinstance(got, Fin):
        got = eng.force(got)
    if isinstance(got, enum.Enum):
        if isinstance(rec, enum.Enum):
            return None if rec is got else f"{where}: {got!r} for {rec!r}"
        return None if eng.known_equal(rec, got.name) or rec == got.name else f"{where}: {got!r} for {rec!r}"
    return None if common.same(eng, rec, got) else f"{where}: {got!r} for {rec!r}"


def visit(eng, args, kwargs):
    v, tree = list(args) + list(kwargs.values())
    tree = eng.norm(tree)
    if isinstance(tree, phrase.Context) and tree.leaf and tree.value is RAISES:
        raise PyRaise(NotImplementedError(tree.rule))
    return phrase.visit(eng, args, kwargs)


def engine():
    eng = trips.engine()
    eng.contracts[phrase.ParseTreeVisitor.visit] = visit
    eng.contracts[C.base] = base
    eng.contracts[C.captured] = captured
    return eng


def converted(rule, make):
    """The conversion of the phrases of a rule that make(eng) gives"""
    def harness(eng):
        items = make(eng)
        what = f"a {rule}"
        d = phrase.parse(rule, items)
        if d is None:
            raise Unsupported(f"no derivation of {items!r} from {rule}"[:300])
        ctx = phrase.build(eng, d)
        eng.start()
        try:
            want = meaning(eng, [ctx], {})
        except PyRaise as p:
            if not isinstance(p.exc, C.Unsupported):
                raise Unsupported(f"the specification raises {p.exc!r}")
            want = p.exc
        visitor = eng.born(phrase.convert.ConvertVisitor())
        try:
            got = eng.call(phrase.ParseTreeVisitor.visit, [visitor, ctx])
        except PyRaise as p:
            eng.prove(True, "reported")
            return
        if isinstance(want, C.Unsupported):
            raise Refuted("what can't be represented is reported", f"{items!r} has no meaning ({want}) and is converted to {got!r}")
        d = differs(eng, want, got)
        eng.prove(d is None, "the node is what the phrase means", f"{items!r} is converted to {got!r} instead of {want!r}: {d}")
    return harness


def reachable():
    out, todo = [], ["query", "standaloneExpression", "standaloneType"]
    while todo:
        r = todo.pop(0)
        if r in out or r not in G.rules:
            continue
        out.append(r)

        def walk(e):
            if e.kind == "rule":
                todo.append(e.arg)
            elif e.kind in ("seq", "alt"):
                for x in e.arg:
                    walk(x)
            elif e.kind != "tok":
                walk(e.arg)
        for _, s in G.rules[r].alts:
            walk(s)
    return out


JOBS = {"query", "queryNoWith", "queryTerm", "queryPrimary", "sortItem", "querySpecification", "groupBy", "groupingElement", "groupingSet", "windowSpecification",
        "namedQuery", "selectItem", "relation", "sampledRelation", "patternRecognition", "aliasedRelation", "relationPrimary", "expression", "booleanExpression",
        "valueExpression", "primaryExpression", "whenClause", "frameBound", "type_", "interval", "standaloneExpression", "standaloneType"}


def one_name(texts):
    """A name that is one of the texts, whatever its letters' case"""
    def make(eng, forms):
        t = texts[eng.choose(len(texts), ("name", texts))]
        if isinstance(t, str):
            return p15.name_tokens(eng, t)
        return t(eng)
    return make


def other_name(names):
    """A name that's none of the names"""
    def make(eng, forms=None):
        s = eng.str_("name", nonempty=True)
        up = eng.call_method(s, "upper")
        for n in names:
            if eng.truth(eng.eq(up, n)):
                raise Infeasible()
        l = grammar.Leaf("identifier", trips.PRIMARY, s)
        l.split = None
        return [l]
    return make


def several_names(eng, forms):
    n = eng.choose(4, ("names", [2, 3, 4, "5 or more"])) + 2
    return forms.names(n) + ([grammar.Several(eng.base("more"), None, [written(eng, "'.'", "")] + forms.rule("identifier"))] if n == 5 else [])


# The alternatives that are taken apart, by what their names and numbers of parts are
FUNCTIONS = sorted(set(F.FUNCTIONS) | set(F.VARIADIC))
# Quoted, these aren't the expressions they're spelled like: what they are isn't said here
APART = sorted(set(F.SPECIAL) | set(F.OTHER))
TYPES = sorted(shapes.TYPES)


def function_calls():
    for n in FUNCTIONS:
        yield n, {"qualifiedName": one_name([n]), "expressions": number(1, 2, 3, -4)}
    yield "an unknown name", {"qualifiedName": other_name(FUNCTIONS + APART)}
    yield "several names", {"qualifiedName": several_names}


def given(label, s):
    if label == "functionCall":
        return list(function_calls())
    if label == "genericType":
        return [(n, {"identifier": one_name([n]), "typeParameters": number(1, 2, 3, -4)}) for n in TYPES] + [("an unknown name", {"identifier": other_name(TYPES)})]
    if label == "lambda_" and len(s.arg) == 5:
        # Names that are the same are found among three
        return [("different names", {"distinct": True}), ("names", {"identifiers": number(1, 2, 3)})]
    return [("", None)]


def jobs():
    js = [j for j in p09.jobs() if j[0].endswith("in SQL")] + [j for j in p04.jobs() if j[0].endswith("is read")]
    for rule in reachable():
        if rule not in JOBS and (has_meaning(rule) or rule in LEAVES):
            continue
        for i, (label, s) in enumerate(G.rules[rule].alts):
            cls = (label or rule)[0].upper() + (label or rule)[1:]
            for of, g in given(label, s):
                name = f"{rule}: {label or rule}" + (f" ({i + 1})" if len(G.rules[rule].alts) > 1 else "") + (f" of {of}" if of else "")
                js.append((name, f"ConvertVisitor.visit{cls}", engine, converted(rule, lambda eng, s=s, g=g: Forms(eng, g).element(s)), 120))
    return js
