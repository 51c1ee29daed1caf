"""Printed texts as sentential forms of the grammar, and their conversion by the real visitor.

A symbolic text (constants, quoted unknown strings, numbers, printed parts of which the phrase structure is given by a contract) is
tokenised by the library's own lexer, with a place holder for each unknown piece. Its derivation is handed to ConvertVisitor as a tree
of contexts (instances of the generated context classes); visiting a phrase that stands for a part gives that part (induction)."""
import ast
import functools
import inspect
from decimal import Decimal

import z3

from pydv import grammar, text
from pydv.engine import Refuted
from pydv.values import *  # noqa
from vlib import T, env  # noqa

from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer
from treeno.grammar.gen.SqlBaseParser import SqlBaseParser
import antlr4
from antlr4.tree.Tree import ParseTreeVisitor

G = grammar.Grammar(SqlBaseParser)
convert = env.MOD["treeno.builder.convert"]
FIRST = 0xE000  # private use: place holders
STRINGS = {SqlBaseLexer.STRING: "'", SqlBaseLexer.QUOTED_IDENTIFIER: '"', SqlBaseLexer.UNICODE_STRING: "'"}


class Unsafe(Exception):
    """The text of a part isn't kept apart from what's next to it"""


# Tokens -----------------------------------------------------------------------------------------------------------------
def double(q):
    return (q, q + q)


def one(eng, base):
    return eng.known_equal(base.length, 1)


def flatten(eng, pieces):
    """Pieces without those that keep tokens as they are; repetitions of nothing vanish"""
    out = []
    for p in pieces:
        if isinstance(p, StrVar):
            p = p.root()
            if p.value is not None:
                p = p.value
        if isinstance(p, Rep):
            if eng.truth(eng.compare_ints(p.base.length, 0)):
                continue
            if one(eng, p.base):
                out += flatten(eng, p.items)
            else:
                out.append(p)
        elif isinstance(p, Fn) and p.op == "pad":
            out += flatten(eng, text.pieces_of(eng, p.arg))
        elif isinstance(p, Pad):
            out.append(" ")
        elif p != "":
            out.append(p)
    return out


@functools.lru_cache(20000)
def lex(s):
    lexer = SqlBaseLexer(antlr4.InputStream(s))
    lexer.removeErrorListeners()
    out = []
    while True:
        t = lexer.nextToken()
        if t.type == -1:
            return out
        out.append(t)


# The characters that may be next to the text of a part without becoming part of one of its tokens
SAFE_BEFORE = set(" \n\t([,*+=<>|%-")
SAFE_AFTER = set(" \n\t)],[+=<>|%-*;.")


def tokens(eng, value, phrase, what="the text"):
    """The sentential form of a symbolic text. phrase(eng, hole) -> (rule, precedence, value) of a printed part"""
    value = eng.norm(value)
    pieces = flatten(eng, text.pieces_of(eng, value))
    s, held, skip = "", [], 0
    for i, p in enumerate(pieces):
        if isinstance(p, str):
            p, skip = p[skip:], 0
            if any(FIRST <= ord(c) < FIRST + 5000 for c in p):
                raise Unsupported("private use characters")
            s += p
        else:
            if isinstance(p, Fn) and p.op == "format" and p.consts == ("f",) and isinstance(p.arg, Opaque) and p.arg.pytype is Decimal:
                rest = pieces[i + 1] if i + 1 < len(pieces) and isinstance(pieces[i + 1], str) else ""
                p, skip = decimal(eng, p, rest)
            s += chr(FIRST + len(held))
            held.append(p)
    out = []
    for t in lex(s):
        if t.channel != 0:
            if any(ord(c) >= FIRST for c in t.text):
                raise Refuted(what, f"a part is printed in a comment: {value!r}")
            continue
        ks = [ord(c) - FIRST for c in t.text if FIRST <= ord(c) < FIRST + 5000]
        if not ks:
            out.append(grammar.Tok(t.type, t.text))
            continue
        if t.type in STRINGS:
            q = STRINGS[t.type]
            parts = []
            for c in t.text:
                if FIRST <= ord(c) < FIRST + 5000:
                    p = held[ord(c) - FIRST]
                    if not (isinstance(p, Fn) and (p.op == "replace" and p.consts == double(q) or p.op in ("int", "digits"))):
                        raise Refuted(what, f"{p!r} is printed within {q} as it is: it may end there")
                    parts.append(p)
                else:
                    parts.append(c)
            out.append(grammar.Tok(t.type, eng.norm(SText(parts))))
            continue
        if len(t.text) != 1:
            raise Unsupported(f"{t.text!r} with unknown parts")
        before, after = s[t.start - 1:t.start], s[t.stop + 1:t.stop + 2]
        out += piece(eng, held[ks[0]], before, after, phrase, what)
    return out


def piece(eng, p, before, after, phrase, what):
    if isinstance(p, list):
        for c, bad in ((before, "'\"._-"), (after, "'\"._")):
            if c and (c.isalnum() or c in bad):
                raise Refuted(what, f"nothing keeps a number apart from {c!r}")
        return p
    if isinstance(p, Fn) and p.op == "sql":
        for c, safe in ((before, SAFE_BEFORE), (after, SAFE_AFTER)):
            if c and c not in safe:
                raise Refuted(what, f"nothing keeps the text of {p.arg!r} apart from {c!r}")
        if before == "-" and text_starts(eng, p, "-"):
            raise Refuted(what, f"two dashes start a comment: - before {p.arg!r}")
        if before == "-" and text_starts_with_digit(eng, p):
            raise Refuted(what, f"- before a number is part of the number: {p.arg!r}")
        if after == "." and literals(eng, p.arg):
            raise Refuted(what, f". after a number is part of the number: {p.arg!r}")
        return [leaf(eng, phrase, p.arg)]
    if isinstance(p, Rep):
        inner = tokens(eng, SText(p.items), phrase, what)
        sep = None
        if p.sep is None:
            raise Unsupported("repetition without a separator")
        seps = [t for t in lex(p.sep) if t.channel == 0]
        if len(seps) > 1 or not p.sep:
            raise Unsupported(f"separator {p.sep!r}")
        if seps:
            sep = seps[0].type
        else:
            # Blanks, so that the phrases don't run into each other
            pass
        return [grammar.Several(p.base, sep, inner)]
    if isinstance(p, Fn) and p.op in ("int", "digits"):
        # A number has to stay one
        for c, bad in ((before, "'\"._-"), (after, "'\"._")):
            if c and (c.isalnum() or c in bad):
                raise Refuted(what, f"nothing keeps a number apart from {c!r}")
        if p.op == "digits":
            return [grammar.Tok(SqlBaseLexer.INTEGER_VALUE, SText([p]))]
        v = p.arg
        if eng.truth(SBool(eng.z(v) >= 0)):
            return [grammar.Tok(SqlBaseLexer.INTEGER_VALUE, SText([Fn("digits", v, v)]))]
        w = eng.norm(SInt(z3.simplify(-eng.z(v))))
        return [grammar.Tok(SqlBaseLexer.MINUS, "-"), grammar.Tok(SqlBaseLexer.INTEGER_VALUE, SText([Fn("digits", w, w)]) if isinstance(w, Sym) else str(w))]
    if isinstance(p, StrVar):
        d = text.domain(p)
        if d is not None:
            v = text.pick(eng, SText([p]), sorted(d))
            return [grammar.Tok(t.type, t.text) for t in lex(v) if t.channel == 0]
        raise Refuted(what, f"an unknown string is printed without quotes: {p!r}")
    if isinstance(p, Fn) and p.op == "replace" and parts_in(p.arg):
        raise Refuted(what, f"characters of a printed part are replaced, in its names and strings as well: {p!r}")
    raise Unsupported(f"{p!r} as tokens")


def parts_in(x):
    """Whether a text contains that of a part"""
    if isinstance(x, SText):
        return any(parts_in(p) for p in x.pieces)
    return isinstance(x, Fn) and (x.op == "sql" or x.op in ("replace", "pad") and parts_in(x.arg)) or isinstance(x, Rep) and any(parts_in(p) for p in x.items)


def text_starts(eng, p, c):
    return eng.truth(eng.eq(eng.getitem(SText([p]), 0), c))


def text_starts_with_digit(eng, p):
    return eng.truth(eng.call_method(eng.getitem(SText([p]), 0), "isdigit"))


def literals(eng, hole):
    """Whether a part may be a number"""
    hole = eng.norm(hole)
    cs = hole.classes if isinstance(hole, Hole) else (type(hole),)
    return any(issubclass(c, T.Literal) for c in cs)


def leaf(eng, phrase, hole):
    (rule, prec), split = phrase(eng, hole)
    l = grammar.Leaf(rule, prec, eng.getattr_(hole, "name") if rule == "identifier" else hole)
    l.split = split
    return l


def decimal(eng, p, rest):
    """The tokens of format(d, "f") of a decimal: digits with at most one point, behind a minus sign if d has one.
    rest: what follows. Gives the tokens and how much of rest belongs to them."""
    d = p.arg
    out = []
    if eng.truth(eng.memo_bool(("signed", id(d)), "signed")):
        out.append(grammar.Tok(SqlBaseLexer.MINUS, "-"))
    point = eng.truth(eng.compare(ast.In(), ".", SText([p])))
    if point:
        return out + [grammar.Tok(SqlBaseLexer.DECIMAL_VALUE, SText([Fn("whole", d), ".", Fn("fraction", d)]))], 0
    if rest[:1] == ".":
        return out + [grammar.Tok(SqlBaseLexer.DECIMAL_VALUE, SText([Fn("whole", d), "."]))], 1
    return out + [grammar.Tok(SqlBaseLexer.INTEGER_VALUE, SText([Fn("whole", d)]))], 0


def decimal_of(eng, s):
    """Decimal(text) of the text of a decimal's tokens"""
    ps = list(s.pieces)
    neg = bool(ps) and isinstance(ps[0], str) and ps[0] == "-"
    ps = ps[1:] if neg else ps
    if len(ps) in (2, 3) and isinstance(ps[0], Fn) and ps[0].op == "whole" and ps[1] == "." and \
            (len(ps) == 2 or isinstance(ps[2], Fn) and ps[2].op == "fraction" and ps[2].arg is ps[0].arg):
        d = ps[0].arg
        has_point = eng.truth(eng.compare(ast.In(), ".", SText([Fn("format", d, "f")])))
        if neg == eng.truth(eng.memo_bool(("signed", id(d)), "signed")) and has_point == (len(ps) == 3):
            return d
    return Opaque(Decimal, "decimal", text=s)


# Contexts ---------------------------------------------------------------------------------------------------------------
class Terminal:
    """A token, as the visitor sees it (a terminal node or a token)"""

    def __init__(self, tok):
        self.tok = tok
        self.text, self.type = tok.text, tok.type
        self.symbol = self
        self.line = self.column = 1

    def getText(self):
        return self.text

    def getSymbol(self):
        return self

    def __pydv_getattr__(self, eng, name):
        if name in ("getText", "getSymbol"):
            return Native(getattr(self, name))
        if name in self.__dict__:
            return self.__dict__[name]
        raise Unsupported(f"attribute {name} of a token")


class Native:
    def __init__(self, f):
        self.f = f

    def __pydv_call__(self, eng, args, kwargs):
        r = self.f(*args, **kwargs)
        if isinstance(r, list):
            eng.born(r)
        return r


def context_class(name):
    return getattr(SqlBaseParser, name[0].upper() + name[1:] + "Context")


_classes = {}


def shadow(cls):
    """A subclass of a generated context class whose instances get their children from a derivation"""
    if cls not in _classes:
        _classes[cls] = type(cls.__name__, (Context, cls), {"__init__": Context.__init__})
    return _classes[cls]


class Context:
    def __init__(self, eng, rule, label, items, value=None, leaf=False):
        self.__dict__.update(eng=eng, rule=rule, kids=[], leaf=leaf, value=value, own={}, generated=type(self).__mro__[2])
        self.__dict__["internal"] = frozenset(self.__dict__) | {"internal"}
        if leaf:
            return
        for name in label_names(self.generated):
            self.own[name] = None
        for name in added_names(self.generated):
            self.own[name] = eng.born([])
        for lab, add, child in items:
            if isinstance(child, grammar.Group):
                inner = [(l, a, build(eng, c)) for l, a, c in child.items]
                e = Each(child.several.base, [c for _, _, c in inner])
                self.kids.append(e)
                for l, a, c in inner:
                    if l and a:
                        self.own[l].append(Each(child.several.base, [c]))
                continue
            c = build(eng, child)
            self.kids.append(c)
            if lab and add:
                self.own[lab].append(c)
            elif lab:
                self.own[lab] = c

    def __repr__(self):
        return f"<{self.rule} {self.value!r}>" if self.leaf else f"<{self.generated.__name__}>"

    # What the generated accessors call
    def _select(self, test):
        out = []
        for c in self.kids:
            if isinstance(c, Each):
                found = [x for x in c.items if test(x)]
                if found:
                    out.append(Each(c.base, found))
            elif test(c):
                out.append(c)
        return out

    def getTypedRuleContexts(self, cls):
        return self._select(lambda c: isinstance(c, cls))

    def _nth(self, found, i):
        if any(isinstance(c, Each) for c in found[:i + 1]):
            return self.eng.getitem(self.eng.born(found), i) if self.eng.truth(self.eng.compare_ints(self.eng.length(found), i + 1)) or True else None
        return found[i] if i < len(found) else None

    def getTypedRuleContext(self, cls, i):
        return self._nth(self.getTypedRuleContexts(cls), i)

    def getTokens(self, ttype):
        return self._select(lambda c: isinstance(c, Terminal) and c.type == ttype)

    def getToken(self, ttype, i):
        return self._nth(self.getTokens(ttype), i)

    def getChildren(self):
        return list(self.kids)

    def getChildCount(self):
        return self.eng.length(self.eng.born(list(self.kids)))

    def getChild(self, i):
        return self._nth(self.kids, i)

    def getText(self):
        if self.leaf:
            return SText([Fn("nonempty", self.eng.str_("source"))])
        out = []
        for c in self.kids:
            if isinstance(c, Each):
                out.append(Rep(c.base, ",", [p for x in c.items for p in text.pieces_of(self.eng, x.getText())]))
            else:
                out += text.pieces_of(self.eng, c.getText())
        return self.eng.norm(SText(out))

    def __pydv_getattr__(self, eng, name):
        if self.leaf:
            if name == "getText":
                return Native(self.getText)
            raise Unsupported(f"a conversion looks into the phrase {self!r} ({name})")
        if name in self.own:
            return self.own[name]
        if name in ("getTypedRuleContexts", "getTypedRuleContext", "getTokens", "getToken", "getChildren", "getChildCount", "getChild", "getText"):
            return Native(getattr(self, name))
        if name == "children":
            return eng.born(list(self.kids))
        if name in self.__dict__ and name not in self.__dict__["internal"]:
            return self.__dict__[name]
        f = inspect.getattr_static(self.generated, name, None)
        if inspect.isfunction(f) and "SqlBaseParser" in f.__module__:
            return Native(lambda *a, **k: f(self, *a, **k))
        if f is None:
            raise PyRaise(AttributeError(name))
        raise Unsupported(f"attribute {name} of a context")

    def __setattr__(self, name, value):
        self.__dict__["own"][name] = value


_names = {}


def _assigned(cls):
    """The labels of a generated context class: what its constructor sets"""
    if cls not in _names:
        from pydv.engine import node_of  # noqa
        src = inspect.getsource(cls.__init__)
        import re
        _names[cls] = re.findall(r"self\.(\w+) = (None|list\(\))", src)
    return _names[cls]


def label_names(cls):
    return [n for n, v in _assigned(cls) if v == "None" and n not in ("parser",)]


def added_names(cls):
    return [n for n, v in _assigned(cls) if v != "None"]


def build(eng, d):
    if isinstance(d, grammar.Tok):
        return eng.born(Terminal(d))
    if isinstance(d, grammar.Leaf):
        return eng.born(shadow(context_class(d.rule))(eng, d.rule, None, [], d.value, True))
    return eng.born(shadow(context_class(d.label or d.rule))(eng, d.rule, d.label, d.items))


def visit(eng, args, kwargs):
    """What a visitor does with a tree: the method for the tree's class; ensures for a part: the part (induction)"""
    visitor, tree = list(args) + list(kwargs.values())
    tree = eng.norm(tree)
    if isinstance(tree, Context):
        if tree.leaf:
            return tree.value
        name = tree.generated.__name__[:-len("Context")]
        return eng.call_method(visitor, "visit" + name, tree)
    if isinstance(tree, Terminal):
        return None
    if tree is None:
        raise PyRaise(AttributeError("'NoneType' object has no attribute 'accept'"))
    raise Unsupported(f"visit of {tree!r}")


ENTRIES = {"query": "query", "expression": "standaloneExpression", "type": "standaloneType"}


def install(eng, phrase_of=None):
    """Contracts of the parser: AST(text).query/expression/type() is the derivation of the whole text from the rule (P06)"""
    eng.contracts[ParseTreeVisitor.visit] = visit
    eng.decimal_of = decimal_of
    if phrase_of is not None:
        def entry(method, rule):
            def derive(eng, args, kwargs):
                text = eng.getattr_(args[0], "text")
                items = tokens(eng, text, phrase_of)
                return build(eng, derived(rule, items))
            eng.contracts[getattr(env.MOD["treeno.grammar.parse"].AST, method)] = derive
        for m, rule in ENTRIES.items():
            entry(m, rule)
    return eng


_cache = {}


def signature(items):
    out = []
    for t in items:
        if isinstance(t, grammar.Tok):
            out.append(t.type)
        elif isinstance(t, grammar.Leaf):
            out.append((t.rule, t.prec))
        else:
            out.append(("several", t.sep) + signature(t.items))
    return tuple(out)


def parse(rule, items, prec=0):
    """The derivation that the parser chooses, or None. Derivations of the same sequence of kinds are the same."""
    key = (rule, prec, signature(items))
    if key not in _cache:
        _cache[key] = ([t for t in items], G.derivations(rule, items, 1, prec))
    old, ds = _cache[key]
    if not ds:
        return None
    flat = {}

    def pair(xs, ys):
        for x, y in zip(xs, ys):
            flat[id(x)] = y
            if isinstance(x, grammar.Several):
                pair(x.items, y.items)
    pair(old, items)

    def copy(d):
        if isinstance(d, grammar.Node):
            return grammar.Node(d.rule, d.label, [(l, a, copy(c)) for l, a, c in d.items])
        if isinstance(d, grammar.Group):
            return grammar.Group(flat[id(d.several)], [(l, a, copy(c)) for l, a, c in d.items])
        return flat[id(d)]
    return copy(ds[0])


def all_leaves(items):
    for t in items:
        if isinstance(t, grammar.Leaf):
            yield t
        elif isinstance(t, grammar.Several):
            yield from all_leaves(t.items)


def derived(rule, items, what="the text", prec=0):
    """The derivation from a rule. Parts of several kinds are told apart when there's no derivation for all of them alike."""
    while True:
        d = parse(rule, items, prec)
        if d is not None:
            return d
        l = next((l for l in all_leaves(items) if getattr(l, "split", None)), None)
        if l is None:
            raise Refuted(what, f"isn't derived from {rule}{'[%d]' % prec if prec else ''}: {items!r}"[:600])
        l.rule, l.prec = l.split()
        l.split = None


def reading(eng, rule, items, what="the text", prec=0):
    """What the conversion makes of a sentential form"""
    d = derived(rule, items, what, prec)
    visitor = eng.born(convert.ConvertVisitor())
    return eng.call(ParseTreeVisitor.visit, [visitor, build(eng, d)])
