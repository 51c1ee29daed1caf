"""P06. Contracts of AST and of the *_from_sql functions over a ghost state of ANTLR's recognizers (the text, the error listeners, the tokens
that are left): a tree is only returned if nothing was reported and all of the text is used but for a final semicolon of a query.

The contract of a method of the generated parser: the text has a longest part that's a phrase of the rule (the tokens behind it are left, none
if the rule ends with EOF), or the listeners are told about an error and a repaired tree is returned if none of them raises."""
from antlr4 import CommonTokenStream
from antlr4.Lexer import Lexer
from antlr4.Token import Token
from antlr4.atn.ATNState import RuleStopState
from antlr4.atn.Transition import AtomTransition, NotSetTransition, RuleTransition, WildcardTransition
from antlr4.error.ErrorListener import ConsoleErrorListener

from pydv import phrase, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T, env

parse = env.MOD["treeno.grammar.parse"]
AST, InputStream, SqlBaseLexer, SqlBaseParser = parse.AST, parse.InputStream, phrase.SqlBaseLexer, phrase.SqlBaseParser
ASSUMES = [
    "a method of the generated parser uses the longest part of the text that's a phrase of its rule (up to EOF if the rule ends with it), or tells its listeners of an error (antlr4)",
    "the lexer gives all of the text as tokens in order and reports nothing if there's a token for each character (antlr4)",
]
# Rules that are followed by the end of the text
CLOSED = ("standaloneExpression", "standaloneType", "singleStatement", "standalonePathSpecification", "standaloneRowPattern")


class Ghost:
    """An object of antlr4: its methods are those of this class"""

    def __pydv_getattr__(self, eng, name):
        f = getattr(type(self), "do_" + name, None)
        if f is not None:
            return phrase.Native(lambda *a, **k: f(self, eng, *a, **k))
        if name in vars(self) and not name.startswith("_"):
            return vars(self)[name]
        raise Unsupported(f"{name} of a {type(self).__name__}")


class Input(Ghost):
    def __init__(self, text):
        self._text = text


class Recognizer(Ghost):
    def __init__(self):
        self._listeners = [None]         # the one that writes to the console

    def do_removeErrorListeners(self, eng):
        self._listeners = []

    def do_addErrorListener(self, eng, listener):
        self._listeners.append(listener)

    def do_removeErrorListener(self, eng, listener):
        self._listeners = [l for l in self._listeners if l is not listener]

    def report(self, eng):
        what = [self, None, eng.int_("line"), eng.int_("column"), eng.str_("message"), None]
        for l in self._listeners:
            if l is not None and l is not ConsoleErrorListener.INSTANCE:
                eng.call_method(l, "syntaxError", *what)


class GhostLexer(Recognizer):
    def __init__(self, source):
        super().__init__()
        self._source = source


class Stream(Ghost):
    def __init__(self, lexer):
        self.tokenSource = lexer
        self._left = None

    def left(self, k):
        if self._left is None or not 1 <= k <= len(self._left):
            raise Unsupported("tokens that aren't known")
        return self._left[k - 1]

    def do_LT(self, eng, k):
        return self.left(k)

    def do_LA(self, eng, k):
        return self.left(k).type

    def do_consume(self, eng):
        if self.left(1).type == Token.EOF:
            raise PyRaise(Exception("cannot consume EOF"))
        self._left.pop(0)


class GhostToken(Ghost):
    def __init__(self, eng, type, text):
        self.type, self.text = type, text
        self.line, self.column, self.channel = eng.int_("line", 1), eng.int_("column", 0), 0


class Tree(Ghost):
    def __init__(self, rule):
        self._rule = rule


class GhostParser(Recognizer):
    def __init__(self, stream):
        super().__init__()
        self._stream, self._errors = stream, 0

    def do_getTokenStream(self, eng):
        return self._stream

    def do_getInputStream(self, eng):
        return self._stream

    def do_getCurrentToken(self, eng):
        return self._stream.left(1)

    def do_getNumberOfSyntaxErrors(self, eng):
        return self._errors

    def do_consume(self, eng):
        t = self._stream.left(1)
        self._stream.do_consume(eng)
        return t

    def do_match(self, eng, type):
        t = self._stream.left(1)
        if eng.truth(eng.eq(t.type, type)):
            if type != Token.EOF:
                self._stream.do_consume(eng)
            return t
        self._errors += 1
        eng.ghost["right"] = False
        self.report(eng)
        return t

    def __pydv_getattr__(self, eng, name):
        if name in phrase.G.rules:
            return phrase.Native(lambda: self.rule(eng, name))
        return super().__pydv_getattr__(eng, name)

    def rule(self, eng, name):
        g = eng.ghost
        if "tree" in g:
            raise Unsupported("a second phrase")
        g["tree"] = Tree(name)
        g["source"] = self._stream.tokenSource._source
        # The lexer has nothing to report (see `total`)
        ok = eng.choose(2, ("the text is", ["right", "wrong"]))
        if ok == 0:
            g["right"] = True
            self._stream._left = [GhostToken(eng, Token.EOF, "<EOF>")] if name in CLOSED else rest(eng)
            return g["tree"]
        g["right"] = False
        self._errors += 1
        self.report(eng)
        # Repaired: anything may be left
        self._stream._left = [GhostToken(eng, Token.EOF, "<EOF>")] if name in CLOSED else rest(eng)
        return g["tree"]


def rest(eng):
    """What may be behind a query"""
    eof, semicolon = lambda: GhostToken(eng, Token.EOF, "<EOF>"), lambda: GhostToken(eng, SqlBaseLexer.UNRECOGNIZED, ";")

    def other():
        s = eng.str_("token", nonempty=True)
        if eng.truth(eng.eq(s, ";")):
            raise Infeasible()
        return GhostToken(eng, eng.int_("type", 1, max(SqlBaseLexer.UNRECOGNIZED, 1)), s)
    kinds = ["nothing", "a semicolon", "two semicolons", "a semicolon and a token", "a token", "a token and a semicolon"]
    k = eng.choose(len(kinds), ("behind the query", kinds))
    eng.ghost["rest"] = k < 2
    return [[eof()], [semicolon(), eof()], [semicolon(), semicolon(), eof()], [semicolon(), other(), eof()], [other(), eof()], [other(), semicolon(), eof()]][k]


def engine():
    eng = common.engine()
    eng.ghost = None
    eng.contracts[InputStream] = lambda eng, args, kwargs: Input(*args, *kwargs.values())
    eng.contracts[SqlBaseLexer] = lambda eng, args, kwargs: GhostLexer(*args, *kwargs.values())
    eng.contracts[CommonTokenStream] = lambda eng, args, kwargs: Stream(*args, *kwargs.values())
    eng.contracts[SqlBaseParser] = lambda eng, args, kwargs: GhostParser(*args, *kwargs.values())
    return eng


def start(eng):
    eng.ghost = {}
    text = eng.str_("text")
    eng.start()
    return text


def accepted(eng, text, f, what):
    """The tree, if there's one"""
    try:
        got = f()
    except PyRaise as p:
        g = eng.ghost
        if g.get("right") and g.get("rest", True):
            raise Refuted("valid text is accepted", f"{what}: {p.exc!r}")
        eng.prove(True, "an error is reported")
        return None
    g = eng.ghost
    if "tree" not in g or not isinstance(g["source"], Input) or not common.same(eng, g["source"]._text, text):
        raise Unsupported("the text isn't parsed as it is")
    eng.prove(g["right"], "a syntax error isn't ignored", f"{what} returns {got!r}")
    eng.prove(g.get("rest", True), "what's behind the phrase isn't ignored", f"{what} returns {got!r}")
    return got


RULES = {"query": ("query", "singleStatement"), "expression": ("standaloneExpression",), "type": ("standaloneType",)}


def entry(method):
    def harness(eng):
        text = start(eng)
        tree = accepted(eng, text, lambda: eng.call_method(eng.call(AST, [text]), method), f"AST.{method}")
        if tree is not None:
            eng.prove(tree is eng.ghost["tree"] and tree._rule in RULES[method], "it's the tree of the text", f"{tree!r}")
    return harness


class Converted(Ghost):
    def __init__(self, tree):
        self._tree = tree


def visitors(eng):
    def visit(eng, args, kwargs):
        visitor, tree = list(args) + list(kwargs.values())
        if not isinstance(tree, Tree):
            raise Unsupported(f"conversion of {tree!r}")
        if eng.choose(2, ("the conversion", ["succeeds", "fails"])) == 1:
            raise PyRaise(NotImplementedError())
        return Converted(tree)
    visitor = phrase.convert.ConvertVisitor
    for f in (phrase.ParseTreeVisitor.visit, visitor.visitQuery, visitor.visitStandaloneExpression, visitor.visitStandaloneType):
        eng.contracts[f] = visit


FROM = {"query": "query_from_sql", "expression": "expression_from_sql", "type": "type_from_sql"}


def from_sql(method):
    """Contract: the conversion of the tree that AST's method returns for the text"""
    f = getattr(phrase.convert, FROM[method])

    def make():
        eng = engine()
        visitors(eng)
        for m in FROM:
            def tree(eng, args, kwargs, m=m):
                if not common.same(eng, eng.getattr_(args[0], "text"), eng.ghost["text"]):
                    raise Unsupported("the text isn't parsed as it is")
                if eng.choose(2, ("the text is", ["right", "wrong"])) == 1:
                    raise PyRaise(parse.SqlSyntaxError())
                eng.ghost["tree"] = Tree(m)
                return eng.ghost["tree"]
            eng.contracts[getattr(AST, m)] = tree
        return eng

    def harness(eng):
        text = start(eng)
        eng.ghost["text"] = text
        try:
            got = eng.call(f, [text])
        except PyRaise:
            eng.prove(True, "an error is reported")
            return
        eng.prove(isinstance(got, Converted) and got._tree is eng.ghost.get("tree") and got._tree._rule == method, "it's what the tree of the text is converted to", f"{got!r}")
    return make, harness


# The data of the generated recognizers ------------------------------------------------------------------------------------
def ends_with_eof(rule):
    def harness(eng):
        atn = SqlBaseParser.atn
        eng.start()
        todo, seen = [atn.ruleToStartState[SqlBaseParser.ruleNames.index(rule)]], set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if isinstance(s, RuleStopState):
                raise Refuted("the rule ends with the end of the text", rule)
            for t in s.transitions:
                if isinstance(t, RuleTransition):
                    todo.append(t.followState)
                elif not (isinstance(t, AtomTransition) and t.label_ == Token.EOF):
                    todo.append(t.target)
        eng.prove(True, "the rule ends with the end of the text")
    return harness


def unrecognised(eng):
    eng.start()
    bad = [t for s in SqlBaseParser.atn.states if s is not None for t in s.transitions
           if isinstance(t, (NotSetTransition, WildcardTransition)) or t.label is not None and SqlBaseLexer.UNRECOGNIZED in t.label]
    eng.prove(not bad, "no phrase has a character that's not recognised", repr(bad))


def total(eng):
    """There's a token for each character"""
    atn = SqlBaseLexer.atn
    eng.start()
    ok = False
    for i, s in enumerate(atn.ruleToStartState):
        todo, seen = [s], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for t in x.transitions:
                if isinstance(t, WildcardTransition) and any(isinstance(e.target, RuleStopState) for e in t.target.transitions):
                    ok = ok or SqlBaseLexer.ruleNames[i] == "UNRECOGNIZED"
                elif t.isEpsilon and not isinstance(t, RuleTransition):
                    todo.append(t.target)
    eng.prove(ok, "there's a token for each character")


HIDDEN = {"SIMPLE_COMMENT", "BRACKETED_COMMENT", "WS"}


def nothing_skipped(eng):
    """Only comments and white space are hidden from the parser, and nothing else changes tokens"""
    atn = SqlBaseLexer.atn
    eng.start()
    rules = {SqlBaseLexer.ruleNames[t.ruleIndex] for s in atn.states if s is not None for t in s.transitions if hasattr(t, "actionIndex")}
    eng.prove(rules == HIDDEN, "only comments and white space are hidden", repr(rules))
    eng.prove(len(atn.modeToStartState) == 1 and SqlBaseLexer.nextToken is Lexer.nextToken and SqlBaseLexer.emit is Lexer.emit and
              SqlBaseLexer.emitToken is Lexer.emitToken, "tokens are those of the grammar")


def jobs():
    js = [(f"AST.{m}", f"treeno.grammar.parse.AST.{m}, AST._strict_parser, AST.parser, RaisingErrorListener", engine, entry(m)) for m in RULES]
    for m in FROM:
        make, harness = from_sql(m)
        js.append((FROM[m], f"treeno.builder.convert.{FROM[m]}", make, harness))
    for r in CLOSED[:2]:
        js.append((f"the end of {r}", "SqlBaseParser", engine, ends_with_eof(r)))
    js.append(("unrecognised characters", "SqlBaseParser", engine, unrecognised))
    js.append(("the lexer is total", "SqlBaseLexer", engine, total))
    js.append(("hidden tokens", "SqlBaseLexer", engine, nothing_skipped))
    return js
