"""The derivations of pydv/grammar.py against the trees that the generated ANTLR parser builds (bounded)"""
import antlr4
from antlr4.tree.Tree import TerminalNode

from vlib import env  # noqa
from pydv import grammar
from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer
from treeno.grammar.gen.SqlBaseParser import SqlBaseParser
from treeno.grammar.parse import AST

_g = []


def the_grammar():
    if not _g:
        _g.append(grammar.Grammar(SqlBaseParser))
    return _g[0]


def lex(s):
    lexer = SqlBaseLexer(antlr4.InputStream(s))
    lexer.removeErrorListeners()
    ts = antlr4.CommonTokenStream(lexer)
    ts.fill()
    return [grammar.Tok(t.type, t.text) for t in ts.tokens if t.channel == 0 and t.type != -1]


def of_antlr(ctx):
    if isinstance(ctx, TerminalNode):
        return ctx.getText() if ctx.symbol.type != -1 else None
    return (type(ctx).__name__[:-7],) + tuple(x for x in [of_antlr(c) for c in (ctx.children or [])] if x is not None)


def of_derivation(n):
    if isinstance(n, grammar.Tok):
        return n.text
    name = n.label or n.rule
    return (name[0].upper() + name[1:],) + tuple(of_derivation(c) for _, _, c in n.items)


def agrees(case):
    """None, or how the derivation of a text differs from ANTLR's"""
    rule, s = case
    lexer = SqlBaseLexer(antlr4.InputStream(s))
    parser = SqlBaseParser(antlr4.CommonTokenStream(lexer))
    parser.removeErrorListeners()
    lexer.removeErrorListeners()
    tree = getattr(parser, rule)()
    want = None if parser.getNumberOfSyntaxErrors() or parser.getTokenStream().LA(1) != -1 else of_antlr(tree)
    ds = the_grammar().derivations(rule, lex(s), 1)
    got = of_derivation(ds[0]) if ds else None
    return None if got == want else f"{rule} {s!r}:\n{got}\ninstead of ANTLR's\n{want}"


def check(rep, kind, cases):
    """Without agreement, what was proved about the grammar says nothing about the parser"""
    from vlib import par
    n, fails = par.run(lambda: iter(cases), agrees, limit=3)
    rep.count(kind, n)
    if fails:
        rep.notes["grammar_disagreements"] = [f for _, f in fails]
        for o in rep.obligations:
            if o["status"] == "discharged":
                o.update(status="undecided", detail="pydv/grammar.py doesn't derive what the generated parser derives")
    return len(fails)
