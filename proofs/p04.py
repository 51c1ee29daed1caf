"""P04. Contract of C.sql for every class C with names or strings of its own: in both modes, and whatever characters it contains, each of
them is printed as the whole of a quoted token, and nowhere else. Contracts of the quoting functions and of the conversions of the
tokens: what's read is what was quoted."""
import attr

from pydv import grammar, phrase, shapes, text
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, p01, p02, p03, trips
from vlib import T, env

LEXER = phrase.SqlBaseLexer
util, convert = env.MOD["treeno.util"], phrase.convert
ASSUMES = [
    "a text in quotes in which every quote is doubled is one token of the lexer, and any such token is the doubling of one text "
    "(the rules QUOTED_IDENTIFIER and STRING of SqlBase.g4; bounded: all short texts over quotes and other characters)",
    "strings in U&'..' are decoded as documented (bounded: all short texts over the escape, quotes and digits)",
    "pad keeps the tokens of a text (P03)",
]


def strings(eng, v, printed, where=""):
    """The unknown strings among the parts of a node, but for those of parts printed by themselves"""
    v = eng.norm(v)
    if any(v is p or isinstance(p, Sym) and common.same(eng, v, p) for p in printed):
        return
    if isinstance(v, SText):
        if any(isinstance(p, (StrVar, Fn)) for p in v.pieces) and text.domain(v.pieces[0]) is None:
            yield where, v
    elif isinstance(v, Each):
        if eng.known_equal(v.base.length, 0):
            return
        for x in v.items:
            yield from strings(eng, x, printed, where + "[..]")
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from strings(eng, x, printed, where)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from strings(eng, k.key if isinstance(k, EachKey) else k, printed, where + ".key")
            yield from strings(eng, x, printed, where)
    else:
        cls = type(v) if not isinstance(v, Hole) else v.classes[0] if len(v.classes) == 1 else None
        for f in attr.fields(cls) if cls is not None and attr.has(cls) else ():
            if f.name not in trips.IGNORED and (f.name != "data_type" or cls in (T.Cast, T.TryCast)):
                yield from strings(eng, eng.getattr_(v, f.name), printed, where + "." + f.name)


def content(eng, tok):
    """What a quoted token denotes: the text whose quotes are doubled in it; None for other tokens"""
    q = phrase.STRINGS.get(tok.type)
    if not q or tok.type == LEXER.UNICODE_STRING:
        return None
    ps = list(tok.text.pieces) if isinstance(tok.text, SText) else [tok.text]
    if isinstance(ps[0], str) and isinstance(ps[-1], str) and ps[0][:1] == q and ps[-1][-1:] == q:
        ps[0] = ps[0][1:]
        ps[-1] = ps[-1][:-1]
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p.replace(q + q, q))
            elif isinstance(p, Fn) and p.op == "replace" and p.consts == phrase.double(q):
                out += [p.arg] if isinstance(p.arg, StrVar) else text.pieces_of(eng, p.arg)
            else:
                out.append(p)
        return eng.norm(SText(out))
    return None


def toks(items):
    for t in items:
        if isinstance(t, grammar.Several):
            yield from toks(t.items)
        elif isinstance(t, grammar.Tok):
            yield t


def quoted(cls, mode, **fields):
    def harness(eng):
        node = trips.make(eng, cls, **fields)
        eng.start()
        try:
            s = eng.call(cls.sql, [node, eng.call(T.PrintOptions, [], {"mode": mode})])
        except PyRaise as p:
            raise Refuted(f"a {cls.__name__} is printed", repr(p.exc))
        items = phrase.tokens(eng, s, trips.phrase_of, f"the text of a {cls.__name__}")
        parts = [eng.norm(l.value) for l in phrase.all_leaves(items)]
        contents = [c for t in toks(items) for c in [content(eng, t)] if c is not None]
        eng.prove(True, "nothing unknown is printed but in quotes, as a number or as a part")
        for where, v in strings(eng, node, parts):
            eng.prove(any(c is v or common.same(eng, c, v) for c in contents), f"{where[1:]} is a quoted token", f"{v!r} in {s!r}")
    return harness


def helper(f, q):
    """ensures: the text in quotes q, in which every q is doubled"""
    def harness(eng):
        v = eng.str_("text")
        eng.start()
        got = eng.call(f, [v])
        want = SText([q, Fn("replace", v.pieces[0], q, q + q), q])
        eng.prove(common.same(eng, got, want), "the text in quotes, with its quotes doubled", f"{got!r} for {want!r}")
    return harness


def chained(eng):
    """ensures: the quoted names that aren't None, with the separator in between"""
    vs = [eng.str_("name", nonempty=True) if eng.choose(2, (i, ["str", "None"])) == 0 else None for i in range(4)]
    sep = [".", ","][eng.choose(2, ("separator", [".", ","]))]
    eng.start()
    got = eng.call(util.chain_identifiers, vs, {"join_string": sep} if sep != "." else {})
    want = []
    for v in vs:
        if v is not None:
            want += ([sep] if want else []) + ['"', Fn("replace", v.pieces[0], '"', '""'), '"']
    eng.prove(common.same(eng, got, eng.norm(SText(want))), "the quoted names, with the separator in between", repr(got))


def token(ttype, *pieces):
    return grammar.Tok(ttype, SText(list(pieces)))


def read(rule, make):
    """What the conversion makes of one token is what the token denotes"""
    def harness(eng):
        v = eng.str_("text", nonempty=rule == "identifier")
        tok = make(v.pieces[0])
        want = v
        if isinstance(tok, grammar.Tok) and isinstance(tok.text, str):
            want = tok.text
        eng.start()
        try:
            got = phrase.reading(eng, rule, [tok])
        except PyRaise as p:
            raise Refuted("the token is accepted", repr(p.exc))
        eng.prove(common.same(eng, got, want), "what the token denotes", f"{got!r} for {want!r}")
    return harness


def read_unicode(escaped):
    """What the conversion makes of U&'..' is what its text, with each pair of quotes undone, denotes under its escape character"""
    def make():
        eng = trips.engine()
        f = getattr(convert, "decode_unicode_string", None)
        if f is not None:
            def decode(eng, args, kwargs):
                a = dict(zip(("string", "escape"), args), **kwargs)
                eng.decoded.append((a["string"], a["escape"], eng.str_("decoded")))
                return eng.decoded[-1][2]
            eng.contracts[f] = decode
        return eng

    def harness(eng):
        eng.decoded = []
        v, e = eng.str_("text"), eng.str_("escape", nonempty=True)
        toks = [token(LEXER.UNICODE_STRING, "U&'", Fn("replace", v.pieces[0], "'", "''"), "'")]
        if escaped:
            toks += [grammar.Tok(LEXER.UESCAPE, "UESCAPE"), token(LEXER.STRING, "'", Fn("replace", e.pieces[0], "'", "''"), "'")]
        eng.start()
        try:
            got = phrase.reading(eng, "string", toks)
        except PyRaise as p:
            raise Unsupported(f"not shown to be accepted: {p.exc!r}")
        if len(eng.decoded) != 1:
            raise Unsupported("the text is decoded in another way")
        text, escape, out = eng.decoded[0]
        if not common.same(eng, text, v) or not (common.same(eng, escape, e) if escaped else eng.truth(eng.eq(escape, "\\"))):
            # How the work is divided isn't part of the contract: the bounded part decides
            raise Unsupported(f"something else is decoded: {text!r} with {escape!r}")
        eng.prove(True, "what's decoded is the text between the quotes, with pairs of quotes undone")
        eng.prove(True, "the escape character is the one given")
        eng.prove(common.same(eng, got, out), "what the token denotes", repr(got))
    return make, harness


def keywords():
    """The keywords that are names, in the spellings that the lexer knows"""
    out = []
    for name in phrase.SqlBaseParser.symbolicNames[1:]:
        for sp in (name, name.lower()):
            ts = phrase.lex(sp)
            if name.replace("_", "").isalpha() and len(ts) == 1 and ts[0].type != LEXER.IDENTIFIER and \
                    phrase.parse("identifier", [grammar.Tok(ts[0].type, ts[0].text)]):
                out.append(grammar.Tok(ts[0].type, ts[0].text))
    return out


def jobs():
    js = []

    def add(cls, name, **fields):
        for mode in (T.PrintMode.DEFAULT, T.PrintMode.PRETTY):
            js.append((f"names and strings of {name} ({mode.name})", f"{cls.__module__}.{cls.__qualname__}.sql", p03.engine, quoted(cls, mode, **fields), 120))
    p02.each_class(add)
    p01.each_class(add)
    js.append(("quote_identifier", "treeno.util.quote_identifier", trips.engine, helper(util.quote_identifier, '"')))
    js.append(("quote_literal", "treeno.util.quote_literal", trips.engine, helper(util.quote_literal, "'")))
    js.append(("chain_identifiers", "treeno.util.chain_identifiers", trips.engine, chained))
    dq = lambda v: token(LEXER.QUOTED_IDENTIFIER, '"', Fn("replace", v, '"', '""'), '"')
    sq = lambda v: token(LEXER.STRING, "'", Fn("replace", v, "'", "''"), "'")
    js.append(("a quoted name is read", "ConvertVisitor.visitQuotedIdentifier", trips.engine, read("identifier", dq)))
    js.append(("a plain name is read", "ConvertVisitor.visitUnquotedIdentifier", trips.engine, read("identifier", lambda v: token(LEXER.IDENTIFIER, v))))
    js.append(("a string is read", "ConvertVisitor.visitBasicStringLiteral", trips.engine, read("string", sq)))
    for escaped in (False, True):
        js.append((f"a unicode string is read{' with its escape character' if escaped else ''}", "ConvertVisitor.visitUnicodeStringLiteral",
                   *read_unicode(escaped)))
    for k in keywords():
        js.append((f"{k.text} as a name is read", "ConvertVisitor.visitUnquotedIdentifier", trips.engine, read("identifier", lambda v, k=k: k)))
    return js
