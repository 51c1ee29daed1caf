"""Reads treeno/grammar/SqlBase.g4: rules, labelled alternatives and token texts; and makes random sentences of a rule."""
import os
import random
import re

from vlib import env

PATH = os.path.join(env.REPO, "treeno", "grammar", "SqlBase.g4")
TOKEN = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<str>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>\+=|->|\.\.|[:;|()*+?=~.#{}@<>,$-])""", re.S)


class E:
    """kind: tok, rule, seq, alt, opt, star, plus; label: x in x=..., list_label for x+=..."""

    def __init__(self, kind, value, label=None, list_label=False):
        self.kind, self.value, self.label, self.list_label = kind, value, label, list_label

    def __repr__(self):
        return f"{self.label + '=' if self.label else ''}{self.kind}({self.value!r})"


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        assert m, text[pos:pos + 40]
        pos = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def alternatives(self):
        alts = [self.sequence()]
        while self.peek()[1] == "|" and self.peek()[0] == "op":
            self.next()
            alts.append(self.sequence())
        return alts

    def sequence(self):
        out, label = [], None
        while True:
            k, v = self.peek()
            if k == "op" and v in "|);" or k == "eof":
                break
            if k == "op" and v == "#":
                self.next()
                label = self.next()[1]
                continue
            if k == "op" and v == "->":  # channel(HIDDEN)
                while self.peek()[1] not in ("|", ";"):
                    self.next()
                continue
            out.append(self.element())
        return (label, E("seq", out))

    def element(self):
        label, lst = None, False
        if self.peek()[0] == "id" and self.peek(1)[1] in ("=", "+="):
            label = self.next()[1]
            lst = self.next()[1] == "+="
        k, v = self.next()
        if k == "op" and v == "(":
            alts = self.alternatives()
            assert self.next()[1] == ")"
            e = E("alt", [a for _, a in alts]) if len(alts) > 1 else alts[0][1]
        elif k == "op" and v == "~":
            e = E("not", self.element())
        elif k == "str":
            e = E("tok", v)
        elif k == "set":
            e = E("set", v)
        elif k == "op" and v == ".":
            e = E("any", v)
        else:
            assert k == "id", (k, v)
            e = E("tok" if v[0].isupper() else "rule", v)
            if self.peek()[0] == "set":
                self.next()  # the argument of a rule
        e.label, e.list_label = label, lst
        while self.peek()[0] == "op" and self.peek()[1] in "?*+":
            q = self.next()[1]
            e = E({"?": "opt", "*": "star", "+": "plus"}[q], e)
        return e


def load():
    text = open(PATH).read()
    text = re.sub(r"tokens\s*\{[^}]*\}", "", text)
    toks = tokens(text)
    p = Parser(toks)
    assert p.next()[1] == "grammar"
    p.next(), p.next()
    rules = {}
    while p.peek()[0] != "eof":
        k, name = p.next()
        if name == "fragment":
            k, name = p.next()
        if p.peek()[0] == "set":
            p.next()
        assert p.next()[1] == ":", name
        alts = p.alternatives()
        assert p.next()[1] == ";", name
        rules[name] = alts
    return rules


RULES = load()


def keyword(name):
    """The texts a token may have, or None for the ones with free content"""
    if name.startswith("'"):
        return [unquote(name)]
    out = []
    for _, seq in RULES[name]:
        if len(seq.value) != 1 or seq.value[0].kind != "tok" or not seq.value[0].value.startswith("'"):
            return None
        out.append(unquote(seq.value[0].value))
    return out


def unquote(s):
    return s[1:-1].replace("\\'", "'").replace("\\\\", "\\")


CONTENT = {
    "STRING": ["'x'", "'it''s'", "''", "'1'", "'2020-01-01'", "'--'", "'\\'", "'-1'", "'1.50'"],
    "UNICODE_STRING": ["U&'x'", "U&'\\0041b'", "U&'\\\\'", "U&'\\+01F600'", "U&'it''s'"],
    "BINARY_LITERAL": ["X'00'"],
    "INTEGER_VALUE": ["0", "1", "2", "3", "12", "38", "2147483648", "007"],
    "DECIMAL_VALUE": ["1.5", ".5", "10.", "0.50"],
    "DOUBLE_VALUE": ["1E3", "1.5E-7", ".5E+10", "1.E2"],
    "IDENTIFIER": ["a", "b", "c", "t", "u", "x1", "_y", "Zed", "sum", "Max", "varchar", "decimal", "integer", "True"],
    "DIGIT_IDENTIFIER": ["1a"],
    "QUOTED_IDENTIFIER": ['"q"', '"A b"', '"x""y"', '"select"', '"sum"', '"a.b"'],
    "BACKQUOTED_IDENTIFIER": ["`x`"],
    "EOF": [""],
}
# Constructs outside of what treeno supports are made only now and then
RARE = {"BACKQUOTED_IDENTIFIER", "DIGIT_IDENTIFIER", "BINARY_LITERAL", "QUESTION_MARK", "JSON_EXISTS", "JSON_VALUE", "JSON_QUERY", "JSON_OBJECT", "JSON_ARRAY",
        "MATCH_RECOGNIZE", "processingMode", "queryPeriod", "tableFunctionCall", "MEASURES", "PATTERN", "SUBSET", "DEFINE", "INITIAL", "SEEK", "AFTER", "FETCH", "comparisonQuantifier",
        "EXISTS", "GROUPING", "TRIM", "SUBSTRING", "EXTRACT", "POSITION", "timeZoneSpecifier", "RECURSIVE", "nonReserved", "'<'"}


class Sentences:
    """Random sentences of about a given number of tokens."""

    def __init__(self, seed, rare=0.01, lower=None):
        self.r = random.Random(seed)
        self.rare = rare
        self.cost = costs()
        self.lower = self.r.random() < 0.3 if lower is None else lower

    def make(self, rule, size):
        self.left = size
        out = []
        self.rule(rule, out)
        return join(out)

    def rule(self, name, out):
        labelled = RULES[name]
        if name == "primaryExpression" and (self.left <= 0 or self.r.random() < 0.35):
            labelled = [a for a in labelled if a[0] in ("columnReference", "numericLiteral", "stringLiteral", "columnReference")]
        if name in ("booleanExpression", "valueExpression", "queryTerm", "relation", "type_"):
            # left recursion
            base = [a for a in labelled if not (a[1].value[0].kind == "rule" and a[1].value[0].value == name)]
            if self.left <= 0 or self.r.random() < 0.7:
                labelled = base
        if self.left <= 0:
            least = min(ecost(a, self.cost) for _, a in labelled)
            labelled = [a for a in labelled if ecost(a[1], self.cost) <= least]
        self.alt([a for _, a in labelled], out)

    def mentions(self, e):
        if e.kind in ("tok", "rule"):
            return e.value in RARE
        if e.kind in ("opt", "star"):
            return False
        return any(map(self.mentions, e.value if isinstance(e.value, list) else [e.value]))

    def alt(self, alts, out):
        common = [a for a in alts if not self.mentions(a)]
        if common and self.r.random() > self.rare:
            alts = common
        self.emit(self.r.choice(alts), out)

    def emit(self, e, out):
        if e.kind == "seq":
            for x in e.value:
                self.emit(x, out)
        elif e.kind == "alt":
            self.alt(e.value, out)
        elif e.kind == "rule":
            self.rule(e.value, out)
        elif e.kind == "tok":
            self.left -= 1
            texts = CONTENT.get(e.value) or keyword(e.value)
            if e.value in CONTENT:
                out.append(self.r.choice(texts))
            elif len(texts) == 2 and texts[0].lower() == texts[1]:
                out.append(texts[self.lower])
            else:
                out.append(self.r.choice(texts))
        else:
            rare = self.mentions(e.value) or e.kind == "opt" and e.value.kind == "seq" and any(self.mentions(x) for x in e.value.value)
            n = 0
            if self.left > 0:
                if e.kind == "opt":
                    n = self.r.random() < (self.rare if rare else 0.35)
                else:
                    n = 0 if rare and self.r.random() > self.rare else self.r.choice([0, 0, 0, 1, 1, 2])
            if e.kind == "plus":
                n = max(n, 1)
            for _ in range(n):
                self.emit(e.value, out)


def ecost(e, cost):
    if e.kind == "rule":
        return cost.get(e.value, 10 ** 6) + 1
    if e.kind in ("opt", "star"):
        return 0
    if e.kind in ("seq", "plus"):
        return max([ecost(x, cost) for x in (e.value if isinstance(e.value, list) else [e.value])], default=0)
    if e.kind == "alt":
        return min(ecost(x, cost) for x in e.value)
    return 0


_costs = {}


def costs():
    """The least nesting depth of a sentence of each rule"""
    if not _costs:
        changed = True
        while changed:
            changed = False
            for name, alts in RULES.items():
                c = min(ecost(a, _costs) for _, a in alts)
                if c < _costs.get(name, 10 ** 6):
                    _costs[name] = c
                    changed = True
    return _costs


def join(toks):
    out = ""
    for t in toks:
        if not t:
            continue
        if out and (out[-1] not in "([." or t[0] == ".") and t[0] not in ")],.":
            out += " "
        elif out and (out[-1].isdigit() or t[0].isdigit()) and (t[0] == "." or out[-1] == "."):
            out += " "
        out += t
    return out
