"""The grammar of the library (SqlBase.g4), and all derivations of a sentential form: a sequence of tokens and of phrases of which
only the rule is known. Derivations are listed in the order in which ANTLR's adaptive prediction prefers them (first alternative,
longest repetition), with left recursion as ANTLR transforms it (precedence climbing, left associative)."""
import os
import re
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
_TOKEN = re.compile(r"//[^\n]*|/\*.*?\*/|'(?:[^'\\]|\\.)*'|\[(?:[^\]\\]|\\.)*\]|\+=|->|[A-Za-z_][A-Za-z_0-9]*|\$|[:;|()?*+=#~.{}<>,@]|\S", re.S)


class El:
    """tok, rule, seq, alt, opt, star or plus"""
    __slots__ = ("kind", "arg", "label", "add", "name")

    def __init__(self, kind, arg, label=None, add=False):
        self.kind, self.arg, self.label, self.add, self.name = kind, arg, label, add, None

    def __repr__(self):
        return f"{self.label + '=' if self.label else ''}{self.kind}({self.arg!r})"


class Rule:
    def __init__(self, name, alts):
        self.name, self.alts = name, alts  # [(label, El seq)]
        self.primary, self.tails = [], []
        n = len(alts)
        first = lambda s: s.arg[0] if s.arg else None
        self.recursive = any(first(s) is not None and first(s).kind == "rule" and first(s).arg == name for _, s in alts)
        for i, (label, s) in enumerate(alts):
            prec = n - i
            if not self.recursive:
                self.primary.append((label, s, 0))
            elif s.arg and first(s).kind == "rule" and first(s).arg == name:
                rest = list(s.arg[1:])
                operand = {}
                if rest and rest[-1].kind == "rule" and rest[-1].arg == name:
                    operand[id(rest[-1])] = prec + 1
                self.tails.append((label, first(s), rest, prec, operand))
            else:
                operand = {}
                if s.arg and s.arg[-1].kind == "rule" and s.arg[-1].arg == name:
                    operand[id(s.arg[-1])] = prec
                self.primary.append((label, s, operand))


def read(path):
    text = open(path, encoding="utf-8").read()
    toks = [m.group(0) for m in _TOKEN.finditer(text) if not m.group(0).startswith(("//", "/*"))]
    rules, i = {}, 0
    while i < len(toks):
        t = toks[i]
        if re.fullmatch(r"[a-z]\w*", t) and t not in ("grammar", "tokens", "fragment", "lexer", "parser", "options", "import"):
            name = t
            i += 1
            while toks[i] != ":":
                i += 1
            i += 1
            alts, i = _alternatives(toks, i, ";")
            rules[name] = Rule(name, alts)
            i += 1
        else:
            # A lexer rule or a declaration
            end = "}" if t in ("tokens", "options") else ";"
            while toks[i] != end:
                i += 1
            i += 1
    return rules


def _alternatives(toks, i, end):
    alts = []
    while True:
        seq, i = _sequence(toks, i, ("|", "#", end))
        label = None
        if toks[i] == "#":
            label = toks[i + 1]
            i += 2
        alts.append((label, El("seq", seq)))
        if toks[i] == end:
            return alts, i
        i += 1


def _sequence(toks, i, ends):
    out = []
    while toks[i] not in ends:
        label = add = None
        if toks[i + 1] in ("=", "+=") and re.match(r"\w", toks[i]):
            label, add = toks[i], toks[i + 1] == "+="
            i += 2
        t = toks[i]
        if t == "(":
            alts, i = _alternatives(toks, i + 1, ")")
            el = El("alt", [s for _, s in alts]) if len(alts) > 1 else alts[0][1]
            i += 1
        else:
            el = El("rule" if re.match(r"[a-z]", t) else "tok", t)
            i += 1
            if i < len(toks) and toks[i].startswith("["):
                i += 1
        if label:
            el.label, el.add = label, add
        if toks[i] in ("?", "*", "+"):
            el = El({"?": "opt", "*": "star", "+": "plus"}[toks[i]], el)
            i += 1
        out.append(el)
    return out, i


class Tok:
    """A token of which the kind is known; the text may be symbolic"""

    def __init__(self, type_, text, source=None):
        self.type, self.text, self.source = type_, text, source

    def __repr__(self):
        return f"{self.text!r}"


class Leaf:
    """A phrase derived from a rule (with the precedence of its outermost operator), which stands for a value"""

    def __init__(self, rule, prec, value):
        self.rule, self.prec, self.value = rule, prec, value

    def __repr__(self):
        return f"<{self.rule}[{self.prec}] {self.value!r}>"


class Several:
    """A repetition: any number of phrases, all alike, with a separator in between (its token type, or None)"""

    def __init__(self, base, sep, items):
        self.base, self.sep, self.items = base, sep, items

    def __repr__(self):
        return f"{self.items}*{self.base}"


class Node:
    def __init__(self, rule, label, items):
        self.rule, self.label, self.items = rule, label, items  # items: [(element label, add, child)]

    def __repr__(self):
        return f"{self.label or self.rule}({', '.join(repr(c) for _, _, c in self.items)})"


class Group:
    """The phrases of a repetition in a tree: items for the arbitrary element (and the separator)"""

    def __init__(self, several, items):
        self.several, self.items = several, items


class Grammar:
    def __init__(self, parser=None, path=None):
        self.rules = read(path or os.path.join(REPO, "treeno", "grammar", "SqlBase.g4"))
        self.parser = parser
        if parser is not None:
            self.types = {}
            for i, n in enumerate(parser.literalNames):
                if n != "<INVALID>":
                    self.types[n] = i
            for i, n in enumerate(parser.symbolicNames):
                if n != "<INVALID>":
                    self.types[n] = i
            self.types["EOF"] = -1

    def token_type(self, t):
        return self.types[t]

    def derivations(self, rule, items, limit=3, prec=0):
        """The first derivations of the items from the rule, in order of preference"""
        out = []
        for end, node in Parse(self, items).rule(rule, prec, 0):
            if end == len(items):
                out.append(node)
                if len(out) >= limit:
                    break
        return out


class Parse:
    def __init__(self, grammar, items):
        self.g, self.items, self.memo = grammar, items, {}

    # Everything gives [(end, ...)] in order of preference
    def rule(self, name, prec, pos):
        r = self.g.rules[name]
        key = (name, prec if r.recursive else 0, pos)
        if key not in self.memo:
            self.memo[key] = []  # nothing is left recursive otherwise
            self.memo[key] = self._unique(self._rule(r, prec, pos))
        return self.memo[key]

    def _unique(self, results):
        """For each end, the preferred derivation (what follows doesn't depend on which it is), and one more if there's another"""
        out, seen = [], {}
        for end, node in results:
            if seen.get(end, 0) < 2:
                seen[end] = seen.get(end, 0) + 1
                out.append((end, node))
        return out

    def _rule(self, r, prec, pos):
        item = self.items[pos] if pos < len(self.items) else None
        starts = []
        if isinstance(item, Leaf) and item.rule == r.name:
            if not r.recursive:
                return [(pos + 1, item)]
            if item.prec >= prec:
                starts.append((pos + 1, item, item.prec))
        for label, s, operand in r.primary:
            for end, items in self.sequence(s.arg, pos, operand or {}):
                starts.append((end, Node(r.name, label, items), None))
        if not r.recursive:
            return [(e, n) for e, n, _ in starts]
        out = []
        for end, node, p in starts:
            out += self._tails(r, prec, end, node, p)
        return out

    def _tails(self, r, prec, pos, node, inner):
        """inner: the precedence of the phrase so far if it's a leaf: what binds tighter than that would have become part of it"""
        out = []
        for label, first, rest, p, operand in r.tails:
            if p < prec or (inner is not None and p > inner):
                continue
            for end, items in self.sequence(rest, pos, operand):
                out += self._tails(r, prec, end, Node(r.name, label, [(first.label, first.add, node)] + items), None)
        return out + [(pos, node)]

    def sequence(self, els, pos, operand, i=0):
        if i == len(els):
            return [(pos, [])]
        # A repetition of unknown length takes `x (sep x)*`, `x*` or `x+`
        out = []
        item = self.items[pos] if pos < len(self.items) else None
        if isinstance(item, Several):
            n = self._repetition(els, i, item)
            if n:
                for inner in self._element_phrases(els[i], item):
                    group = Group(item, inner)
                    for end, rest in self.sequence(els, pos + 1, operand, i + n):
                        out.append((end, [(None, False, group)] + rest))
        for end, items in self.element(els[i], pos, operand):
            for end2, rest in self.sequence(els, end, operand, i + 1):
                out.append((end2, items + rest))
        return out

    def _repetition(self, els, i, several):
        e = els[i]
        if several.sep is None:
            return 1 if e.kind in ("star", "plus") else 0
        if i + 1 < len(els) and els[i + 1].kind in ("star", "plus") and els[i + 1].arg.kind == "seq":
            s = els[i + 1].arg.arg
            if len(s) == 2 and s[0].kind == "tok" and self.g.token_type(s[0].arg) == several.sep and \
                    (s[1].kind, s[1].arg if s[1].kind != "seq" else None) == (e.kind, e.arg if e.kind != "seq" else None) and e.kind in ("rule", "tok"):
                return 2
        return 0

    def _element_phrases(self, e, several):
        if e.kind in ("star", "plus"):
            e = e.arg
        p = Parse(self.g, several.items)
        return [items for end, items in p.element(e, 0, {}) if end == len(several.items)][:2]

    def element(self, e, pos, operand):
        k = e.kind
        if k == "tok":
            if pos < len(self.items):
                t = self.items[pos]
                if isinstance(t, Tok) and t.type == self.g.token_type(e.arg):
                    return [(pos + 1, [(e.label, e.add, t)])]
            elif e.arg == "EOF":
                return [(pos, [])]
            return []
        if k == "rule":
            return [(end, [(e.label, e.add, node)]) for end, node in self.rule(e.arg, operand.get(id(e), 0), pos)]
        if k == "seq":
            return self.sequence(e.arg, pos, operand)
        if k == "alt":
            out = []
            for a in e.arg:
                for end, items in self.element(a, pos, operand):
                    if e.label:
                        items = [(e.label, e.add, items[0][2])] + items[1:]
                    out.append((end, items))
            return out
        if k == "opt":
            return self.element(e.arg, pos, operand) + [(pos, [])]
        if k in ("star", "plus"):
            out = []
            item = self.items[pos] if pos < len(self.items) else None
            if isinstance(item, Several) and item.sep is None:
                # The rest of a repetition
                for inner in self._element_phrases(e, item):
                    for end, rest in self.element(El("star", e.arg), pos + 1, operand):
                        out.append((end, [(None, False, Group(item, inner))] + rest))
            for end, items in self.element(e.arg, pos, operand):
                if end > pos:
                    for end2, rest in self.element(El("star", e.arg), end, operand):
                        out.append((end2, items + rest))
            if k == "plus":
                out += [(end, items) for end, items in self.element(e.arg, pos, operand)]
            else:
                out.append((pos, []))
            return out
        raise AssertionError(k)
