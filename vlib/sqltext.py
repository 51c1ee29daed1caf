"""An own reader for SQL tokens, independent of the grammar in the repository."""
import re

TOKEN = re.compile(r"""(?P<ws>\s+)|(?P<ident>"(?:[^"]|"")*")|(?P<str>(?:[UuXx]&?)?'(?:[^']|'')*')|(?P<num>(?:\d+\.?\d*|\.\d+)(?:E[+-]?\d+)?)|(?P<word>[A-Za-z_]\w*)|(?P<op>->|<>|!=|<=|>=|=>|\|\||.)""", re.S)


def tokens(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if m.lastgroup != "ws":
            out.append(m.group())
        pos = m.end()
    return out


def decode(token):
    if token[0] == '"':
        return token[1:-1].replace('""', '"')
    if token[0] == "'":
        return token[1:-1].replace("''", "'")
    return token
