"""Function names and argument positions against contracts/functions.py."""
import itertools
import os
import re
import subprocess
import sys
import attr
from vlib import T, gen, same, env, sqltext
from contracts import functions as F

ARGS = ["k1", "k2 + 1", "'s'", "t.k4", "LOWER(k5)"]


def cased(n):
    yield n
    yield n.lower()
    yield n.capitalize()
    yield "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(n))


def keyword(n):
    # The grammar has keywords in upper case and in lower case
    yield n
    yield n.lower()


def calls():
    for name in F.FUNCTIONS:
        for n, cls, attrs in F.overloads(name):
            for nm in cased(name):
                for args in (ARGS[:n], list(reversed(ARGS))[:n]):
                    yield nm, args, cls, attrs
                yield '"' + nm + '"', ARGS[:n], cls, attrs
        ns = {o[0] for o in F.overloads(name)}
        for n in range(0, max(ns) + 2):
            if n not in ns:
                yield name, (ARGS + ["k6", "k7"])[:n], None, None
    for name, (cls, a) in F.VARIADIC.items():
        for nm in cased(name):
            for n in (1, 2, 3, 4, 5):
                yield nm, ARGS[:n], cls, a
    for nm in ("", "SUMS", "SU", "NO_SUCH", "LISTAGG2", "AGGREGATE", "VALUE", "UNARY", "FUNCTION"):
        if nm:
            yield nm, ARGS[:1], None, None


def check_call(case):
    name, args, cls, attrs = case
    text = f"{name}({', '.join(args)})"
    try:
        e = T.expression_from_sql(text)
    except Exception as ex:
        if cls is None:
            return None
        return f"{text} raises {type(ex).__name__}: {ex}"
    if cls is None:
        return f"{text} is accepted as {same.describe(e)}"
    if type(e).__name__ != cls or type(e) is not getattr(T, cls):
        return f"{text} is {same.describe(e)}, expected {cls}"
    want = [T.expression_from_sql(a) for a in args]
    given = {}
    if isinstance(attrs, str):
        got = getattr(e, attrs)
        if len(got) != len(want) or any(same.diff(x, y) for x, y in zip(got, want)):
            return f"{text} has the arguments {same.describe(e)}"
        given[attrs] = 1
    else:
        for a, w in zip(attrs, want):
            if same.diff(getattr(e, a), w):
                return f"{text}: {a} is {same.describe(getattr(e, a))}, expected {same.describe(w)}"
            given[a] = 1
    for f in attr.fields(type(e)):
        if f.name not in given and f.name != "data_type" and f.init:
            d = f.default
            if isinstance(d, attr.Factory):
                d = d.factory()
            if getattr(e, f.name) is not d and getattr(e, f.name) != d:
                return f"{text}: {f.name} is {getattr(e, f.name)!r}, without being an argument"
    # the same as what the class builds from the arguments itself
    built = type(e).from_args(*want)
    if same.diff(built, e):
        return f"{text}: {cls}.from_args builds {same.describe(built)}"
    # printed with the same name and arguments
    fn = name.strip('"').upper()
    out = e.sql(T.PrintOptions())
    inner = ",".join(w.sql(T.PrintOptions()) for w in want)
    if cls == "Concatenate":
        pass
    if sqltext.tokens(out) != sqltext.tokens(f"{fn}({inner})"):
        return f"{text} is printed as {out}"


def keyword_args():
    """Constructors with keywords, printed and read back, so that every attribute has its own position"""
    for name in F.FUNCTIONS:
        for n, cls, attrs in F.overloads(name):
            yield name, cls, attrs
    for name in F.SPECIAL:
        yield name, F.SPECIAL[name][0], None


def check_keywords(case):
    name, cls, attrs = case
    c = getattr(T, cls)
    if attrs is None:
        x = c()
        for nm in keyword(name):
            e = T.expression_from_sql(nm)
            if type(e) is not c:
                return f"{nm} is {same.describe(e)}"
        if str(x) != name:
            return f"{cls}() is printed as {x}"
        if F.SPECIAL[name][1]:
            for p in range(13):
                for nm in keyword(name):
                    e = T.expression_from_sql(f"{nm}({p})")
                    if type(e) is not c or e.precision != p:
                        return f"{nm}({p}) is {same.describe(e)}"
                out = str(c(precision=p))
                if T.expression_from_sql(out).precision != p:
                    return f"{cls}(precision={p}) is printed as {out}"
        return None
    ops = [T.Field(f"arg_{a}") for a in attrs]
    x = c(**dict(zip(attrs, ops)))
    out = x.sql(T.PrintOptions())
    want = f"{name}({','.join(str(o) for o in ops)})"
    if sqltext.tokens(out) != sqltext.tokens(want):
        return f"{cls}({', '.join(attrs)}) is printed as {out}, expected {want}"
    back = T.expression_from_sql(out)
    if same.diff(back, x):
        return f"{out} is read back as {same.describe(back)}"


def registry(_):
    reg = {n: c for n, c in T.NAMES_TO_FUNCTIONS.items() if c.__module__.startswith("treeno.")}
    want = {**{n: F.overloads(n)[0][1] for n in F.FUNCTIONS}, **{n: c for n, (c, a) in F.VARIADIC.items()}, **{n: c for n, (c, p) in F.SPECIAL.items()}, **F.OTHER}
    for n in sorted(set(want) | set(reg)):
        if n not in reg:
            return f"{n} isn't registered"
        if n in want and reg[n].__name__ != want[n]:
            return f"{n} is registered as {reg[n].__name__}"
        if T.FUNCTIONS_TO_NAMES.get(reg[n]) != n:
            return f"{reg[n].__name__} is printed as {T.FUNCTIONS_TO_NAMES.get(reg[n])}, but registered as {n}"
    return None


def listagg():
    for nm in keyword("LISTAGG"):
        for sep, over, order in itertools.product([None, "';'", "','"], [None, "ERROR", "TRUNCATE WITH COUNT", "TRUNCATE '..' WITH COUNT", "TRUNCATE '..' WITHOUT COUNT"],
                                                  ["o", "o DESC", "o, p DESC NULLS FIRST"]):
            if over and not sep:
                continue
            yield nm, sep, over, order


def check_listagg(case):
    nm, sep, over, order = case
    text = f"{nm}(x{', ' + sep if sep else ''}{' ON OVERFLOW ' + over if over else ''}) WITHIN GROUP (ORDER BY {order})"
    e = T.expression_from_sql(text)
    if type(e) is not T.ListAgg or same.diff(e.value, T.Field("x")):
        return f"{text} is {same.describe(e)}"
    # Trino's documentation: without a separator there's none; treeno's node has the one it was given
    if sep and e.separator != sep[1:-1]:
        return f"{text} has the separator {e.separator!r}"
    of = e.overflow_filler
    if over in (None, "ERROR"):
        if of is not None:
            return f"{text} has the overflow filler {of!r}"
    else:
        filler = ".." if "'..'" in over else T.OverflowFiller.DEFAULT_FILLER
        count = T.CountIndication.WITHOUT_COUNT if "WITHOUT" in over else T.CountIndication.WITH_COUNT
        if of is None or of.filler != filler or of.count_indication is not count:
            return f"{text} has the overflow filler {of!r}"
    terms = {"o": [("o", "ASC", "LAST")], "o DESC": [("o", "DESC", "LAST")], "o, p DESC NULLS FIRST": [("o", "ASC", "LAST"), ("p", "DESC", "FIRST")]}[order]
    if [(t.value.name, t.order_type.name, t.null_order.name) for t in e.orderby] != terms:
        return f"{text} has the order {e.orderby!r}"


def normalize(_):
    for nm in keyword("NORMALIZE"):
        for nf in [None, "NFD", "NFC", "NFKD", "NFKC"]:
            text = f"{nm}(x{', ' + nf if nf else ''})"
            e = T.expression_from_sql(text)
            if type(e) is not T.Normalize or same.diff(e.string, T.Field("x")) or (e.normal_form and e.normal_form.name) != nf:
                return f"{text} is {same.describe(e)}"
    return None


def aggregates():
    for name in F.AGGREGATES:
        n, cls, attrs = F.overloads(name)[0]
        for order, flt, nulls, over in itertools.product([None, "o DESC"], [None, "f > 1"], [None, "IGNORE NULLS", "RESPECT NULLS"],
                                                         [None, "w", "(PARTITION BY p ORDER BY q)"]):
            if nulls and not over:
                continue
            yield name, cls, attrs, n, order, flt, nulls, over


def check_aggregate(case):
    name, cls, attrs, n, order, flt, nulls, over = case
    text = f"{name.lower()}({', '.join(ARGS[:n])}{' ORDER BY ' + order if order else ''})"
    text += (f" FILTER (WHERE {flt})" if flt else "") + (f" {nulls}" if nulls else "") + (f" OVER {over}" if over else "")
    try:
        e = T.expression_from_sql(text)
    except Exception as ex:
        return f"{text} raises {type(ex).__name__}: {ex}"
    if type(e).__name__ != cls:
        return f"{text} is {same.describe(e)}"
    for a, w in zip(attrs, ARGS):
        if same.diff(getattr(e, a), T.expression_from_sql(w)):
            return f"{text}: {a} is {same.describe(getattr(e, a))}"
    if (e.orderby is None) != (order is None) or order and (e.orderby[0].order_type is not T.OrderType.DESC or e.orderby[0].value.name != "o"):
        return f"{text} has the order {e.orderby!r}"
    if (e.filter_ is None) != (flt is None) or flt and same.diff(e.filter_, T.expression_from_sql(flt)):
        return f"{text} has the filter {e.filter_!r}"
    if e.null_treatment is not (T.NullTreatment.IGNORE if nulls == "IGNORE NULLS" else T.NullTreatment.RESPECT):
        return f"{text} has the null treatment {e.null_treatment!r}"
    want = None if over is None else T.Window(parent_window="w") if over == "w" else T.Window(orderby=[T.OrderTerm(T.Field("q"))], partitions=[T.Field("p")])
    if (e.window is None) != (want is None) or want is not None and same.diff(e.window, want):
        return f"{text} has the window {e.window!r}"


IMPORTS = ["from treeno.builder.convert import expression_from_sql",
           "import treeno.functions.string\nfrom treeno.builder.convert import expression_from_sql",
           "import treeno.functions.base\nimport treeno.functions.datetime\nfrom treeno.builder.convert import expression_from_sql",
           "import treeno\nimport treeno.expression, treeno.relation\nfrom treeno.builder.convert import expression_from_sql",
           "from treeno.builder.convert import query_from_sql, expression_from_sql\nimport treeno.functions.aggregate",
           "import treeno.functions.math, treeno.functions.session, treeno.functions.conditional\nfrom treeno.builder import convert\nexpression_from_sql = convert.expression_from_sql"]


def imports():
    yield from IMPORTS


def check_imports(prefix):
    names = [n + "(" + ",".join("abc"[i] for i in range(F.overloads(n)[0][0])) + ")" for n in F.FUNCTIONS] + ["COALESCE(a,b)", "CONCAT(a,b)"] + list(F.SPECIAL)
    want = [F.overloads(n)[0][1] for n in F.FUNCTIONS] + ["Coalesce", "Concatenate"] + [F.SPECIAL[n][0] for n in F.SPECIAL]
    code = f"""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {env.REPO!r}); sys.path.append({env.SITE!r})
{prefix}
for n, w in zip({names!r}, {want!r}):
    for t in (n, n.lower()):
        try:
            r = type(expression_from_sql(t)).__name__
        except Exception as ex:
            print(t, 'raises', type(ex).__name__, ex)
            sys.exit(3)
        if r != w:
            print(t, 'is', r)
            sys.exit(3)
"""
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env={k: v for k, v in os.environ.items() if k != "PYTHONPATH"})
    if p.returncode:
        return f"after {prefix!r}: {(p.stdout + p.stderr[-800:]).strip()}"


def bounded(rep, tier, seed):
    rep.cases("calls in SQL", calls, check_call)
    rep.cases("constructors by keyword", keyword_args, check_keywords)
    rep.cases("registry", lambda: iter([0]), registry)
    rep.cases("LISTAGG", listagg, check_listagg)
    rep.cases("NORMALIZE", lambda: iter([0]), normalize)
    rep.cases("clauses of aggregates", aggregates, check_aggregate)
    rep.cases("import orders", imports, check_imports)

