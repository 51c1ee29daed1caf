"""Flat namespace with everything public of treeno."""
from vlib import env
for _name in env.MODULES:
    for _k, _v in vars(env.MOD[_name]).items():
        if not _k.startswith("__"):
            globals().setdefault(_k, _v)
import importlib as _importlib  # noqa
# Names which several modules define: the class, not an import alias
from treeno.builder.convert import expression_from_sql, query_from_sql, type_from_sql  # noqa
from treeno.datatypes import types as type_consts, builder as tb  # noqa
from treeno.functions.datetime import Date  # noqa
Variable = globals()["Lambda"].Variable


def node_classes():
    # Classes are found through subclassing and not through the registry of the library.
    seen, todo = [], [globals()["Sql"]]
    while todo:
        cls = todo.pop()
        for sub in cls.__subclasses__():
            if sub not in seen:
                seen.append(sub)
                todo.append(sub)
    out = [c for c in seen if c.__module__.startswith("treeno.") and not getattr(c, "__abstractmethods__", None)
           and globals()["ABC"] not in c.__bases__]
    return sorted(out, key=lambda c: (c.__module__, c.__qualname__))
