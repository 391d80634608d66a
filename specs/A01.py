"""A01: setters accept exactly the valid values, store them, and reject without side effect."""
import prog, attrs, setters
from check import Goal
import V01

GLOBS = prog.CORE + prog.EXT
DRIVER = 'A01|(setter: .*|crash|unexpected exception)'


def goals(p, tier):
    out = []
    for c in attrs.classes():
        for g in setters.setters_of(p, c):
            out.append(Goal(g.name, lambda pr, g=g: setters.run_setter(pr, g), keep='A01|'))
    names = {}
    for g in out:
        n = names[g.name] = names.get(g.name, 0) + 1
        if n > 1: g.name += '#%d' % n
    return out
