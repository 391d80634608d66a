"""V01: per-variant attributes are isolated between variants (contracts of every setter and observer)."""
import prog, attrs, setters
from check import Goal

GLOBS = prog.CORE + prog.EXT
DRIVER = ['A01|isolation: .*', 'V03|attributes of variant preserved']
KEEP = 'V01|'


def goals(p, tier):
    out = []
    for c in attrs.classes():
        for g in setters.setters_of(p, c):
            if KEEP == 'V01|' and not any(pv is True for _, _, pv in c.attrs) and g.pv is not True: continue
            out.append(Goal(g.name + ('(%s)' % g.ptype if False else ''), lambda pr, g=g: setters.run_setter(pr, g), keep=KEEP))
    names = {}
    for g in out:
        n = names[g.name] = names.get(g.name, 0) + 1
        if n > 1: g.name += '#%d' % n
    return out
