"""A stand-in for late exports between modules: an expected name is a table, filled when the table is exported."""

EXPECTED = []


def expect(*names):
    acc = []
    for n in names:
        t = {}
        EXPECTED.append(t)
        acc.append(t)
    return acc[0] if len(acc) == 1 else acc


def export(module, *values):
    for v in values:
        if isinstance(v, dict):
            for t in EXPECTED:
                t.update(v)


def delay_import(name):
    return name
