RULES = {}
DATAFLOW = 'abstract interpretation (provenance dataflow) over the Python syntax trees'


def register(prop, module, rule, explanation, assumptions=(), technique=DATAFLOW):
    RULES[prop] = {'module': module, 'rule': rule, 'explanation': explanation, 'assumptions': list(assumptions),
                   'technique': technique}


from . import catalogue  # noqa: E402,F401
