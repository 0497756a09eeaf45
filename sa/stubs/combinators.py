"""A recording stand-in for the parser combinator library: evaluating a grammar with it yields the grammar as data."""


class El:
    def __init__(self, kind, args, name=None, action=None, key=None):
        self.kind, self.args, self.parser_name, self.action, self.key = kind, args, name, action, key

    def __add__(self, other):
        return El('and', [self, other])

    def __radd__(self, other):
        return El('and', [other, self])

    def __and__(self, other):
        return El('all', [self, other])

    def __or__(self, other):
        return El('first', [self, other])

    def __ror__(self, other):
        return El('first', [other, self])

    def __xor__(self, other):
        return El('longest', [self, other])

    def __truediv__(self, action):
        return El('act', [self], self.parser_name, action)

    def __invert__(self):
        return El('not', [self])

    def __lshift__(self, other):
        self.args = [other]
        return self

    def __getitem__(self, item):
        return El('many', [self])

    def __call__(self, key):
        return El('key', [self], self.parser_name, None, key)

    def __regex__(self):
        return ('+', pattern(self))

    def parse_string(self, text, parse_all=False):
        PARSED.append((self, text, parse_all))
        return TREE[0]

    def finalize(self):
        return self

    def set_parser_name(self, name):
        self.parser_name = name
        return self

    def suppress(self):
        return El('suppress', [self], self.parser_name)

    def add_parse_action(self, action):
        return El('act', [self], self.parser_name, action)


class Engine:
    def __init__(self, *args):
        self.ignored = []

    def __enter__(self):
        ENGINES.append(self)
        return self

    def __exit__(self, *args):
        return None

    def add_ignore(self, e):
        self.ignored.append(e)


ENGINES = []
PARSED = []
TREE = [None]
CALLS = []
NO_WHITESPACE = Engine()
LEFT_ASSOC = 'left'
RIGHT_ASSOC = 'right'
restOfLine = El('rest', [])
ParserElement = El


def Whitespace(*args):
    return Engine()


def Literal(x):
    return El('literal', [x])


def Keyword(x, caseless=False):
    return El('keyword', [x])


def CaselessLiteral(x):
    return El('literal', [x])


class Config:
    def __init__(self, include):
        self.include = include


class Expr:
    def __init__(self, include):
        self.parser_config = Config(include)


def Regex(x):
    e = El('regex', [x])
    if x.startswith('[') and x.endswith(']'):
        e.expr = Expr(members(x[1:-1]))
    return e


def members(x):
    acc = ''
    i = 0
    while i < len(x):
        if i + 2 < len(x) and x[i + 1] == '-':
            for c in range(ord(x[i]), ord(x[i + 2]) + 1):
                acc += chr(c)
            i += 3
        else:
            acc += x[i]
            i += 1
    return acc


def pattern(e):
    if e.kind == 'char':
        return '[' + ''.join(['\\' + c if c in '\\]^-[' else c for c in e.args[0]]) + ']'
    if e.kind == 'regex':
        return e.args[0]
    if e.kind == 'and':
        return ''.join([pattern(a) for a in e.args])
    if e.kind == 'first':
        return '(?:' + '|'.join([pattern(a) for a in e.args]) + ')'
    if e.kind == 'many':
        return '(?:' + pattern(e.args[0]) + ')*'
    raise Exception('no pattern for ' + e.kind)


def Char(x):
    return El('char', [x])


def Word(*x):
    return El('word', list(x))


def And(xs):
    return El('and', list(xs))


def MatchFirst(xs):
    return El('first', list(xs))


def Or(xs):
    return El('longest', list(xs))


class Group(El):
    def __init__(self, x):
        El.__init__(self, 'group', [x])


def Optional(x, **kw):
    return El('optional', [x])


def ZeroOrMore(x, **kw):
    return El('many', [x])


def OneOrMore(x, **kw):
    return El('many', [x])


def Combine(x, **kw):
    return El('combine', [x])


def Suppress(x):
    return El('suppress', [x])


def SkipTo(x, **kw):
    return El('skip', [x])


class Forward(El):
    def __init__(self, x=None):
        El.__init__(self, 'forward', [])


def delimited_list(x, separator=',', combine=False, **kw):
    return El('list', [x, separator])


def infix_notation(base, spec):
    e = El('infix', [base, spec])
    CALLS.append(e)
    return e


from imports import export


class ParseResults:
    def __init__(self, type, start, end, tokens, failures):
        self.type, self.start, self.end, self.tokens, self.failures = type, start, end, tokens, failures

    def __contains__(self, k):
        return False

    def __getitem__(self, i):
        if isinstance(i, str):
            return None
        t = self.tokens[i]
        return t.text if isinstance(t, Leaf) else t

    def __iter__(self):
        return iter([t.text if isinstance(t, Leaf) else t for t in self.tokens])

    def length(self):
        return len(self.tokens)

    def __eq__(self, other):
        if other is None:
            return not self.tokens
        if isinstance(other, str):
            return "".join([str(t) for t in self]) == other
        if len(self.tokens) == 1:
            return self[0] == other
        return False

    def items(self):
        return []

    def keys(self):
        return []

    def __len__(self):
        return len(self.tokens)


class Leaf:
    """a token and the element that matched it"""
    def __init__(self, text, type):
        self.text, self.type = text, type


class ParseException(Exception):
    pass


def listwrap(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return x
    return [x]


def is_number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def Dict(x):
    return El('dict', [x])


class Named:
    """tokens that are reached by their labels"""
    def __init__(self, named):
        self.named, self.type, self.start, self.end, self.failures = named, None, 0, 0, []

    def __getitem__(self, k):
        return self.named.get(k)

    def items(self):
        return self.named.items()

    def keys(self):
        return self.named.keys()
