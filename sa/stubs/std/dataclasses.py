class Field:
    def __init__(self, default, default_factory):
        self.default, self.default_factory = default, default_factory

    def make(self):
        if self.default_factory is not None:
            return self.default_factory()
        return self.default[0]


def field(default=None, default_factory=None, init=True, repr=True, compare=True, hash=None, metadata=None, kw_only=False, **kw):
    return Field([default], default_factory)
