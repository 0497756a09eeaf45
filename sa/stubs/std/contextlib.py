class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, t, e, tb):
        self.thing.close()


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, t, e, tb):
        return None


class suppress:
    def __init__(self, *types):
        self.types = types

    def __enter__(self):
        return None

    def __exit__(self, t, e, tb):
        return t is not None and isinstance(e, self.types)


class ExitStack:
    def __init__(self):
        self.todo = []

    def __enter__(self):
        return self

    def callback(self, f, *a, **k):
        self.todo.append((None, f, a, k))
        return f

    def push(self, f):
        self.todo.append((f, None, (), {}))
        return f

    def enter_context(self, cm):
        r = cm.__enter__()
        self.todo.append((cm.__exit__, None, (), {}))
        return r

    def close(self):
        self.__exit__(None, None, None)

    def pop_all(self):
        s = ExitStack()
        s.todo, self.todo = self.todo, []
        return s

    def __exit__(self, t, e, tb):
        done = False
        for ex, f, a, k in reversed(self.todo):
            if ex is None:
                f(*a, **k)
            elif ex(t, e, tb):
                done, t, e, tb = True, None, None, None
        self.todo = []
        return done
