"""Concrete mode of a harness: inputs come from a counterexample; nothing is
patched.  Used to replay a counterexample on the real code."""


class Violated(BaseException):
    pass


class NotApplicable(BaseException):
    """An assumption of the harness does not hold on the replayed input."""


class ConcreteCtx:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failures = []

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else 0
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise NotApplicable(name)
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, n):
        return self.int(name, 0, n - 1)

    def assume(self, cond):
        if not cond:
            raise NotApplicable("assume")

    def check(self, cond, msg):
        if not cond:
            self.failures.append(msg)
            raise Violated(msg)

    check_now = check

    def fail(self, msg):
        self.check(False, msg)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def concrete(self, x):
        return x

    def known(self, x):
        return x

    def must(self, cond):
        return bool(cond)

    def note(self, key):
        pass
