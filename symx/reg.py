"""Harness registry."""
REG = {}


class H:
    def __init__(self, pid, name, fn, cases, opts):
        self.pid, self.name, self.fn, self.cases, self.opts = pid, name, fn, cases, opts

    def get_cases(self, tier):
        c = self.cases
        if callable(c):
            c = c(tier)
        return list(c) if c else [{}]


def harness(pid, cases=None, **opts):
    def deco(f):
        REG.setdefault(pid, []).append(H(pid, f.__name__, f, cases, opts))
        return f
    return deco
