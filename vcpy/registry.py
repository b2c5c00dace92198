"""registry of loop invariants"""

INVARIANTS = {}  # (module, qualname) -> list of Invariant


class Invariant:

    def __init__(self, module, qualname, fn, names = (), lists = None, target = None, label = None, force = False):
        self.module, self.qualname, self.fn = module, qualname, fn
        self.names = tuple(names)
        self.lists = lists or {}
        self.target = target
        self.label = label or fn.__name__
        self.force = force


def invariant(module, qualname, names = (), lists = None, target = None, force = False):
    """decorator registering a loop invariant; fn(c, L) returns a list of (label, condition)"""

    def deco(fn):
        INVARIANTS.setdefault((module, qualname), []).append(
            Invariant(module, qualname, fn, names, lists, target, force = force))
        return fn

    return deco


def has_invariants(module, qualname):
    return (module, qualname) in INVARIANTS
