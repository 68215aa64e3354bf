"""What contracts are written with."""
REGISTRY = {}


class Contract:
    def __init__(self, name, fn, doc, bounded, budget, timeout_ms, max_paths, max_depth, covers):
        self.name, self.fn, self.doc, self.bounded = name, fn, doc, bounded
        self.budget, self.timeout_ms, self.max_paths, self.max_depth = budget, timeout_ms, max_paths, max_depth
        self.covers = covers


def contract(prop, name=None, bounded=None, budget=60.0, timeout_ms=8000, max_paths=20000, max_depth=400, covers=()):
    """Registers fn(ctx): it builds symbolic inputs that satisfy the precondition, calls the real function and states
    the postconditions with ctx.prove.  `bounded` is the stated bound when the contract is not unbounded."""
    def d(fn):
        n = name or fn.__name__
        REGISTRY.setdefault(prop, {})[n] = Contract(n, fn, " ".join((fn.__doc__ or "").split()), bounded, budget, timeout_ms, max_paths, max_depth, covers)
        return fn
    return d
