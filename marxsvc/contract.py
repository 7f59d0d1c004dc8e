"""Registry of contracts.  A contract is a function of a context that builds
arbitrary inputs, states preconditions (requires), runs the real code of /repo
and states postconditions (ensure)."""

CONTRACTS = []


class Contract(object):
    def __init__(self, prop, name, fn, kw):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.max_paths = kw.get('max_paths', 300)
        self.trials = kw.get('trials', 40)
        self.conc_s = kw.get('conc_s', 4.0)
        self.bounded = kw.get('bounded', None)      # text: why/what bound
        self.sizes = kw.get('sizes', None)          # text: sizes of collections enumerated (all values arbitrary)
        self.timeout = kw.get('timeout', 20.0)
        self.expect_fail = kw.get('known', ())
        self.assumes = kw.get('assumes', ())
        self.conc = kw.get('conc', True)
        self.doc = (fn.__doc__ or '').strip()


def contract(prop, name=None, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(prop, name or fn.__name__, fn, kw))
        return fn
    return deco
