"""P20: searching an instrument by type finds exactly the matching elements."""
import itertools
import numpy as np
from marxsvc.contract import contract
from marxs.simulator import Parallel, Sequence
from marxs.simulator.simulator import BaseContainer


class A(object):
    def __init__(self, name='a', **kw):
        self.name = name

    def __call__(self, t):
        return t


class B(A):
    pass


class C(object):
    def __init__(self, **kw):
        pass

    def __call__(self, t):
        return t


class SubSequence(Sequence):
    pass


class Inner(Sequence):
    """a container of which only the contract of its search is known: it
    returns the elements found in it, whatever these are"""
    def __init__(self, found, **kw):
        super().__init__(elements=[], **kw)
        self.found = found
        self.calls = []

    def elements_of_class(self, cls, subclass_ok=False, stop_at_first=False):
        self.calls.append((cls, subclass_ok, stop_at_first))
        return list(self.found)


class InnerB(Inner):
    pass


def matches(e, cls, subclass_ok):
    return isinstance(e, cls) if subclass_ok else type(e) == cls


def spec(e, cls, sub, stop):
    """the property: each matching element once, depth first"""
    out = [e] if matches(e, cls, sub) else []
    if out and stop:
        return out
    for k in getattr(e, 'elements', []):
        out += spec(k, cls, sub, stop)
    return out


def same_objects(a, b):
    return isinstance(a, list) and len(a) == len(b) and all(x is y for x, y in zip(a, b))


KINDS = ['A', 'B', 'C', 'empty', 'one', 'two']


def child(k):
    if k == 'A':
        return A()
    if k == 'B':
        return B()
    if k == 'C':
        return C()
    f = {'empty': [], 'one': [object()], 'two': [object(), object()]}[k]
    return Inner(f)


@contract('P20', 'step', sizes='0 to 3 children of each kind')
def step(ctx):
    """Induction step: what is found is the container itself, if it matches,
    then, in order, the children that match and whatever the search of each
    child that is a container finds; the search is passed on as it was asked for."""
    n = ctx.choose('children', [0, 1, 2, 3])
    sub = ctx.choose('subclass_ok', [False, True])
    stop = ctx.choose('stop_at_first', [False, True])
    for kinds in itertools.product(KINDS, repeat=n):
        for cls in (A, B, Sequence, Inner):
            ch = [child(k) for k in kinds]
            for top in (Sequence, SubSequence):
                s = top(elements=ch)
                for c in ch:
                    if hasattr(c, 'calls'):
                        c.calls = []
                got = s.elements_of_class(cls, sub, stop) if n % 2 else s.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)
                want = [s] if matches(s, cls, sub) else []
                if not (want and stop):
                    for c in ch:
                        if hasattr(c, 'found'):
                            want += c.found
                        elif matches(c, cls, sub):
                            want += [c]
                ctx.ensure('exactly the matching elements, in order', same_objects(got, want))
                ctx.ensure('search passed on', all(x == (cls, sub, stop) for c in ch if hasattr(c, 'calls') for x in c.calls))
                ctx.ensure('container not changed', s.elements is ch and len(ch) == n)


def trees():
    """small instruments with every nesting of containers"""
    def par(cls, n):
        return Parallel(elem_class=cls, elem_pos=[np.eye(4)] * n)
    a, b, c = A(), B(), C()
    yield Sequence(elements=[])
    yield Sequence(elements=[a])
    yield Sequence(elements=[a, b, c, a])
    yield Sequence(elements=[Sequence(elements=[a, Sequence(elements=[b, c]), A()]), c, B()])
    yield SubSequence(elements=[Sequence(elements=[SubSequence(elements=[a])]), SubSequence(elements=[])])
    yield par(A, 3)
    yield Sequence(elements=[par(B, 2), Sequence(elements=[par(A, 2), b]), par(C, 1), a])
    yield Sequence(elements=[Sequence(elements=[Sequence(elements=[Sequence(elements=[b])])])])
    p = par(A, 1)
    p.elements = [par(B, 2), Sequence(elements=[par(A, 1)])]
    yield p
    yield Sequence(elements=[p, SubSequence(elements=[p.elements[0]])])


@contract('P20', 'instruments', sizes='10 instruments nested up to 4 deep')
def instruments(ctx):
    """The whole search on nested instruments."""
    sub = ctx.choose('subclass_ok', [False, True])
    stop = ctx.choose('stop_at_first', [False, True])
    for t in trees():
        for cls in (A, B, C, Sequence, SubSequence, Parallel, BaseContainer, int):
            got = t.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)
            ctx.ensure('exactly the matching elements', same_objects(got, spec(t, cls, sub, stop)))
            ctx.ensure('same in the next search', same_objects(t.elements_of_class(cls, sub, stop), got))
        ctx.ensure('exact match by default', same_objects(t.elements_of_class(A), spec(t, A, False, False)))


@contract('P20', 'first', sizes='0 to 3 children of each kind; 10 instruments')
def first(ctx):
    """The first step of an instrument that is or contains a match."""
    sub = ctx.choose('subclass_ok', [False, True])
    for n in range(4):
        for kinds in itertools.product(KINDS, repeat=n):
            ch = [child(k) for k in kinds]
            s = Sequence(elements=ch)
            for cls in (A, B):
                has = [bool(c.found) if hasattr(c, 'found') else matches(c, cls, sub) for c in ch]
                ctx.ensure('first step', s.first_of_class_top_level(cls, sub) == (has.index(True) if any(has) else None))
    for t in trees():
        for cls in (A, B, C, Sequence, SubSequence, Parallel, BaseContainer, int):
            has = [len(spec(c, cls, sub, False)) > 0 for c in t.elements]
            ctx.ensure('first step of an instrument', t.first_of_class_top_level(cls, subclass_ok=sub) == (has.index(True) if any(has) else None))
