"""Rational normal forms modulo a Groebner-style rewriting system.

This is the algebraic back end: an equation is discharged when the numerator of
the difference of its sides rewrites to zero with the rules implied by the
hypotheses (unit vectors, rotation matrices, squares of square roots, ...).
"""
from fractions import Fraction
from . import terms as tm
from .terms import T, ZERO, ONE

LIMIT = 60000


class TooBig(Exception):
    pass


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_atom(i):
    return {((i, 1),): Fraction(1)}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def m_div(a, b):
    """a / b or None"""
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v == 0:
            del d[i]
        else:
            d[i] = v
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 20 * LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_key(a):
    return frozenset(a.items())


def p_isconst(a):
    return not a or (len(a) == 1 and () in a)


def _deg(m):
    return sum(e for _, e in m)


def m_cmpkey(m):
    # graded lex for exact division
    return (_deg(m), m)


def p_exactdiv(a, b, limit=400):
    """exact quotient a / b or None (lex-leading-term division)"""
    if not a:
        return {}
    if p_isconst(b):
        return p_scale(a, 1 / b[()])
    if len(a) > limit * 10 or len(b) > limit:
        return None

    def lexkey(m):
        # pure lex order on exponent vectors (larger id = larger variable)
        return tuple(sorted(m, reverse=True))
    # order: compare as dict from largest id down
    import functools

    def cmp(x, y):
        i, j = len(x) - 1, len(y) - 1
        while i >= 0 and j >= 0:
            if x[i][0] != y[j][0]:
                return 1 if x[i][0] > y[j][0] else -1
            if x[i][1] != y[j][1]:
                return 1 if x[i][1] > y[j][1] else -1
            i -= 1
            j -= 1
        return (i > j) - (i < j)
    K = functools.cmp_to_key(cmp)
    lb = max(b, key=K)
    cb = b[lb]
    q = {}
    r = dict(a)
    steps = 0
    while r:
        lr = max(r, key=K)
        m = m_div(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = q.get(m, 0) + c
        for mb, c2 in b.items():
            mm = m_mul(mb, m)
            v = r.get(mm, 0) - c * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
        steps += 1
        if steps > 2000:
            return None
    return q


class Rules(object):
    """lead monomial -> polynomial, indexed by one atom of the lead."""

    def __init__(self):
        self.by = {}
        self.version = 0

    def add(self, lead, repl):
        i = lead[-1][0]
        L = self.by.setdefault(i, [])
        for l, r in L:
            if l == lead:
                return
        L.append((lead, repl))
        self.version += 1

    def find(self, m):
        for i, e in m:
            for lead, repl in self.by.get(i, ()):
                q = m_div(m, lead)
                if q is not None:
                    return q, repl
        return None

    def reduce(self, p):
        out = {}
        work = dict(p)
        n = 0
        while work:
            m, c = work.popitem()
            f = self.find(m)
            if f is None:
                v = out.get(m, 0) + c
                if v == 0:
                    out.pop(m, None)
                else:
                    out[m] = v
                continue
            q, repl = f
            n += 1
            if n > 8 * LIMIT:
                raise TooBig()
            for m2, c2 in repl.items():
                mm = m_mul(q, m2)
                v = work.get(mm, 0) + c * c2
                if v == 0:
                    work.pop(mm, None)
                else:
                    work[mm] = v
        return out


class RF(object):
    """num / prod(factor**exp)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num
        self.den = den     # dict key -> (poly, exp)


class NF(object):
    """Normal-form engine bound to one rewriting system."""

    def __init__(self):
        self.rules = Rules()
        self.atoms = {}      # atom id -> term
        self.memo = {}
        self._seen_atoms = set()
        self.onatom = None

    # --- atoms
    def atom(self, t):
        if t.id not in self._seen_atoms:
            self._seen_atoms.add(t.id)
            self.atoms[t.id] = t
            if t.op == 'sqrt':
                a = self.nf(t.args[0])
                if not a.den:
                    self.rules.add(((t.id, 2),), a.num)
            elif t.op == 'cos':
                s = tm.mk('sin', t.args, 'R')
                self.atom(s)
                self.rules.add(((t.id, 2),), {(): Fraction(1), ((s.id, 2),): Fraction(-1)})
            elif t.op == 'abs':
                a = self.nf(t.args[0])
                if not a.den:
                    p = self.red(p_mul(a.num, a.num))
                    self.rules.add(((t.id, 2),), p)
            if self.onatom is not None:
                self.onatom(t)
        return p_atom(t.id)

    def red(self, p):
        return self.rules.reduce(p)

    def nf(self, t):
        r = self.memo.get(t)
        if r is not None and r[0] == self.rules.version:
            return r[1]
        # iterative deepening guard on recursion is unnecessary: DAG depth small
        out = self._nf(t)
        self.memo[t] = (self.rules.version, out)
        return out

    def _nf(self, t):
        op = t.op
        if op == 'const':
            return RF(p_const(tm.cval(t)), {})
        if op == 'add':
            r = None
            for a in t.args:
                x = self.nf(a)
                r = x if r is None else self.add(r, x)
            return r
        if op == 'mul':
            r = None
            for a in t.args:
                x = self.nf(a)
                r = x if r is None else self.mul(r, x)
            return r
        if op == 'div':
            return self.mul(self.nf(t.args[0]), self.inv(self.nf(t.args[1])))
        p = self.atom(t)
        return RF(self.red(p), {})

    def cancel(self, num, den):
        if not num:
            return RF({}, {})
        if den:
            nd = {}
            for k, (f, e) in den.items():
                while e > 0:
                    q = p_exactdiv(num, f)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e:
                    nd[k] = (f, e)
            den = nd
        return RF(num, den)

    def add(self, a, b):
        if not a.den and not b.den:
            return RF(p_add(a.num, b.num), {})
        den = {}
        for k, (f, e) in a.den.items():
            den[k] = (f, e)
        for k, (f, e) in b.den.items():
            if k not in den or den[k][1] < e:
                den[k] = (f, e)
        na, nb = a.num, b.num
        for k, (f, e) in den.items():
            ea = a.den.get(k, (None, 0))[1]
            eb = b.den.get(k, (None, 0))[1]
            for _ in range(e - ea):
                na = self.red(p_mul(na, f))
            for _ in range(e - eb):
                nb = self.red(p_mul(nb, f))
        return self.cancel(p_add(na, nb), den)

    def mul(self, a, b):
        num = self.red(p_mul(a.num, b.num))
        if not a.den and not b.den:
            return RF(num, {})
        den = dict(a.den)
        for k, (f, e) in b.den.items():
            den[k] = (f, e + (den[k][1] if k in den else 0))
        return self.cancel(num, den)

    def inv(self, a):
        if not a.num:
            raise tm.Unsupported('division by zero in normal form')
        num = p_const(1)
        for k, (f, e) in a.den.items():
            for _ in range(e):
                num = self.red(p_mul(num, f))
        p = a.num
        if p_isconst(p):
            return RF(p_scale(num, 1 / p[()]), {})
        # factor content: monomial gcd and leading coefficient
        den = {}
        g = None
        for m in p:
            d = dict(m)
            g = d if g is None else {i: min(e, d[i]) for i, e in g.items() if i in d}
            if not g:
                break
        if g:
            gm = tuple(sorted(g.items()))
            p = {m_div(m, gm): c for m, c in p.items()}
            for i, e in gm:
                f = p_atom(i)
                den[p_key(f)] = (f, e)
        lead = max(p, key=m_cmpkey)
        c = p[lead]
        p = p_scale(p, 1 / c)
        num = p_scale(num, 1 / c)
        if not p_isconst(p):
            den[p_key(p)] = (p, 1)
        return self.cancel(num, den)

    def iszero(self, t):
        r = self.nf(t)
        return not self.red(r.num)

    # --- back to terms
    def poly2term(self, p):
        s = ZERO
        for m in sorted(p, key=m_cmpkey):
            t = tm.const(p[m])
            for i, e in m:
                a = self.atoms[i]
                for _ in range(e):
                    t = raw_mul(t, a)
            s = raw_add(s, t)
        return s

    def toterm(self, rf):
        t = self.poly2term(rf.num)
        if rf.den:
            d = ONE
            for k, (f, e) in sorted(rf.den.items(), key=lambda kv: sorted(kv[0], key=repr).__repr__()):
                ft = self.poly2term(f)
                for _ in range(e):
                    d = raw_mul(d, ft)
            t = tm.t_div(t, d)
        return t


def raw_mul(a, b):
    return tm.t_mul(a, b)


def raw_add(a, b):
    return tm.t_add(a, b)


def tsize(t, lim=200):
    seen = set()
    st = [t]
    while st and len(seen) < lim:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return len(seen)
