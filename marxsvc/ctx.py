"""Symbolic execution context: hypotheses, facts, obligations, path forking."""
import time
from fractions import Fraction
import numpy as np
from . import terms as tm
from . import poly
from . import solve
from . import symarr as sa
from .terms import T, Val, Unsupported, TRUE, FALSE, ZERO, ONE
from .symarr import SymArray, Dim, CUR, asym
from .poly import NF, TooBig


class PathInfeasible(Exception):
    pass


class StopContract(Exception):
    """enough failed obligations"""


class Obligation(object):
    __slots__ = ('name', 'status', 'backend', 'model', 'abstracted', 'time', 'why', 'size', 'goal')

    def __init__(self, name, res, dt, goal):
        self.name = name
        self.status = res.status
        self.backend = res.backend
        self.model = res.model
        self.abstracted = res.abstracted
        self.time = dt
        self.why = res.why
        self.goal = goal


_ABSENT = object()


def _div_one_minus_square(p, i):
    """p / (1 - x_i^2) or None"""
    by = {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(i, 0)
        by.setdefault(e, {})[tuple(sorted(d.items()))] = c
    n = max(by)
    if n < 2:
        return None
    # coefficients q_e of the quotient: p_e = q_e - q_(e-2)
    q = {}
    for e in range(n + 1):
        c = dict(by.get(e, {}))
        for m, v in q.get(e - 2, {}).items():
            c[m] = c.get(m, 0) + v
        q[e] = {m: v for m, v in c.items() if v}
    if q[n] or q[n - 1]:
        return None
    out = {}
    for e, c in q.items():
        for m, v in c.items():
            out[tuple(sorted(m + (((i, e),) if e else ())))] = v
    return out


DEBUG = False


class SymCtx(object):
    mode = 'sym'
    use_cvc5 = True

    def __init__(self, prefix=(), timeout=20.0, ob_timeout=75.0):
        self.prefix = list(prefix)
        self.trace = []         # (choice, forced)
        self.pending = []       # alternative prefixes
        self.path = []          # hypotheses (closed)
        self.stack = []         # local hypotheses (generic row conditions)
        self.bounds = {}
        self.leaffacts = {}
        self.vecrules = {}
        self.universal = {}     # base -> [terms over the row variable]
        self.intvars = set()
        self.rowsof = {}        # base -> set of row terms
        self.obs = []
        self.aggs = {}
        self.ob_timeout = ob_timeout
        self.prover = solve.Prover(self, timeout)
        self.dims = {}
        self.notes = []
        self._stubs = []
        self.ufuns = {}
        self.ufrange = {}
        self._qdepth = 0
        self._tidy = {}
        self._nn = {}
        self._nz = {}
        self._sq = {}
        self._natom = {}
        self._fp = None
        self._dv = {}
        self._indiv = False
        self.nfe = NF()
        self.nfe.onatom = self._onatom
        self._atomrules = set()
        self.assumed = []
        self.decl = []

    # ----------------------------------------------------------- activation
    def __enter__(self):
        self._old = CUR[0]
        CUR[0] = self
        tm.HOOK.update(nonzero=self.nonzero, nonneg=self.sign, truth=self.decide,
                       canon_sqrt=self.canon_sqrt, canon_div=self.canon_div, synsign=self._synsign)
        tm.NONNEG.clear()
        tm.KNOWN.clear()
        tm.reset_fresh()
        return self

    def __exit__(self, *a):
        CUR[0] = self._old
        from . import npshim
        npshim.RandomShim.hook = None
        for m, n, f in reversed(self._stubs):
            if f is _ABSENT:
                delattr(m, n)
            else:
                setattr(m, n, f)
        self._stubs = []
        tm.HOOK.update(nonzero=None, nonneg=None, truth=None, canon_sqrt=None, canon_div=None, synsign=None)
        return False

    # ------------------------------------------------------------ hypotheses
    def hyps(self):
        out = list(self.path)
        for d in self.stack:
            out.extend(d)
        return out

    def _hkey(self):
        return (len(self.path), tuple(tuple(x.id for x in s) for s in self.stack if s))

    def push_dims(self, dims):
        cs = []
        for d in dims:
            if isinstance(d, Dim):
                cs.extend(d.conds)
                # there is a row, so the axis is not empty
                cs.append(tm.t_le(ONE, Dim(d.base).card()))
                self.rowsof.setdefault(d.base, set()).add(d.row)
        self.stack.append(tuple(sorted(cs, key=lambda t: t.id)))

    def pop_dims(self, n):
        if self.stack:
            self.stack.pop()

    def assume(self, t):
        if t is TRUE:
            return
        for x in solve.flatten([t]):
            if x is FALSE:
                raise PathInfeasible()
            self.path.append(x)
        self._clear()

    def _clear(self):
        self._nn.clear()
        self._nz.clear()

    # ----------------------------------------------------------------- facts
    def note_row(self, row, dim):
        self.rowsof.setdefault(dim.base, set()).add(row)

    def facts(self, ts):
        """ground facts about everything occurring in ``ts`` (to fixpoint)"""
        done = set()
        out = []
        seen = set()
        todo = list(ts)
        rounds = 0
        rows = {}
        while todo and rounds < 6:
            rounds += 1
            new = []
            for t in tm.subterms(todo):
                if t in seen:
                    continue
                seen.add(t)
                if t.op == 'var':
                    new.extend(self._varfacts(t))
                    row = t.args[1]
                    if row is not None:
                        rows.setdefault(row.args[0].split('#')[0].split('$')[0], set()).add(row)
                elif t.op == 'rownum':
                    rows.setdefault(t.args[0].args[0].split('#')[0].split('$')[0], set()).add(t.args[0])
                    d = self.dims.get(t.args[0].args[0].split('#')[0].split('$')[0])
                    if d is not None:
                        new.append(tm.t_lt(t, d.card()))
                elif t.op == 'agg':
                    new.extend(self._aggfacts(t, rows))
                elif t.op == 'card':
                    new.extend(self._cardfacts(t))
                elif t.op == 'uf':
                    f = self.ufuns.get(t.args[0])
                    if f is not None:
                        new.extend(f(t))
            for base, rs in list(rows.items()):
                for r in list(rs):
                    for u in self.universal.get(base, ()):
                        k = ('u', u, r)
                        if k not in done:
                            done.add(k)
                            new.append(tm.subst_row(u, {tm.rowvar(base): r}))
                    d = self.dims.get(base)
                    if d is not None:
                        k = ('row', r)
                        if k not in done:
                            done.add(k)
                            # a row exists, so the dimension is not empty
                            new.append(tm.t_le(ONE, d.card()))
                    for a in list(self.aggs.values()):
                        if a['base'] == base and (a['term'] in seen):
                            k = ('a', a['term'], r)
                            if k not in done:
                                done.add(k)
                                new.append(self._agg_inst(a, r))
            todo = []
            for f in new:
                if f is TRUE or f in done:
                    continue
                done.add(f)
                out.append(f)
                todo.append(f)
        return out

    def _varfacts(self, v):
        name = v.args[0]
        out = []
        b = self.bounds.get(name)
        if b:
            lo, hi, strict = b
            if lo is not None:
                out.append(tm.t_lt(tm.R(tm.lift(lo)), v) if strict[0] else tm.t_le(tm.R(tm.lift(lo)), v))
            if hi is not None:
                out.append(tm.t_lt(v, tm.R(tm.lift(hi))) if strict[1] else tm.t_le(v, tm.R(tm.lift(hi))))
        for f in self.leaffacts.get(name, ()):
            r = f(v)
            if isinstance(r, (list, tuple)):
                out.extend(r)
            else:
                out.append(r)
        if name in self.intvars:
            out.append(tm.t_eq(v, tm.mk('floor', (v,), 'R')))
        return out

    def set_bounds(self, name, lo, hi, strict=(False, False)):
        self.bounds[name] = (lo, hi, strict)

    def is_int(self, t):
        if t.op == 'const':
            return tm.cval(t).denominator == 1
        if t.op == 'var':
            return t.args[0] in self.intvars
        if t.op in ('floor', 'card', 'rownum'):
            return True
        if t.op in ('add', 'mul'):
            return all(self.is_int(a) for a in t.args)
        if t.op == 'ite':
            return self.is_int(t.args[1]) and self.is_int(t.args[2])
        if t.op == 'abs':
            return self.is_int(t.args[0])
        return False

    # ------------------------------------------------------------ aggregates
    def _body(self, d, body):
        return tm.b_and(d.cond(), body)

    def agg_any(self, d, body):
        full = self._body(d, body)
        if full is FALSE:
            return FALSE
        if not self._mentions_row(full, d.row):
            # independent of the row: any <=> non-empty and body
            return tm.b_and(full, tm.t_le(ONE, Dim(d.base).card()))
        if self.quick_unsat([full]):
            return FALSE
        t = tm.mk('agg', ('any', d.base, full), 'B')
        self._register(t, 'any', d.base, full)
        return t

    def _register(self, t, kind, base, body, extra=None):
        if t not in self.aggs:
            w = tm.mk('row', ('%s$%d' % (base, t.id),), 'I')
            self.aggs[t] = {'term': t, 'kind': kind, 'base': base, 'body': body, 'witness': w, 'extra': extra}
            self.rowsof.setdefault(base, set()).add(w)

    def agg_extreme(self, d, body, sign):
        if isinstance(body, Val):
            if body.nan is not FALSE or body.inf is not FALSE:
                raise Unsupported('extreme of possibly special values')
            body = body.r
        self.obligate(tm.t_le(ONE, d.card()), 'reduction over a non-empty selection', exc=ValueError)
        if body.sort == 'B':
            raise Unsupported('extreme of booleans')
        if not self._mentions_row(body, d.row):
            return body
        t = tm.mk('agg', ('ext', d.base, d.cond(), body, sign), 'R')
        self._register(t, 'ext', d.base, d.cond(), (body, sign))
        return t

    def agg_sum(self, d, body):
        body = self.simp(body)
        if body is ZERO:
            return ZERO
        if not self._mentions_row(body, d.row):
            return tm.t_mul(body, d.card())
        if body.op == 'add':
            r = ZERO
            for a in body.args:
                r = tm.t_add(r, self.agg_sum(d, a))
            return r
        if body.op == 'mul':
            inv = [a for a in body.args if not self._mentions_row(a, d.row)]
            if inv:
                rest = ONE
                for a in body.args:
                    if a not in inv:
                        rest = tm.t_mul(rest, a)
                r = self.agg_sum(d, rest)
                for a in inv:
                    r = tm.t_mul(r, a)
                return r
        if body.op == 'ite':
            c, a, b = body.args
            if b is ZERO:
                return self.agg_sum(d.sub(c), a)
            if a is ZERO:
                return self.agg_sum(d.sub(tm.b_not(c)), b)
        t = tm.mk('agg', ('sum', d.base, d.cond(), body), 'R')
        self._register(t, 'sum', d.base, d.cond(), body)
        return t

    def _mentions_row(self, t, row):
        for x in tm.subterms([t]):
            if x.op == 'var' and x.args[1] is row:
                return True
            if x.op == 'rownum' and x.args[0] is row:
                return True
        return False

    def _agg_inst(self, a, r):
        m = {tm.rowvar(a['base']): r}
        t = a['term']
        if a['kind'] == 'any':
            return tm.b_or(t, tm.b_not(tm.subst_row(a['body'], m)))
        if a['kind'] == 'ext':
            body, sign = a['extra']
            b = tm.subst_row(body, m)
            c = tm.subst_row(a['body'], m)
            ineq = tm.t_le(b, t) if sign == 1 else tm.t_le(t, b)
            return tm.b_or(tm.b_not(c), ineq)
        return TRUE

    def _aggfacts(self, t, rows):
        a = self.aggs.get(t)
        if a is None:
            return []
        m = {tm.rowvar(a['base']): a['witness']}
        if a['kind'] == 'any':
            rows.setdefault(a['base'], set()).add(a['witness'])
            return [tm.b_or(tm.b_not(t), tm.subst_row(a['body'], m))]
        if a['kind'] == 'ext':
            rows.setdefault(a['base'], set()).add(a['witness'])
            body, sign = a['extra']
            return [tm.t_eq(tm.subst_row(body, m), t), tm.subst_row(a['body'], m)]
        if a['kind'] == 'sum':
            out = []
            body = a['extra']
            s = self._signmemo_sum(a, body)
            if s == 1:
                out.append(tm.t_le(ZERO, t))
            return out
        return []

    def _signmemo_sum(self, a, body):
        if 'sign' not in a:
            a['sign'] = 0
            if self.quick_unsat([a['body'], tm.t_lt(body, ZERO)]):
                a['sign'] = 1
        return a['sign']

    def _cardfacts(self, t):
        base, conds = t.args
        d = sa.CARD.get(t)
        out = [tm.t_le(ZERO, t)]
        if conds:
            full = Dim(base).card()
            out.append(tm.t_le(t, full))
            body = tm.b_and(*conds)
            if body is FALSE:
                return [tm.t_eq(t, ZERO)]
            a = tm.mk('agg', ('any', base, body), 'B')
            self._register(a, 'any', base, body)
            # card > 0  <->  some row satisfies the condition
            out.append(tm.b_iff(a, tm.t_le(ONE, t)))
            out.append(tm.b_or(tm.t_le(t, ZERO), tm.t_le(ONE, t)))
            out.append(tm.b_or(tm.b_not(a), tm.t_le(ONE, full)))
        else:
            out.append(tm.b_or(tm.t_le(t, ZERO), tm.t_le(ONE, t)))
        return out

    def dims_equal(self, a, b):
        """same set of rows?"""
        if a.base != b.base:
            return False
        if a.conds == b.conds:
            return True
        ca, cb = a.cond(), b.cond()
        r = self.prover.prove(self.hyps_closed() + [ca], cb)
        if not r:
            return False
        r = self.prover.prove(self.hyps_closed() + [cb], ca)
        return bool(r)

    def hyps_closed(self):
        return list(self.path)

    # ------------------------------------------------------ quick questions
    def quick_unsat(self, extra, nra_ms=300):
        if self._qdepth > 2:
            return False
        self._qdepth += 1
        try:
            return self._quick_unsat(extra, nra_ms)
        finally:
            self._qdepth -= 1

    def _quick_unsat(self, extra, nra_ms=300):
        return self.prover.quick_unsat(self.hyps() + list(extra), 400, nra_ms)

    def quick(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return self.quick_unsat([tm.b_not(t)])

    def _synsign(self, t, depth=0):
        """2: >0, 1: >=0, -1: <=0, -2: <0, 0 unknown (syntactic)"""
        op = t.op
        if op == 'const':
            v = tm.cval(t)
            return 2 if v > 0 else (-2 if v < 0 else 1)
        if op == 'pi':
            return 2
        if op in ('sqrt', 'abs', 'card', 'rownum') or t in tm.NONNEG:
            return 1
        if op == 'exp':
            return 2
        if op == 'uf' and t.args[0] in self.ufrange:
            lo = self.ufrange[t.args[0]]
            return 0 if lo is None or lo < 0 else (2 if lo > 0 else 1)
        if op == 'var':
            b = self.bounds.get(t.args[0])
            if b:
                lo, hi, st = b
                try:
                    if lo is not None and not isinstance(lo, (T, Val, SymArray)):
                        if lo > 0 or (lo == 0 and st[0]):
                            return 2
                        if lo == 0:
                            return 1
                    if hi is not None and not isinstance(hi, (T, Val, SymArray)):
                        if hi < 0 or (hi == 0 and st[1]):
                            return -2
                        if hi == 0:
                            return -1
                except TypeError:
                    pass
            return 0
        if depth > 12:
            return 0
        if op == 'mul':
            s = 1
            strict = True
            i = 0
            args = list(t.args)
            while i < len(args):
                if i + 1 < len(args) and args[i] is args[i + 1]:
                    strict = strict and abs(self._synsign(args[i], depth + 1)) == 2
                    i += 2
                    continue
                x = self._synsign(args[i], depth + 1)
                if x == 0:
                    return 0
                if x < 0:
                    s = -s
                strict = strict and abs(x) == 2
                i += 1
            return s * (2 if strict else 1)
        if op == 'add':
            ss = [self._synsign(a, depth + 1) for a in t.args]
            if all(x > 0 for x in ss):
                return 2 if any(x == 2 for x in ss) else 1
            if all(x < 0 for x in ss):
                return -2 if any(x == -2 for x in ss) else -1
            return 0
        if op == 'div':
            a, b = self._synsign(t.args[0], depth + 1), self._synsign(t.args[1], depth + 1)
            if abs(b) == 2 and a:
                s = 1 if (a > 0) == (b > 0) else -1
                return s * abs(a)
            return 0
        if op == 'ite':
            a, b = self._synsign(t.args[1], depth + 1), self._synsign(t.args[2], depth + 1)
            if a > 0 and b > 0:
                return min(a, b)
            if a < 0 and b < 0:
                return max(a, b)
        return 0

    def sign(self, t):
        """1: t >= 0 holds, -1: t <= 0 holds, 0: not known (context dependent)"""
        s = self._synsign(t)
        if s:
            return 1 if s > 0 else -1
        k = (t, self._hkey())
        r = self._nn.get(k)
        if r is None:
            r = 0
            h = set(self.hyps())
            if tm.t_le(ZERO, t) in h or tm.t_lt(ZERO, t) in h or tm.b_not(tm.t_lt(t, ZERO)) in h:
                r = 1
            elif tm.t_le(t, ZERO) in h or tm.t_lt(t, ZERO) in h or tm.b_not(tm.t_lt(ZERO, t)) in h:
                r = -1
            else:
                try:
                    n = self.simp(t)
                except TooBig:
                    n = t
                s = self._synsign(n)
                if s:
                    r = 1 if s > 0 else -1
                elif self.quick_unsat([tm.t_lt(n, ZERO)]):
                    r = 1
                elif self.quick_unsat([tm.t_lt(ZERO, n)]):
                    r = -1
            if r or self._qdepth <= 2:
                self._nn[k] = r
        return r

    def nonzero(self, t):
        if abs(self._synsign(t)) == 2:
            return True
        k = (t, self._hkey())
        r = self._nz.get(k)
        if r is None:
            h = set(self.hyps())
            e = tm.t_eq(t, ZERO)
            if e is FALSE or tm.b_not(e) in h or tm.t_lt(ZERO, t) in h or tm.t_lt(t, ZERO) in h:
                r = True
            elif e is TRUE:
                r = False
            else:
                try:
                    n = self.simp(t)
                except TooBig:
                    n = t
                if n.op == 'const':
                    r = n is not ZERO
                elif n.op == 'mul':
                    r = all(x.op == 'const' or self.nonzero(x) for x in n.args)
                elif abs(self._synsign(n)) == 2:
                    r = True
                else:
                    r = self.quick_unsat([tm.t_eq(n, ZERO)])
            if r or self._qdepth <= 2:
                self._nz[k] = r
        return r

    # --------------------------------------------------------- normal forms
    def _onatom(self, t):
        if t.op == 'var':
            name, row, idx, sort = t.args
            f = self.vecrules.get(name)
            if f is not None and (name, row) not in self._atomrules:
                self._atomrules.add((name, row))
                for lead, repl in f(row):
                    self.add_rule(lead, repl)

    def add_rule(self, lead, repl):
        """lead: list of (term, exp); repl: term (polynomial)"""
        for a, e in lead:
            self.nfe.atom(a)
        m = tuple(sorted((a.id, e) for a, e in lead))
        rf = self.nfe.nf(repl)
        self.nfe.rules.add(m, rf.num)

    def simp(self, t):
        """canonical form of a ground real term (ites kept as atoms)"""
        if isinstance(t, Val):
            return tm.mkval(self.simp(t.r), t.nan, t.inf)
        if t.op in ('const', 'var', 'pi') or t.sort == 'B':
            return t
        if t.op == 'ite':
            return tm.t_ite(t.args[0], self.simp(t.args[1]), self.simp(t.args[2]))
        try:
            rf = self.nfe.nf(t)
            if len(rf.num) > 300:
                return t
            return self.nfe.toterm(rf)
        except TooBig:
            return t

    def tidy(self, v):
        """the normal form of a real value when that is the smaller term"""
        if isinstance(v, Val):
            r = self.tidy(v.r)
            return v if r is v.r else tm.mkval(r, v.nan, v.inf)
        if v.op not in ('add', 'mul', 'div') or v.sort == 'B':
            return v
        k = (v, self.nfe.rules.version)
        r = self._tidy.get(k)
        if r is None:
            r = v
            n = tree_size(v, 4000)
            if n < 4000 and not solve.has_ite(v):
                try:
                    rf = self.nfe.nf(v)
                    if len(rf.num) <= 120:
                        q = self.nfe.toterm(rf)
                        if tree_size(q, n + 1) <= n:
                            r = q
                            if q.op == 'add' and self._synsign(v) > 0 and self._synsign(q) <= 0:
                                tm.NONNEG.add(q)    # equal to v, a sum of non-negative terms
                except (TooBig, RecursionError):
                    pass
            self._tidy[k] = r
        return r

    def identity(self, hyps, t):
        """is t == 0 an identity under the rules (plus equational hypotheses)?"""
        if self.nfe.iszero(t):
            return True
        eqs = [h.args[0] for h in hyps if h.op == 'eq' and not solve.has_ite(h)]
        if not eqs:
            return False
        rules = self.nfe.rules
        saved = {k: list(v) for k, v in rules.by.items()}
        ver = rules.version
        try:
            n = 0
            for e in eqs:
                try:
                    rf = self.nfe.nf(e)
                except TooBig:
                    continue
                p = rf.num
                if not p or len(p) > 40:
                    continue
                # lead: a monomial linear in an atom not occurring elsewhere, else graded-largest
                lead = None
                for m in sorted(p, key=poly.m_cmpkey, reverse=True):
                    if len(m) == 1 and m[0][1] == 1:
                        i = m[0][0]
                        if all(q == m or all(j != i for j, _ in q) for q in p):
                            a = self.nfe.atoms[i]
                            lead = m
                            break
                if lead is None:
                    lead = max(p, key=poly.m_cmpkey)
                if not lead:
                    return True      # constant = 0: contradiction
                c = p[lead]
                repl = {m: -v / c for m, v in p.items() if m != lead}
                rules.add(lead, repl)
                n += 1
            if not n:
                return False
            rules.version += 1000003
            try:
                num = self.nfe.nf(t).num
                return not self._reduce_bounded(num)
            except TooBig:
                return False
        finally:
            rules.by = saved
            rules.version = ver
            # memo entries created with extra rules must not survive
            self.nfe.memo = {k: v for k, v in self.nfe.memo.items() if v[0] == ver}

    def _reduce_bounded(self, p):
        return self.nfe.red(p)

    def normalise_atom(self, h):
        """comparison atoms with their argument in normal form"""
        k = (h, self._hkey(), self.nfe.rules.version)
        r = self._natom.get(k)
        if r is None:
            r = self._natom[k] = self._normalise_atom(h)
        return r

    def _normalise_atom(self, h):
        neg = False
        a = h
        if a.op == 'not':
            neg = True
            a = a.args[0]
        if a.op in ('lt', 'le', 'eq') and not solve.has_ite(a):
            d = a.args[0]
            try:
                rf = self.nfe.nf(d)
                if len(rf.num) < 80:
                    if not rf.den:
                        a = tm._cmp(a.op, self.nfe.poly2term(rf.num))
                    elif a.op == 'eq':
                        # value matters only where the denominators are nonzero
                        a = tm._cmp('eq', self.nfe.poly2term(rf.num))
                    else:
                        num = self.nfe.poly2term(rf.num)
                        den = ONE
                        for k, (f, e) in rf.den.items():
                            if e % 2:
                                ft = self.nfe.poly2term(f)
                                s = self._synsign(ft)
                                if s == 0:
                                    s = self.sign(ft)
                                if s > 0:
                                    continue
                                if s < 0:
                                    num = tm.t_neg(num)
                                    continue
                                den = tm.t_mul(den, ft)
                        a = tm._cmp(a.op, tm.t_mul(num, den))
            except (TooBig, Unsupported):
                pass
        return tm.b_not(a) if neg else a

    def canon_sqrt(self, a):
        """canonical square root or None"""
        if a.op == 'ite':
            return tm.t_ite(a.args[0], tm.t_sqrt(a.args[1]), tm.t_sqrt(a.args[2]))
        k = (a, self._hkey(), self.nfe.rules.version)
        if k in self._sq:
            return self._sq[k]
        r = self._canon_sqrt(a)
        self._sq[k] = r
        return r

    def _canon_sqrt(self, a):
        try:
            rf = self.nfe.nf(a)
        except TooBig:
            return None
        if not rf.num:
            return ZERO
        if len(rf.num) > 150:
            return None
        num = rf.num
        den = ONE
        # sqrt(n / (d1^e1 ...)) = sqrt(n * prod d_i^(e_i odd)) / prod |d_i|^ceil(e_i/2)
        try:
            for kk, (f, e) in rf.den.items():
                if e % 2:
                    num = self.nfe.red(poly.p_mul(num, f))
                den = tm.t_mul(den, self._pw(tm.t_abs(self.nfe.poly2term(f)), (e + 1) // 2))
        except TooBig:
            return None
        out, rest = self._extract_square(num)
        if rest == {(): Fraction(1)}:
            root = out
        elif poly.p_isconst(rest):
            root = tm.t_mul(out, tm.t_sqrt(tm.const(rest[()]))) if rest[()] >= 0 else \
                tm.t_mul(out, tm.mk('sqrt', (tm.const(rest[()]),), 'R'))
        else:
            root = tm.t_mul(out, tm.mk('sqrt', (self.nfe.poly2term(rest),), 'R'))
        return tm.t_div(root, den) if den is not ONE else root

    def _pw(self, t, n):
        r = ONE
        for _ in range(n):
            r = tm.t_mul(r, t)
        return r

    def _extract_square(self, p):
        """p = s^2 * rest; returns (|s| term, rest poly)"""
        import math
        # monomial content
        g = None
        for m in p:
            d = dict(m)
            g = d if g is None else {i: min(e, d[i]) for i, e in g.items() if i in d}
            if not g:
                break
        s = ONE
        if g:
            gm = tuple(sorted((i, e - e % 2) for i, e in g.items() if e >= 2))
            if gm:
                p = {poly.m_div(m, gm): c for m, c in p.items()}
                for i, e in gm:
                    s = tm.t_mul(s, self._pw(tm.t_abs(self.nfe.atoms[i]), e // 2))
        # factors 1 - sin(x)^2 and 1 - cos(x)^2
        if 1 < len(p) <= 30:
            for i in sorted({j for m in p for j, e in m if e >= 2}):
                at = self.nfe.atoms[i]
                while at.op in ('sin', 'cos'):
                    q = _div_one_minus_square(p, i)
                    if q is None:
                        break
                    p = q
                    s = tm.t_mul(s, tm.t_abs(tm.mk('cos' if at.op == 'sin' else 'sin', at.args, 'R')))
        # polynomial square
        if 1 < len(p) <= 30:
            q = poly_sqrt(p)
            if q is not None:
                s = tm.t_mul(s, tm.t_abs(self.nfe.poly2term(q)))
                p = {(): Fraction(1)}
                return s, p
        # rational content: make it canonical (largest square factor of leading coeff)
        c = p[max(p, key=poly.m_cmpkey)]
        c = abs(c)
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d and c != 1:
            s = tm.t_mul(tm.const(Fraction(rn, rd)), s)
            p = poly.p_scale(p, 1 / c)
        return s, p

    def canon_div(self, a, b):
        if self._indiv or solve.has_ite(a) or solve.has_ite(b):
            return None
        k = (a, b, self.nfe.rules.version)
        if k in self._dv:
            return self._dv[k]
        self._indiv = True
        try:
            r = None
            rf = self.nfe.nf(tm.mk('div', (a, b), 'R'))
            if len(rf.num) <= 40:
                r = self.nfe.toterm(rf)
        except TooBig:
            r = None
        finally:
            self._indiv = False
        self._dv[k] = r
        return r

    # ------------------------------------------------------------ branching
    def decide(self, t):
        t = self._closed(t)
        if t.op in ('lt', 'le', 'eq') or (t.op == 'not' and t.args[0].op in ('lt', 'le', 'eq')):
            t = self.normalise_atom(t)
        if t is TRUE or t is FALSE:
            return t is TRUE
        i = len(self.trace)
        if i < len(self.prefix):
            choice, forced = self.prefix[i]
        else:
            forced = True
            if self.prover.quick_unsat(self.hyps() + [tm.b_not(t)], 1500, 1500):
                choice = True
            elif self.prover.quick_unsat(self.hyps() + [t], 1500, 1500):
                choice = False
            else:
                forced = False
                choice = True
                self.pending.append(list(self.trace) + [(False, False)])
        self.trace.append((choice, forced))
        if not forced:
            self.assume(t if choice else tm.b_not(t))
        return choice

    def _closed(self, t):
        if isinstance(t, Val):
            t = sa.tobool(t)
        for x in tm.subterms([t]):
            if x.op in ('var', 'rownum'):
                r = x.args[1] if x.op == 'var' else x.args[0]
                if r is not None and '#' not in r.args[0] and '$' not in r.args[0]:
                    raise Unsupported('branch on the value of a generic row')
        return t

    # ---------------------------------------------------------- obligations
    def obligate(self, t, msg, exc=None):
        """implicit obligation of a library call (its precondition)"""
        if t is TRUE:
            return
        if self.quick(t):
            return
        r = self._prove(t)
        if not r:
            # the call may raise: record as an unproved safety obligation, go on
            self.record('safety: ' + msg, t, r)
        # afterwards the condition holds

    def _prove(self, t, extra=()):
        hyps = self.hyps() + list(extra)
        hyps = hyps + self._aggconsequences(hyps, t)
        r = self.prover.prove(hyps, t)
        if not r:
            m = {}
            h2, t2 = [self.tidy_atoms(h, m) for h in hyps], self.tidy_atoms(t, m)
            if t2 is not t or any(x is not y for x, y in zip(h2, hyps)):
                r2 = self.prover.prove(h2, t2)
                if r2:
                    return r2
        return r

    def tidy_atoms(self, t, memo):
        """comparisons inside t in normal form, so that equal conditions written
        differently become the same"""
        r = memo.get(t)
        if r is None:
            if t.op in ('le', 'lt', 'eq'):
                r = t
                if not solve.has_ite(t):
                    r = self.normalise_atom(t)
                    if r is not t and tree_size(r, 400) >= 400:
                        r = t
            elif t.op in ('and', 'or', 'not', 'ite', 'ubool'):
                new = tuple(self.tidy_atoms(a, memo) for a in t.args)
                r = t if all(x is y for x, y in zip(new, t.args)) else tm.rebuild(t.op, new)
            else:
                r = t
            memo[t] = r
        return r

    def _aggconsequences(self, hyps, goal):
        """what decided counts and any/all terms say about the rows at hand"""
        if not self.aggs and not any(x.op == 'card' for x in tm.subterms(hyps)):
            return []
        fs = [f for f in self.facts(hyps + [goal])]
        cards = [f for f in fs if any(x.op in ('card', 'agg') for x in tm.subterms([f]))]
        h2, _ = solve.propagate(hyps + cards, TRUE)
        if h2 is None:
            return [FALSE]
        old = set(solve.flatten(hyps))
        return [h for h in h2 if h.op not in ('or', 'and') and h not in old
                and not any(x.op in ('card', 'agg') for x in tm.subterms([h]))]

    max_fail = 2

    def record(self, name, goal, res, dt=0.0):
        self.obs.append(Obligation(name, res, dt, goal))
        if not res:
            self.nfail = getattr(self, 'nfail', 0) + 1
            if self.nfail >= self.max_fail:
                raise StopContract()

    def general(self, name, fn, *argsets):
        """prove fn for fresh variables without any hypothesis, then use its
        instances for each argument tuple"""
        n = len(argsets[0])
        fresh = [SymArray(_obj0(tm.var(tm.fresh_name('gen'), None, (), 'R')), (), 'f') for _ in range(n)]
        g = sa.tobool(asym(fn(*fresh)).p[()])
        t0 = time.time()
        r = self.prover.prove([], g)
        self.record('general lemma: ' + name, g, r, time.time() - t0)
        for a in argsets:
            self.requires(fn(*a))

    def stub(self, module, name, fn):
        """caller verified against a callee's contract: replace the callee"""
        if hasattr(module, name):
            self._stubs.append((module, name, getattr(module, name)))
            setattr(module, name, fn)

    def sky(self, lon, lat):
        """SkyCoord (ICRS) from longitude and latitude in radian"""
        from . import symsky
        return symsky.SymSky(asym(lon), asym(lat))

    def seq(self, name, n, lo=None, hi=None, sorted=False, gen=None):
        """table of length n (from ctx.count) with arbitrary values"""
        from . import symseq
        f = symseq._uf()
        s = symseq.SymSeq(n.p[()], f)
        if lo is not None:
            symseq.schema(lambda i: ~symseq.inside(i, s.n) | (asym(lo) <= f(i)))
        if hi is not None:
            symseq.schema(lambda i: ~symseq.inside(i, s.n) | (f(i) <= asym(hi)))
        if sorted:
            symseq.schema(lambda i: ~symseq.inside(i, s.n) | (i < 1) | (f(i - 1) <= f(i)))
        return s

    @staticmethod
    def length(dim):
        """number of elements as the code sees it"""
        return sa.dimlen(dim)

    def count(self, name, lo=1, hi=6):
        """arbitrary number of elements, at least lo (at most hi in concrete runs)"""
        n = SymArray(_obj0(tm.var(name, None, (), 'R')), (), 'i')
        self.intvars.add(name)
        self.requires(n >= lo)
        return n

    def direction(self, lon, lat):
        """unit vectors to positions on the sky"""
        from . import symsky
        return self.np.stack(symsky.direction(asym(lon), asym(lat)), axis=-1)

    def builtin_int(self, module, upto=None):
        """int() of symbolic numbers inside that module; with upto, one path for
        each value from 0 to upto"""
        def int_(x=0, *a):
            if isinstance(x, SymArray):
                r = x.reshape(()).astype(int)
                if upto is None:
                    return r
                for k in range(upto + 1):
                    if r == k:
                        return k
                raise Unsupported('int() above the stated size')
            return int(x, *a)
        self._stubs.append((module, 'int', module.__dict__.get('int', _ABSENT)))
        module.int = int_

    def draws(self):
        """see the random numbers the code draws"""
        from . import draws, npshim
        npshim.RandomShim.hook = d = draws.Draws(self)
        return d

    def patch(self, obj, name, value):
        """replace an attribute for the duration of the run"""
        self._stubs.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def userfunc(self, name, lo=None, hi=None, strict=(False, False), gen=None, out=()):
        """an arbitrary function of real arguments supplied by the user; works
        elementwise; range [lo, hi] (bounds may be symbolic-free numbers)"""
        shape = tuple(out)
        fid = {i: tm.const(5000 + hash_name(name + repr(i))) for i in np.ndindex(*shape)}

        def bounds(t):
            r = []
            if lo is not None:
                r.append(tm.t_lt(tm.R(tm.lift(lo)), t) if strict[0] else tm.t_le(tm.R(tm.lift(lo)), t))
            if hi is not None:
                r.append(tm.t_lt(t, tm.R(tm.lift(hi))) if strict[1] else tm.t_le(t, tm.R(tm.lift(hi))))
            return r
        for c in fid.values():
            self.ufuns[c] = bounds
            self.ufrange[c] = lo if not strict[0] else (lo if lo is None or lo > 0 else lo)
        calls = []

        def f(*args, **kw):
            arrs = [asym(a) for a in args]
            calls.append(arrs)

            def one(c):
                return sa.elementwise(lambda *a: tm.mk('uf', (c,) + tuple(tm.R(x) for x in a), 'R'), arrs, 'f')
            if not shape:
                return one(fid[()])
            raise Unsupported('vector valued user function')
        f.calls = calls
        return f

    def table(self, dim, cols, meta=None):
        from .table import SymTable
        t = SymTable(dim, meta=meta)
        for k, v in cols.items():
            t[k] = v
        return t

    @staticmethod
    def column(t, name):
        return t[name].data

    def predicate(self, name, *args):
        """uninterpreted predicate over arrays (meaning given elsewhere)"""
        def f(*a):
            return tm.mk('ubool', (tm.const(1000 + hash_name(name)),) + tuple(tm.R(x) for x in a), 'B')
        return sa.elementwise(f, [asym(a) for a in args], 'b')

    def lemma(self, name, cond):
        """prove, then use as a hypothesis"""
        self.ensure('lemma: ' + name, cond)
        self.requires(cond)

    # =================================================== contract language
    def dim(self, name, nonempty=False):
        d = Dim(name)
        self.dims[name] = d
        if nonempty:
            self.assume(tm.t_le(ONE, d.card()))
        return d

    def array(self, name, shape=(), lo=None, hi=None, strict=(False, False), kind='f', gen=None):
        from . import npshim
        axes = tuple(shape)
        self.decl.append((name, axes))
        return npshim.fresh_array(name, axes, kind, lo, hi, strict)

    def scalar(self, name, lo=None, hi=None, strict=(False, False), kind='f', gen=None):
        return self.array(name, (), lo, hi, strict, kind)

    def boolarray(self, name, shape):
        from . import npshim
        return npshim.fresh_array(name, tuple(shape), 'b')

    def unit_vector(self, name, shape=(), n=3, hom=None):
        """array of unit 3-vectors, optionally with a homogeneous component"""
        a = self.array(name, tuple(shape) + (3,))

        def sib(v):
            nm, row, idx, sort = v.args
            return [tm.var(nm, row, idx[:-1] + (i,)) for i in range(3)]

        def fact(v):
            x = sib(v)
            return [tm.t_eq(tm._sum([tm.t_mul(y, y) for y in x]), ONE)] + \
                [tm.b_and(tm.t_le(tm.MONE, y), tm.t_le(y, ONE)) for y in x]
        self.leaffacts[name] = [fact]
        pre = [i for i in np.ndindex(*sa.pshape(shape))]

        def rules(row):
            out = []
            for i in pre:
                x = [tm.var(name, row, tuple(i) + (k,)) for k in range(3)]
                out.append(([(x[2], 2)], tm.t_sub(ONE, tm.t_add(tm.t_mul(x[0], x[0]), tm.t_mul(x[1], x[1])))))
            return out
        self.vecrules[name] = rules
        if hom is not None:
            return homog(a, hom)
        return a

    def frame(self, name, shape=()):
        """right-handed orthonormal frame: columns (u x v, u, v) -> (..., 3, 3)"""
        uv = self.array(name, tuple(shape) + (2, 3))
        pre = [i for i in np.ndindex(*sa.pshape(shape))]

        def sibs(row, i):
            return ([tm.var(name, row, tuple(i) + (0, k)) for k in range(3)],
                    [tm.var(name, row, tuple(i) + (1, k)) for k in range(3)])

        def fact(v):
            nm, row, idx, sort = v.args
            u, w = sibs(row, idx[:-2])
            dot = lambda a, b: tm._sum([tm.t_mul(x, y) for x, y in zip(a, b)])
            return [tm.t_eq(dot(u, u), ONE), tm.t_eq(dot(w, w), ONE), tm.t_eq(dot(u, w), ZERO)]
        self.leaffacts[name] = [fact]

        def rules(row):
            out = []
            for i in pre:
                u, w = sibs(row, i)
                out.extend(frame_rules(u, w))
            return out
        self.vecrules[name] = rules
        u, v = uv[..., 0, :], uv[..., 1, :]
        w = np.cross(u, v)
        M = sa.stack([w, u, v], -1)
        return M

    def placement(self, name, zoom=None, shape=()):
        """pos4d = translation . rotation . diag(zoom); returns (pos4d, parts)"""
        Rm = self.frame(name + '.R')
        t = self.array(name + '.t', (3,))
        if zoom is None:
            z = self.array(name + '.zoom', (3,), 0, None, (True, False))
        else:
            z = asym(zoom)
        P = np.empty((4, 4), dtype=object)
        P[...] = ZERO
        P[3, 3] = ONE
        for i in range(3):
            P[i, 3] = t.p[i]
            for j in range(3):
                P[i, j] = tm.v_mul(Rm.p[i, j], z.p[j])
        return SymArray(P, (4, 4)), {'R': Rm, 't': t, 'zoom': z}

    @staticmethod
    def hom(a, w):
        return homog(a, w)

    def requires(self, cond):
        """precondition; over an unbounded axis it holds for every row"""
        c = asym(cond)
        for t in c.p.ravel():
            t = sa.tobool(t)
            dims = [a for a in c.axes if isinstance(a, Dim)]
            if dims:
                d = dims[0]
                u = tm.b_or(tm.b_not(d.cond()), t)
                self.universal.setdefault(d.base, []).append(u)
                self.rowsof.setdefault(d.base, set()).add(d.row)
                if d.cond() is TRUE:
                    for x in solve.flatten([t]):
                        if x.op in ('lt', 'le', 'eq'):
                            tm.KNOWN[x] = TRUE
                        elif x.op == 'not':
                            tm.KNOWN[x.args[0]] = FALSE
                self._clear()
                self.prover.qmemo.clear()
            else:
                self.assume(t)

    def ensure(self, name, cond):
        """postcondition"""
        c = asym(cond) if not isinstance(cond, (bool, np.bool_)) else asym(bool(cond))
        dims = [a for a in c.axes if isinstance(a, Dim)]
        self.push_dims(dims)
        try:
            goals = []
            for t in c.p.ravel():
                g = sa.tobool(t)
                if g not in goals:
                    goals.append(g)
            if not goals:
                goals = [TRUE]
            for g in goals:
                t0 = time.time()
                r = self._prove(g)
                self.record(name, g, r, time.time() - t0)
        finally:
            self.pop_dims(len(dims))

    def ensure_one(self, name, alternatives):
        """one of several groups of postconditions; the conditions of a group are
        proved one after the other, and each may be used for the next ones"""
        t0 = time.time()
        r = None
        for group in reversed(alternatives):
            depth = 0
            ok = True
            try:
                for c in group:
                    c = asym(c)
                    dims = [a for a in c.axes if isinstance(a, Dim)]
                    self.push_dims(dims)
                    depth += 1
                    goals = [sa.tobool(t) for t in c.p.ravel()]
                    for g in goals:
                        r = self._prove(g)
                        if DEBUG:
                            print('        part', bool(r), r.backend, round(time.time() - t0, 1), tm.show(g, 6)[:200])
                        if not r:
                            ok = False
                            break
                    if not ok:
                        break
                    self.stack[-1] = tuple(sorted(set(self.stack[-1]) | set(solve.flatten(goals)), key=lambda t: t.id))
            finally:
                for _ in range(depth):
                    self.pop_dims(1)
            if ok:
                break
        self.record(name, g, r, time.time() - t0)

    # comparisons (tolerant in concrete mode, exact here)
    def eq(self, a, b, tol=None, scale=None):
        a, b = asym(a), asym(b)
        axes = sa.broadcast_axes([a.axes, b.axes])
        return sa.elementwise(tm.v_eq, [a, b], 'b')

    def same(self, a, b, tol=None):
        return sa.elementwise(tm.v_same, [asym(a), asym(b)], 'b')

    def le(self, a, b, tol=None):
        return asym(a) <= asym(b)

    def lt(self, a, b, tol=None):
        return asym(a) < asym(b)

    def cond(self, x):
        return asym(x)

    def all(self, *cs):
        r = None
        for c in cs:
            c = asym(c)
            r = c if r is None else (r & c)
        return r

    def any(self, *cs):
        r = None
        for c in cs:
            c = asym(c)
            r = c if r is None else (r | c)
        return r

    def alltrue(self, c, axis=-1):
        """conjunction over concrete axes"""
        return np.all(asym(c), axis=axis)

    def implies(self, a, b):
        return (~asym(a)) | asym(b)

    def iff(self, a, b):
        return sa.elementwise(lambda x, y: tm.b_iff(sa.tobool(x), sa.tobool(y)), [asym(a), asym(b)], 'b')

    def isnan(self, a):
        return sa.elementwise(tm.isnan, [asym(a)], 'b')

    def finite(self, a):
        return sa.elementwise(tm.isfinite, [asym(a)], 'b')

    def same_shape(self, name, a, b):
        a, b = asym(a), asym(b)
        ok = len(a.axes) == len(b.axes) and all(sa.axis_eq(x, y) for x, y in zip(a.axes, b.axes))
        self.ensure(name, ok)
        return ok

    def shape_is(self, name, a, axes):
        a = asym(a)
        ok = len(a.axes) == len(axes) and all(sa.axis_eq(x, y) for x, y in zip(a.axes, axes))
        self.ensure(name, ok)
        return ok

    def raises(self, name, exc, f, *a, **k):
        """f must raise exc"""
        try:
            f(*a, **k)
        except exc:
            self.ensure(name, True)
            return
        self.ensure(name, False)

    def choose(self, name, options):
        """universal choice among finitely many structural variants (one path each)"""
        for i, o in enumerate(options[:-1]):
            b = tm.var('choice:%s:%d' % (name, i), None, (), 'B')
            if self.decide(b):
                return o
        return options[-1]


_NAMES = {}


def hash_name(n):
    return _NAMES.setdefault(n, len(_NAMES))


def tree_size(t, cap):
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > cap:
            return n
        if x.op in ('const', 'var', 'row', 'pi', 'rownum', 'agg', 'aggb'):
            continue
        stack.extend(a for a in x.args if isinstance(a, T))
    return n


def homog(a, w):
    shape = a.axes[:-1] + (1,)
    last = sa.full(shape, tm.lift(w), 'f')
    from . import npshim
    return npshim.f_concatenate([a, last], -1)


def frame_rules(u, w):
    """Groebner basis (lex-like, computed once) of u.u=1, w.w=1, u.w=0."""
    global _FR
    try:
        B = _FR
    except NameError:
        import sympy
        a = sympy.symbols('u0 u1 u2 w0 w1 w2')
        u0, u1, u2, w0, w1, w2 = a
        G = sympy.groebner([u0**2 + u1**2 + u2**2 - 1, w0**2 + w1**2 + w2**2 - 1,
                            u0 * w0 + u1 * w1 + u2 * w2], u2, w2, u1, w1, u0, w0, order='grevlex')
        B = []
        for g in G.polys:
            tms = g.terms(order='grevlex')
            (lm, lc) = tms[0]
            B.append((lm, [(m, Fraction(-int(c.p) if hasattr(c, 'p') else -int(c), int(c.q) if hasattr(c, 'q') else 1) / Fraction(int(lc.p), int(lc.q))) for m, c in tms[1:]]))
        _FR = B
    V = [u[2], w[2], u[1], w[1], u[0], w[0]]
    out = []
    for lm, rest in B:
        lead = [(V[i], e) for i, e in enumerate(lm) if e]
        t = ZERO
        for m, c in rest:
            x = tm.const(c)
            for i, e in enumerate(m):
                for _ in range(e):
                    x = tm.t_mul(x, V[i])
            t = tm.t_add(t, x)
        out.append((lead, t))
    return out


def poly_sqrt(p):
    """q with q^2 == p, or None (lex leading terms)"""
    import math
    ids = sorted({i for m in p for i, _ in m})
    pos = {i: k for k, i in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for i, e in m:
            v[pos[i]] = e
        return tuple(v)

    def half(m):
        if any(e % 2 for _, e in m):
            return None
        return tuple((i, e // 2) for i, e in m)
    lead = max(p, key=vec)
    h = half(lead)
    if h is None:
        return None
    c = p[lead]
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    q = {h: Fraction(n, d)}
    c0 = Fraction(n, d)
    r = poly.p_add(p, poly.p_mul(q, q), -1)
    for _ in range(12):
        if not r:
            return q
        m = max(r, key=vec)
        x = poly.m_div(m, h)
        if x is None or vec(x) >= vec(h):
            return None
        cx = r[m] / (2 * c0)
        t = {x: cx}
        # r -= 2 q t + t^2
        r = poly.p_add(r, poly.p_scale(poly.p_mul(q, t), 2), -1)
        r = poly.p_add(r, poly.p_mul(t, t), -1)
        q = poly.p_add(q, t)
    return q if not r else None


def _obj0(t):
    p = np.empty((), dtype=object)
    p[()] = t
    return p
