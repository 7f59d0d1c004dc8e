"""Back ends of the deductive verifier.

A verification condition is  facts(H, G), H |- G  over the term language.  It is
discharged by (in this order)

  identity  rational normal form modulo the rewriting rules of the hypotheses
  lra       z3, non-linear terms abstracted (complete for the linear part)
  nra       z3 with definitions of sqrt, division, trigonometric pairs, ...
  cvc5      the same formula given to cvc5
"""
import os
import sys
import threading
import time
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, ONE, Unsupported
from .poly import TooBig

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3                                   # noqa: E402

STATS = {'identity': 0, 'trivial': 0, 'lra': 0, 'nra': 0, 'cvc5': 0, 'failed': 0,
         'solver_s': 0.0, 'quick_calls': 0, 'quick_s': 0.0}


class Enc(object):
    """Terms -> z3.  ``linear``: opaque variables for non-linear terms."""

    def __init__(self, linear):
        self.linear = linear
        self.memo = {}
        self.defs = []
        self.vars = {}
        self.abstracted = False
        self.seen_ops = {}
        self.n = 0

    def fresh(self, t, sort='R', tag=None):
        self.n += 1
        nm = '%s_%d' % (tag or t.op, t.id)
        return z3.Bool(nm) if sort == 'B' else (z3.Int(nm) if sort == 'I' else z3.Real(nm))

    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._enc(t)
            self.memo[t] = r
        return r

    def _enc(self, t):
        op = t.op
        if op == 'const':
            v = tm.cval(t)
            return z3.Q(v.numerator, v.denominator)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'var':
            v = self.fresh(t, t.sort, 'v')
            self.vars[t] = v
            return v
        if op == 'pi':
            v = z3.Real('pi')
            self.defs.append(z3.And(v > z3.Q(31415926535, 10**10), v < z3.Q(31415926536, 10**10)))
            return v
        if op == 'add':
            return z3.Sum([self.enc(a) for a in t.args])
        if op == 'mul':
            if t.args[0].op == 'const':
                rest = t.args[1:]
                k = rest[0] if len(rest) == 1 else tm.mk('mul', rest, 'R')
                return self.enc(t.args[0]) * self.enc(k)
            if self.linear:
                v = self.fresh(t)
                # sign rule for squares keeps the abstraction useful
                if len(t.args) == 2 and t.args[0] is t.args[1]:
                    self.defs.append(v >= 0)
                    x = self.enc(t.args[0])
                    self.defs.append((v == 0) == (x == 0))
                elif len(t.args) == 2:
                    x, y = self.enc(t.args[0]), self.enc(t.args[1])
                    self.defs.append((v == 0) == z3.Or(x == 0, y == 0))
                    self.defs.append((v > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))
                return v
            r = self.enc(t.args[0])
            for a in t.args[1:]:
                r = r * self.enc(a)
            return r
        if op == 'div':
            q = self.fresh(t)
            b = self.enc(t.args[1])
            a = self.enc(t.args[0])
            if self.linear:
                self.defs.append(z3.Implies(b != 0, (q == 0) == (a == 0)))
                self.defs.append(z3.Implies(b > 0, (q > 0) == (a > 0)))
                self.defs.append(z3.Implies(b < 0, (q > 0) == (a < 0)))
            else:
                self.defs.append(z3.Implies(b != 0, q * b == a))
            return q
        if op == 'ite':
            return z3.If(self.enc(t.args[0]), self.enc(t.args[1]), self.enc(t.args[2]))
        if op == 'not':
            return z3.Not(self.enc(t.args[0]))
        if op == 'and':
            return z3.And([self.enc(a) for a in t.args])
        if op == 'or':
            return z3.Or([self.enc(a) for a in t.args])
        if op == 'lt':
            return self.enc(t.args[0]) < 0
        if op == 'le':
            return self.enc(t.args[0]) <= 0
        if op == 'eq':
            return self.enc(t.args[0]) == 0
        if op == 'abs':
            a = self.enc(t.args[0])
            return z3.If(a >= 0, a, -a)
        if op == 'sqrt':
            s = self.fresh(t)
            a = self.enc(t.args[0])
            if t.args[0].op == 'const':
                c = tm.cval(t.args[0])
                import math
                f = Fraction(math.sqrt(c))
                lo, hi = f * (1 - Fraction(1, 10**12)), f * (1 + Fraction(1, 10**12))
                self.defs.append(z3.And(s > z3.Q(lo.numerator, lo.denominator),
                                        s < z3.Q(hi.numerator, hi.denominator)))
            self.defs.append(s >= 0)
            if self.linear:
                self.defs.append(z3.Implies(a >= 0, (s == 0) == (a == 0)))
                self.defs.append(z3.Implies(a >= 1, s >= 1))
                self.defs.append(z3.Implies(z3.And(a <= 1, a >= 0), s <= 1))
            else:
                self.defs.append(z3.Implies(a >= 0, s * s == a))
            self._ack(t, s)
            return s
        if op in ('sin', 'cos'):
            v = self.fresh(t)
            self.defs.append(z3.And(v >= -1, v <= 1))
            other = tm.mk('cos' if op == 'sin' else 'sin', t.args, 'R')
            self.memo[t] = v
            w = self.enc(other)
            if not self.linear and op == 'sin':
                self.defs.append(v * v + w * w == 1)
            self.abstracted = True
            self._ack(t, v)
            return v
        if op in ('acos', 'asin', 'atan', 'atan2', 'exp', 'log', 'pow'):
            v = self.fresh(t)
            self.abstracted = True
            pi = self.enc(tm.PI)
            if op == 'acos':
                a = self.enc(t.args[0])
                self.defs.append(z3.And(v >= 0, v <= pi))
                self.defs.append(z3.Implies(a > 0, v < pi / 2))
                self.defs.append(z3.Implies(a < 0, v > pi / 2))
                self.defs.append(z3.Implies(a == 1, v == 0))
            elif op in ('asin', 'atan'):
                a = self.enc(t.args[0])
                self.defs.append(z3.And(v >= -pi / 2, v <= pi / 2))
                self.defs.append((v > 0) == (a > 0))
                self.defs.append((v < 0) == (a < 0))
            elif op == 'atan2':
                y, x = self.enc(t.args[0]), self.enc(t.args[1])
                self.defs.append(z3.And(v > -pi, v <= pi))
                self.defs.append(z3.Implies(y > 0, z3.And(v > 0, v < pi)))
                self.defs.append(z3.Implies(y < 0, v < 0))
                self.defs.append(z3.Implies(z3.And(y == 0, x < 0), v == pi))
                self.defs.append(z3.Implies(z3.And(y == 0, x >= 0), v == 0))
                self.defs.append(z3.Implies(x > 0, z3.And(v > -pi / 2, v < pi / 2)))
                self.defs.append(z3.Implies(x < 0, z3.Or(v > pi / 2, v < -pi / 2)))
                self.defs.append(z3.Implies(z3.And(y > 0, x == 0), v == pi / 2))
                self.defs.append(z3.Implies(z3.And(y < 0, x == 0), v == -pi / 2))
            elif op == 'exp':
                a = self.enc(t.args[0])
                self.defs.append(v > 0)
                self.defs.append((v > 1) == (a > 0))
                self.defs.append((v < 1) == (a < 0))
            elif op == 'log':
                a = self.enc(t.args[0])
                self.defs.append(z3.Implies(a > 0, (v > 0) == (a > 1)))
            for a in t.args:
                self.enc(a)
            self._ack(t, v)
            return v
        if op == 'uf':
            v = self.fresh(t)
            self.abstracted = True
            for a in t.args[1:]:
                self.enc(a)
            self._ack(t, v, ('uf', t.args[0]))
            return v
        if op == 'floor':
            v = z3.ToReal(self.fresh(t, 'I'))
            a = self.enc(t.args[0])
            self.defs.append(z3.And(v <= a, a < v + 1))
            return v
        if op == 'rownum':
            v = self.fresh(t)
            self.defs.append(v >= 0)
            return v
        if op == 'card':
            v = z3.ToReal(self.fresh(t, 'I'))
            self.defs.append(v >= 0)
            return v
        if op == 'ubool':
            self.abstracted = True
            return self.fresh(t, 'B')
        if op == 'agg':
            if t.args[0] == 'ext':
                self.vars[t] = self.fresh(t, t.sort)
                return self.vars[t]
            self.abstracted = True
            return self.fresh(t, t.sort)
        raise Unsupported('encode ' + op)

    def _ack(self, t, v, key=None):
        """congruence for uninterpreted functions (Ackermann)"""
        L = self.seen_ops.setdefault(key or t.op, [])
        if len(L) <= (40 if t.op == 'uf' else 6):
            for u, w in L:
                eqs = [self.enc(a) == self.enc(b) for a, b in zip(t.args, u.args)]
                self.defs.append(z3.Implies(z3.And(eqs), v == w))
                if t.op in ('sqrt', 'exp', 'log', 'atan', 'asin'):
                    a, b = self.enc(t.args[0]), self.enc(u.args[0])
                    g = z3.And(a >= 0, b >= 0) if t.op == 'sqrt' else (
                        z3.And(a > 0, b > 0) if t.op == 'log' else z3.BoolVal(True))
                    self.defs.append(z3.Implies(z3.And(g, a < b), v < w))
                    self.defs.append(z3.Implies(z3.And(g, a > b), v > w))
        L.append((t, v))


class Result(object):
    def __init__(self, status, backend=None, model=None, abstracted=False, why=''):
        self.status = status       # 'proved' | 'sat' | 'unknown'
        self.backend = backend
        self.model = model
        self.abstracted = abstracted
        self.why = why

    def __bool__(self):
        return self.status == 'proved'


class Watch(object):
    """interrupts a solver call that overstays its own time limit"""
    fired = 0

    def __init__(self):
        self.pid = None
        self.until = None

    def arm(self, until):
        self.until = until
        if self.pid != os.getpid():
            self.pid = os.getpid()
            threading.Thread(target=self.loop, daemon=True).start()

    def disarm(self):
        self.until = None

    def loop(self):
        while True:
            time.sleep(0.25)
            u = self.until
            if u is not None and time.time() > u:
                self.fired += 1
                z3.main_ctx().interrupt()


WATCH = Watch()
RL = 3000
CAL = None


def z3_check(assertions, linear, timeout_ms):
    """satisfiability of the conjunction; returns (res, model, abstracted)"""
    e = Enc(linear)
    fs = [e.enc(a) for a in assertions]
    s = z3.SimpleSolver() if linear else z3.Solver()
    # a resource limit makes the answer independent of the machine's load
    s.set('timeout', int(timeout_ms) * 2)
    s.set('rlimit', int(timeout_ms * RL))
    for d in e.defs:
        s.add(d)
    for f in fs:
        s.add(f)
    t0 = time.time()
    WATCH.arm(t0 + int(timeout_ms) / 1000. * 2.5 + 0.5)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    WATCH.disarm()
    dt = time.time() - t0
    if CAL is not None:
        CAL.append((dt, [s.statistics().get_key_value('rlimit count')], linear, str(r)))
    model = None
    if r == z3.sat and not linear:
        m = s.model()
        model = {}
        for t, v in e.vars.items():
            x = m.eval(v, model_completion=True)
            try:
                if z3.is_true(x) or z3.is_false(x):
                    model[t] = bool(z3.is_true(x))
                elif z3.is_algebraic_value(x):
                    x = x.approx(20)
                    model[t] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                else:
                    model[t] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            except Exception:
                pass
    return str(r), model, e.abstracted, dt


def cvc5_check(assertions, timeout_ms):
    """the same formula through cvc5 (SMT-LIB text exported by z3)"""
    e = Enc(False)
    fs = [e.enc(a) for a in assertions]
    s = z3.Solver()
    for f in e.defs + fs:
        s.add(f)
    text = s.to_smt2()
    text = '(set-logic ALL)\n' + text.replace('(set-info :status unknown)', '')
    import cvc5
    tm_ = cvc5.TermManager()
    sl = cvc5.Solver(tm_)
    sl.setOption('tlimit-per', str(int(timeout_ms)))
    p = cvc5.InputParser(sl)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'vc')
    sm = p.getSymbolManager()
    out = None
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        o = c.invoke(sl, sm)
        if 'unsat' in o:
            out = 'unsat'
        elif 'sat' in o:
            out = 'sat'
    return out or 'unknown'


def negate(t):
    return tm.b_not(t)


def bool_atoms(ts):
    return [x for x in tm.subterms(ts) if x.sort == 'B' and x.op not in ('and', 'or', 'not', 'true', 'false')]


def literals_map(hyps):
    """boolean substitution implied by hypotheses"""
    m = {}
    for h in hyps:
        if h.op == 'not':
            m[h.args[0]] = FALSE
        elif h not in (TRUE, FALSE):
            m[h] = TRUE
        if h.op == 'lt':
            d = h.args[0]
            m.setdefault(tm._cmp('eq', d), FALSE)
            m.setdefault(tm._cmp('le', d), TRUE)
            nd = tm.t_neg(d)
            m.setdefault(tm._cmp('lt', nd), FALSE)
            m.setdefault(tm._cmp('le', nd), FALSE)
        elif h.op == 'not' and h.args[0].op == 'le':
            nd = tm.t_neg(h.args[0].args[0])
            m.setdefault(tm._cmp('lt', nd), TRUE)
            m.setdefault(tm._cmp('le', nd), TRUE)
            m.setdefault(tm._cmp('eq', nd), FALSE)
        elif h.op == 'le':
            nd = tm.t_neg(h.args[0])
            m.setdefault(tm._cmp('lt', nd), FALSE)
        elif h.op == 'not' and h.args[0].op == 'lt':
            nd = tm.t_neg(h.args[0].args[0])
            m.setdefault(tm._cmp('le', nd), TRUE)
        elif h.op == 'eq':
            d = h.args[0]
            m.setdefault(tm._cmp('le', d), TRUE)
            m.setdefault(tm._cmp('lt', d), FALSE)
            m.setdefault(tm._cmp('le', tm.t_neg(d)), TRUE)
            m.setdefault(tm._cmp('lt', tm.t_neg(d)), FALSE)
        # propositional contradiction
    m.pop(TRUE, None)
    m.pop(FALSE, None)
    return m


def flatten(hyps):
    out = []
    seen = set()
    st = list(hyps)[::-1]
    while st:
        h = st.pop()
        if h in seen or h is TRUE:
            continue
        seen.add(h)
        if h.op == 'and':
            st.extend(h.args[::-1])
        elif h.op == 'not' and h.args[0].op == 'or':
            st.extend(tm.b_not(a) for a in h.args[0].args[::-1])
        else:
            out.append(h)
    return out


def propagate(hyps, goal):
    """unit propagation of literal hypotheses into the others and the goal.
    Returns (hyps, goal) or (None, None) when the hypotheses are contradictory."""
    hyps = flatten(hyps)
    for _ in range(6):
        lits = [h for h in hyps if h.op not in ('or', 'and')]
        m = literals_map(lits)
        eqs = {}
        for h in lits:
            if h.op == 'eq':
                d = h.args[0]
                v, e = _solve_for(d)
                if v is not None and v not in eqs:
                    eqs[v] = e
        for h in lits:
            if h is FALSE or m.get(h) is FALSE or (h.op == 'not' and m.get(h.args[0]) is TRUE):
                return None, None
        litset = set(lits)
        new = []
        chg = False
        memo = {}
        for h in hyps:
            if h in litset:
                # simplify inside a literal's own ites only
                new.append(h)
                continue
            s = tm.subst_bool(h, m, memo)
            if s is not h:
                chg = True
            if s is FALSE:
                return None, None
            if s is not TRUE:
                new.append(s)
        goal2 = tm.subst_bool(goal, m, memo) if goal is not None else None
        new = flatten(new)
        if goal2 is goal and not chg:
            hyps = new
            break
        goal = goal2
        hyps = new
    # literals whose atoms contain ites decided by other literals
    out = []
    lits = [h for h in hyps if h.op not in ('or', 'and')]
    for h in hyps:
        if h.op in ('eq', 'lt', 'le', 'not') and has_ite(h):
            m = literals_map([x for x in lits if x is not h])
            s = tm.subst_bool(h, m, {})
            if s is FALSE:
                return None, None
            if s is TRUE:
                continue
            out.append(s)
        else:
            out.append(h)
    return out, goal


def _solve_for(d):
    return None, None


_hi = {}


def has_ite(t):
    r = _hi.get(t)
    if r is None:
        if t.op == 'ite':
            r = True
        elif t.op in ('const', 'var', 'row', 'pi', 'rownum', 'agg', 'card', 'true', 'false'):
            r = False
        else:
            r = any(has_ite(a) for a in t.args)
        _hi[t] = r
    return r


def first_split(goal, hyps):
    """condition of an innermost-free ite to split on"""
    best = None
    for t in tm.subterms([goal]):
        if t.op == 'ite':
            c = t.args[0]
            if has_ite(c):
                continue
            a = c
            while a.op in ('and', 'or', 'not'):
                a = min(a.args, key=lambda x: x.id)
            k = (a.id,)
            if best is None or k < best[0]:
                best = (k, a)
    return best[1] if best else None


class Prover(object):
    """Proves closed goals under hypotheses; ``facts`` supplies ground axioms."""

    def __init__(self, ctx, timeout=20.0, maxsplit=4000):
        self.ctx = ctx
        self.timeout = timeout
        self.maxsplit = maxsplit
        self.budget = 0
        self.qmemo = {}

    # ---- quick: linear abstraction, short
    def quick_unsat(self, hyps, ms=400, nra_ms=0):
        hyps = flatten(hyps)
        if any(h is FALSE for h in hyps):
            return True
        key = (frozenset(hyps), nra_ms > 0)
        r = self.qmemo.get(key)
        if r is not None:
            return r
        t0 = time.time()
        STATS['quick_calls'] += 1
        h2, _ = propagate(hyps, TRUE)
        if h2 is None:
            r = True
        else:
            fs = self.ctx.facts(h2)
            res, _, _, _ = z3_check(h2 + fs, True, ms)
            r = res == 'unsat'
            if not r and nra_ms:
                res, _, _, _ = z3_check(h2 + fs, False, nra_ms)
                r = res == 'unsat'
        STATS['quick_s'] += time.time() - t0
        self.qmemo[key] = r
        return r

    def prove(self, hyps, goal):
        self.budget = self.maxsplit
        self.deadline = time.time() + self.ctx.ob_timeout
        return self._prove(list(hyps), goal, 0)

    def _prove(self, hyps, goal, depth):
        hyps, goal = propagate(hyps, goal)
        if hyps is None or goal is TRUE:
            STATS['trivial'] += 1
            return Result('proved', 'trivial')
        if goal.op == 'and':
            back = None
            for g in sorted(goal.args, key=lambda g: g.id):
                r = self._prove(hyps, g, depth)
                if not r:
                    return r
                back = r.backend
            return Result('proved', back)
        if goal.op == 'or':
            # keep one disjunct as goal, negate the rest into the hypotheses
            pos = [g for g in goal.args if g.op in ('eq', 'and', 'le', 'lt')]
            eqs = [g for g in pos if g.op == 'eq'] or [g for g in pos if g.op == 'and'] or pos
            keep = eqs[-1] if eqs else goal.args[-1]
            rest = [g for g in goal.args if g is not keep]
            return self._prove(hyps + [tm.b_not(g) for g in rest], keep, depth)
        if goal.op == 'not' and goal.args[0].op == 'and':
            xs = goal.args[0].args
            return self._prove(hyps + list(xs[:-1]), tm.b_not(xs[-1]), depth)
        if time.time() > self.deadline:
            return Result('unknown', None, why='time')
        if goal.op == 'eq' and not has_ite(goal):
            try:
                if self.ctx.identity(hyps, goal.args[0]):
                    STATS['identity'] += 1
                    return Result('proved', 'identity')
            except (TooBig, Unsupported, RecursionError):
                pass
        lit = goal.args[0] if goal.op == 'not' else goal
        if lit.op in ('le', 'lt', 'eq') and not has_ite(goal):
            if self.by_normal_form(hyps, goal):
                STATS['identity'] += 1
                return Result('proved', 'identity')
        # case split on conditional terms / disjunctions, pruned by the linear back end
        c = first_split(goal, hyps) if has_ite(goal) else None
        if c is None and depth < 14:
            r = self.leaf_quick(hyps, goal)
            if r is not None:
                return r
            ors = [h for h in hyps if h.op == 'or']
            if ors:
                o = min(ors, key=lambda h: (len(h.args), h.id))
                c = min(o.args, key=lambda h: h.id)
                while c.op in ('and', 'or', 'not'):
                    c = min(c.args, key=lambda h: h.id)
            else:
                hi = [h for h in hyps if has_ite(h)]
                if hi and depth < 10:
                    c = first_split(hi[0], hyps)
        if c is not None and self.budget > 0:
            self.budget -= 1
            last = None
            for lit in (c, tm.b_not(c)):
                h2 = hyps + [lit]
                if self.quick_unsat(h2):
                    continue
                r = self._prove(h2, goal, depth + 1)
                if not r:
                    return r
                last = r
            return last or Result('proved', 'lra')
        return self.leaf(hyps, goal)

    def by_normal_form(self, hyps, goal):
        """contradiction between literals once their arguments are in normal form"""
        lits = []
        for h in hyps + [tm.b_not(goal)]:
            a = h.args[0] if h.op == 'not' else h
            if a.op in ('le', 'lt', 'eq') and not has_ite(a):
                lits.append(self.ctx.normalise_atom(h))
        if any(l is FALSE for l in lits):
            return True
        h2, _ = propagate(lits, TRUE)
        if h2 is None:
            return True
        return self.quick_unsat(lits)

    def leaf_quick(self, hyps, goal):
        if goal is not FALSE and goal.op == 'eq':
            pass
        neg = hyps + ([tm.b_not(goal)] if goal is not FALSE else [])
        if self.quick_unsat(neg, 1500):
            STATS['lra'] += 1
            return Result('proved', 'lra')
        return None

    def leaf(self, hyps, goal):
        neg = hyps + ([tm.b_not(goal)] if goal is not FALSE else [])
        r = self.leaf_quick(hyps, goal)
        if r is not None:
            return r
        return self.nra(neg)

    def nra(self, neg):
        ctx = self.ctx
        t0 = time.time()
        norm = []
        for h in neg:
            norm.append(ctx.normalise_atom(h))
        if any(h is FALSE for h in norm):
            return Result('proved', 'identity')
        fs = ctx.facts(norm)
        core = relevant(norm, fs)
        last = None
        tries = [(core, 4000), (norm + fs, 8000), (neg + ctx.facts(neg), 8000)]
        if len(core) == len(norm) + len(fs):
            tries = tries[1:]
        tmo = self.timeout * 1000
        for k, (cl, ms) in enumerate(tries + [(norm + fs, tmo)]):
            if time.time() > self.deadline and k:
                break
            res, model, abst, dt = z3_check(cl, False, min(ms, tmo))
            STATS['solver_s'] += dt
            if res == 'unsat':
                STATS['nra'] += 1
                return Result('proved', 'nra')
            if res == 'sat':
                last = Result('sat', 'nra', model, abst)
                if cl is not core:
                    break
        if last is not None:
            STATS['failed'] += 1
            return last
        if ctx.use_cvc5:
            try:
                res = cvc5_check(norm + fs, min(tmo, 15000))
                if res == 'unsat':
                    STATS['cvc5'] += 1
                    return Result('proved', 'cvc5')
            except Exception:
                pass
        STATS['failed'] += 1
        return Result('unknown', None, why='timeout')


def atoms_of(t):
    return {x for x in tm.subterms([t]) if x.op in ('var', 'sqrt', 'sin', 'cos', 'div', 'floor', 'atan2', 'acos', 'card', 'agg', 'uf')}


def relevant(norm, fs):
    """hypotheses sharing an atom with the (last) negated goal, two hops"""
    if len(norm) + len(fs) < 12:
        return norm + fs
    goal = norm[-1]
    sel = {goal}
    at = atoms_of(goal)
    rest = norm[:-1] + fs
    A = {h: atoms_of(h) for h in rest}
    for _ in range(2):
        add = [h for h in rest if h not in sel and A[h] & at]
        for h in add:
            sel.add(h)
        for h in add:
            if len(A[h]) < 8:
                at |= A[h]
    return [h for h in rest if h in sel] + [goal]
