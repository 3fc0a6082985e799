"""Discharging obligations: normaliser first, then z3, then cvc5."""
from fractions import Fraction
import sys, time, os, subprocess, tempfile
import z3
import term as tm
from term import T
import poly

z3.set_param('smt.random_seed', 1)

class Stats(object):
    def __init__(self):
        self.t = {'norm': 0.0, 'z3': 0.0, 'cvc5': 0.0}
        self.n = {'trivial': 0, 'norm': 0, 'z3': 0, 'cvc5': 0}
        self.queries = 0
        self.unknown = 0

STATS = Stats()

UF1 = {}

def zconst(v, sort):
    if sort == 'R':
        v = Fraction(v)
        return z3.RealVal(str(v.numerator)) / z3.RealVal(str(v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
    if sort == 'B': return z3.BoolVal(v)
    return z3.IntVal(v)

def zsort(s):
    if s == 'R': return z3.RealSort()
    if s == 'B': return z3.BoolSort()
    if isinstance(s, tuple): return z3.ArraySort(z3.IntSort(), zsort(s[1]))
    return z3.IntSort()

def psort(v):
    if isinstance(v, bool): return 'B'
    if isinstance(v, int): return 64
    return 'R'

def zt(t):
    """translate to z3 (iterative, cached on the term)"""
    if not isinstance(t, T): return zconst(t, psort(t))
    if t.z is not None: return t.z
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None: stack.pop(); continue
        pend = [a for a in x.args if isinstance(a, T) and a.z is None]
        if pend: stack.extend(pend); continue
        stack.pop()
        x.z = zt1(x)
    return t.z

def za(a, sort=None):
    if isinstance(a, T): return a.z
    return zconst(a, sort if sort else psort(a))

def zt1(x):
    op, a = x.op, x.args
    if op == 'var': return z3.Const(a[0], zsort(x.sort))
    if op == 'not': return z3.Not(za(a[0]))
    if op == 'and': return z3.And(*[za(i) for i in a])
    if op == 'or': return z3.Or(*[za(i) for i in a])
    if op == 'ite':
        s = x.sort
        return z3.If(za(a[0]), za(a[1], s), za(a[2], s))
    if op in ('beq', 'ieq'): return za(a[0]) == za(a[1])
    if op == 'req': return za(a[0], 'R') == za(a[1], 'R')
    if op == 'ile': return za(a[0]) <= za(a[1])
    if op == 'rle': return za(a[0], 'R') <= za(a[1], 'R')
    if op == 'iadd': return za(a[0]) + za(a[1])
    if op == 'isub': return za(a[0]) - za(a[1])
    if op == 'imul': return za(a[0]) * za(a[1])
    if op == 'wrapw':
        w = a[1]; h = 1 << (w - 1)
        return (za(a[0]) + h) % (1 << w) - h
    if op == 'uext':
        w = a[1]
        return z3.If(za(a[0]) < 0, za(a[0]) + (1 << w), za(a[0]))
    if op == 'sdiv':
        p, q = za(a[0]), za(a[1])
        if not isinstance(a[1], T) and a[1] > 0:
            if tm.lo(a[0]) >= 0: return p / q
            return z3.If(p >= 0, p / q, -((-p) / q))
        return z3.If(z3.And(p >= 0, q > 0), p / q, z3.If(z3.And(p >= 0, q < 0), -(p / -q), z3.If(q > 0, -((-p) / q), (-p) / (-q))))
    if op == 'srem':
        p, q = za(a[0]), za(a[1])
        aq = z3.If(q < 0, -q, q)
        if tm.lo(a[0]) >= 0: return p % aq
        return z3.If(p >= 0, p % aq, -((-p) % aq))
    if op == 'band':
        w = a[2]
        return z3.BV2Int(z3.Int2BV(za(a[0]), w) & z3.Int2BV(za(a[1]), w), True)
    if op == 'bor':
        w = a[2]
        return z3.BV2Int(z3.Int2BV(za(a[0]), w) | z3.Int2BV(za(a[1]), w), True)
    if op == 'bxor':
        w = a[2]
        return z3.BV2Int(z3.Int2BV(za(a[0]), w) ^ z3.Int2BV(za(a[1]), w), True)
    if op == 'shl':
        w = a[2]
        return z3.BV2Int(z3.Int2BV(za(a[0]), w) << z3.Int2BV(za(a[1]), w), True)
    if op == 'lshr':
        w = a[2]
        return z3.BV2Int(z3.LShR(z3.Int2BV(za(a[0]), w), z3.Int2BV(za(a[1]), w)), True)
    if op == 'ashr':
        w = a[2]
        return z3.BV2Int(z3.Int2BV(za(a[0]), w) >> z3.Int2BV(za(a[1]), w), True)
    if op == 'radd': return za(a[0], 'R') + za(a[1], 'R')
    if op == 'rmul': return za(a[0], 'R') * za(a[1], 'R')
    if op == 'rdiv': return za(a[0], 'R') / za(a[1], 'R')
    if op == 'toreal': return z3.ToReal(za(a[0]))
    if op == 'rfloor': return z3.ToInt(za(a[0], 'R'))
    if op == 'uf':
        args = a[1:]
        srts = [zsort('R' if isinstance(i, Fraction) else (i.sort if isinstance(i, T) else psort(i))) for i in args]
        f = z3.Function('uf_' + a[0], *(srts + [zsort(x.sort)]))
        return f(*[za(i) for i in args])
    if op == 'select': return za(a[0])[za(a[1])]
    if op == 'store': return z3.Store(za(a[0]), za(a[1]), za(a[2], x.sort[1]))
    if op == 'kconst': return z3.K(z3.IntSort(), za(a[0], x.sort[1]))
    raise Exception('zt ' + op)

AXQ = [()]
def atan2_bound(t, z, pi):
    """pi/2 - |atan2(y,x)| >= x/r for x >= 0 when r = |(x,y)| is a known constant"""
    y, x = t.args[1], t.args[2]
    try:
        n = poly.Norm(AXQ[0])
        e = tm.radd(tm.rmul(x, x), tm.rmul(y, y))
        n.prepass([e])
        r = n.g(e)
        if not poly.isone(r.d) or list(r.n) != [0]: return None
        k = Fraction(r.n[0])
        if k <= 0: return None
        import math
        ub = Fraction(math.isqrt(int(k * 10**12)) + 2, 10**6)
        a = z3.If(z >= 0, z, -z)
        xx = za_(x)
        yy = za_(y)
        return z3.And(z3.Implies(xx >= 0, (pi / 2 - a) * zconst(ub, 'R') >= xx), xx * xx + yy * yy == zconst(k, 'R'), z3.Implies(xx == 0, z3.Or(z == pi / 2, z == -pi / 2)))
    except (poly.HasIte, poly.TooBig, ZeroDivisionError):
        return None

def axioms(roots):
    """instances of the axioms for the function symbols and ranges of the integer unknowns that occur"""
    ax = []
    pi_used = False
    for t in tm.subterms(roots):
        if t.op in ('var', 'select') and isinstance(t.sort, int):
            z = zt(t)
            ax.append(z3.And(z >= t.lo, z <= t.hi))
        if t is poly.PI: pi_used = True
        if t.op == 'uf':
            n, args = t.args[0], t.args[1:]
            z = zt(t)
            if n == 'sqrt':
                x = za_(args[0])
                ax.append(z3.And(x >= 0, z >= 0, z * z == x) if tm.nonneg(args[0]) else z3.Implies(x >= 0, z3.And(z >= 0, z * z == x)))
            elif n in ('sin', 'cos'):
                s = zt(tm.uf('sin', args))
                c = zt(tm.uf('cos', args))
                ax.append(s * s + c * c == 1)
                ax.append(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
                A = args[0]
                if isinstance(A, T) and A.op == 'uf' and A.args[0] in ('asin', 'acos'):
                    X = za_(A.args[1])
                    if A.args[0] == 'asin': ax.append(z3.Implies(z3.And(X >= -1, X <= 1), z3.And(s == X, c >= 0)))
                    else: ax.append(z3.Implies(z3.And(X >= -1, X <= 1), z3.And(c == X, s >= 0)))
            elif n == 'acos':
                pi_used = True
                x = za_(args[0])
                pi = zt(poly.PI)
                ax.append(z3.And(z >= 0, z <= pi))
                ax.append(z3.Implies(x >= 1, z == 0))
                ax.append(z3.Implies(x == 0, z == pi / 2))
                ax.append(z3.Implies(x == -1, z == pi))
                ax.append(z3.Implies(z3.And(x < 1, x >= -1), z > 0))
                ax.append(z3.Implies(z3.And(x > 0, x <= 1), z < pi / 2))
            elif n == 'asin':
                pi_used = True
                pi = zt(poly.PI)
                x = za_(args[0])
                ax.append(z3.And(z >= -pi / 2, z <= pi / 2))
                ax.append(z3.And(z3.Implies(x == 0, z == 0), z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0)))
            elif n == 'atan':
                pi_used = True
                pi = zt(poly.PI)
                x = za_(args[0])
                ax.append(z3.And(z > -pi / 2, z < pi / 2))
                ax.append(z3.And(z3.Implies(x == 0, z == 0), z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0)))
            elif n == 'atan2':
                pi_used = True
                pi = zt(poly.PI)
                y, x = za_(args[0]), za_(args[1])
                ax.append(z3.And(z >= -pi, z <= pi))
                ax.append(z3.Implies(z3.And(y == 0, x >= 0), z == 0))
                ax.append(z3.Implies(z3.And(y == 0, x < 0), z == pi))
                ax.append(z3.Implies(y > 0, z3.And(z > 0, z < pi)))
                ax.append(z3.Implies(y < 0, z3.And(z < 0, z > -pi)))
                ax.append(z3.Implies(z3.And(x > 0), z3.And(z < pi / 2, z > -pi / 2)))
                b = atan2_bound(t, z, pi)
                if b is not None: ax.append(b)
                ax.append(z3.Implies(z3.And(x == 0, y > 0), z == pi / 2))
                ax.append(z3.Implies(z3.And(x == 0, y < 0), z == -pi / 2))
            elif n == 'exp':
                ax.append(z > 0)
    if pi_used or poly.PI.z is not None:
        pi = zt(poly.PI)
        ax.append(z3.And(pi > z3.RealVal('31415926535') / z3.RealVal('10000000000'), pi < z3.RealVal('31415926536') / z3.RealVal('10000000000')))
    return ax

def za_(a):
    return zt(a) if isinstance(a, T) else zconst(a, 'R' if isinstance(a, Fraction) else psort(a))

def rel_slice(pc, goal_roots):
    """cone of influence: keep the path conditions that (transitively) share a variable with the goal"""
    def vs(t):
        if not isinstance(t, T): return frozenset()
        if t.aux is None:
            t.aux = frozenset(x.id for x in tm.subterms([t]) if x.op in ('var',))
        return t.aux
    cur = set()
    for g in goal_roots: cur |= vs(g)
    rest = [(c, vs(c)) for c in pc if isinstance(c, T)]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c, v in rest:
            if v & cur or not v:
                out.append(c); cur |= v; changed = True
            else: nr.append((c, v))
        rest = nr
    return out

_sat_cache = {}
SLOW = os.environ.get('VC_SLOW')
RLF = float(os.environ.get('RLF', '0'))
TMF = float(os.environ.get('TMF', '1.5'))

def check(conds, timeout_ms=2000, quats=(), want_model=False):
    """satisfiability of a conjunction: 'sat', 'unsat', 'unknown'"""
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds): return ('unsat', None) if want_model else 'unsat'
    key = (frozenset(c.id for c in conds), timeout_ms)
    if not want_model:
        r = _sat_cache.get(key)
        if r is not None: return r
    STATS.queries += 1
    t0 = time.time()
    s = z3.Solver()
    if RLF: s.set('rlimit', int(timeout_ms * RLF))
    s.set('timeout', int(timeout_ms * TMF))
    zs = [zt(c) for c in conds]
    AXQ[0] = quats
    for a in axioms(conds): s.add(a)
    names = set()
    for t in tm.subterms(conds):
        if t.op == 'var': names.add(t)
    for q in quats:
        if any(v in names for v in q):
            s.add(sum((zt(v) * zt(v) for v in q[1:]), zt(q[0]) * zt(q[0])) == 1)
    for z in zs: s.add(z)
    r = str(s.check())
    m = None
    if r == 'sat' and want_model: m = s.model()
    STATS.t['z3'] += time.time() - t0
    if SLOW and time.time() - t0 > float(SLOW):
        import traceback
        sys.stderr.write('SLOW %.1f %s\n' % (time.time() - t0, r)); traceback.print_stack(limit=4)
    if r == 'unknown': STATS.unknown += 1
    if not want_model:
        _sat_cache[key] = r
        return r
    return r, m

# ---- abstraction: shared non-linear subterms become opaque; unsatisfiability carries over
def abstract(conds):
    par = {}
    order = []
    for t in tm.subterms(conds):
        for a in t.args:
            if isinstance(a, T) and a.sort == 'R' and a.op in ('radd', 'rmul', 'rdiv'):
                par.setdefault(a, set()).add(t.id)
    nl = {}
    def nonlinear(t):
        r = nl.get(t.id)
        if r is None:
            nl[t.id] = False
            if t.op in ('rmul', 'rdiv') and isinstance(t.args[1], T): r = True
            else: r = any(isinstance(a, T) and a.op in ('radd', 'rmul', 'rdiv') and nonlinear(a) for a in t.args)
            nl[t.id] = r
        return r
    cand = set(t for t, ps in par.items() if len(ps) >= 2 and nonlinear(t))
    if not cand: return None
    inner = {}
    def hascand(t):
        r = inner.get(t.id)
        if r is None:
            r = any(isinstance(a, T) and (a in cand or hascand(a)) for a in t.args)
            inner[t.id] = r
        return r
    m = {}
    for t in cand:
        if not hascand(t): m[t] = tm.var('abs!%d' % t.id, 'R')
    cache = {}
    return [tm.subst(c, m, cache) for c in conds] + [tm.rcmp('le', Fraction(0), v) for t, v in m.items() if tm.nonneg(t)]

def check2(raw, c, quats, timeout_ms):
    """satisfiability of the path condition raw and c: abstraction first, then normalised"""
    sl = rel_slice(raw, [c])
    try:
        ab = abstract(sl + [c])
    except RecursionError: ab = None
    if ab is not None and check(ab, min(150, timeout_ms), ()) == 'unsat': return 'unsat'
    nc = nb(c, quats)
    if nc is False: return 'unsat'
    pc = [nb(x, quats) for x in raw]
    if False in pc: return 'unsat'
    if nc is True: sl = pc
    else: sl = rel_slice(pc, [nc]) + [nc]
    return check(sl, timeout_ms, quats)

def smt2(conds, quats=()):
    s = z3.Solver()
    for a in axioms(conds): s.add(a)
    names = set(t for t in tm.subterms(conds) if t.op == 'var')
    for q in quats:
        if any(v in names for v in q):
            s.add(sum((zt(v) * zt(v) for v in q[1:]), zt(q[0]) * zt(q[0])) == 1)
    for c in conds: s.add(zt(c))
    return s.to_smt2()

def cvc5_check(conds, quats=(), timeout_s=10):
    t0 = time.time()
    try:
        txt = '(set-logic ALL)\n' + smt2(conds, quats)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout_s + 5)
            r = o.stdout.decode().strip().split('\n')[0]
        finally:
            os.unlink(f.name)
    except Exception:
        r = 'unknown'
    STATS.t['cvc5'] += time.time() - t0
    return r if r in ('sat', 'unsat') else 'unknown'

# ------------------------------------------------------------------ normaliser driven proof of equalities
class Prover(object):
    def __init__(self, pc, quats, timeout_ms=5000, budget=60.0):
        self.pc = pc
        self.quats = quats
        self.timeout = timeout_ms
        self.deadline = time.time() + budget
        self.backend = None
        self.splits = 0
        self.failinfo = None
        self.ftimeout = 700

    def feasible(self, extra, ms=None):
        ft = ms or self.ftimeout
        pc = [c for c in list(self.pc) + list(extra[:-1]) if c is not True]
        if not extra: return check([nb(c, self.quats) for c in pc], ft, self.quats) != 'unsat'
        if extra[-1] is True: return True
        if extra[-1] is False: return False
        return check2(pc, extra[-1], self.quats, ft) != 'unsat'

    def split_conds(self, t):
        """conditions of the ites in the term (outermost first)"""
        for x in tm.subterms([t]):
            if x.op == 'ite': yield x.args[0]

    def prove_eq(self, a, b, extra=(), m=None, depth=0):
        """a == b under pc + extra, by normalisation with case splits.  True / None / ('cex', extra)"""
        if time.time() > self.deadline: return None
        if not isinstance(a, T) and not isinstance(b, T):
            if a == b: return True
            return ('cex', extra)
        t0 = time.time()
        try:
            n = poly.Norm(self.quats)
            n.learn(self.pc); n.learn(extra)
            n.sub = {}
            n.prepass([a, b])
            eqs = [c for c in list(self.pc) + list(extra) if isinstance(c, T) and c.op == 'req']
            try:
                z, res = n.iszero(a, b)
                if not z and eqs:
                    done = 0
                    for c in eqs:
                        try:
                            if n.rule_from_eq(c.args[0], c.args[1]): done += 1
                        except poly.HasIte: pass
                    if done:
                        z, res = n.iszero(a, b)
            finally:
                STATS.t['norm'] += time.time() - t0
            if not z:
                # variables pinned to zero by the path condition
                vs = set()
                for mo in res:
                    i = 0
                    while mo:
                        if mo & poly.MASK and isinstance(n.atoms[i], T) and n.atoms[i].op == 'var': vs.add(i)
                        mo >>= poly.BITS; i += 1
                rules = 0
                if len(vs) <= 8:
                    for i in sorted(vs):
                        v = n.atoms[i]
                        if v.sort == 'R' and not self.feasible(tuple(extra) + (tm.Not(tm.rcmp('eq', v, Fraction(0))),)):
                            if n.rule_from_eq(v, Fraction(0)): rules += 1
                if rules:
                    try: z, res = n.iszero(a, b)
                    except ZeroDivisionError: return ('res', extra)
            if z: return True
            if os.environ.get('VC_DEBUG'):
                print('RESIDUAL', tm.show(a, 12)[:600], '===', tm.show(b, 12)[:600])
                for c in extra: print('    under', tm.show(nb(c, self.quats), 12)[:300])
                for c in self.pc: print('    pc', tm.show(nb(c, self.quats), 12)[:300])
                def am(i):
                    x = n.atoms[i]
                    if isinstance(x, T): return tm.show(x, 6)
                    if x[0] == 'sqrt': return 'sqrt(' + pp(x[1]) + (' / ' + pp(x[2]) if not poly.isone(x[2]) else '') + ')'
                    return str(x)[:120]
                def pp(q):
                    o = []
                    for m, c in list(q.items())[:12]:
                        i = 0; s = str(c)
                        while m:
                            if m & poly.MASK: s += '*%s^%d' % (am(i), m & poly.MASK)
                            m >>= poly.BITS; i += 1
                        o.append(s)
                    return ' + '.join(o) + (' ...%d' % len(q) if len(q) > 12 else '')
                print('    residual', pp(res)[:1500])
            return ('res', extra)
        except poly.HasIte as h:
            ht = h.t
        except poly.TooBig:
            return None
        except ZeroDivisionError:
            # denominator is identically zero on this branch: infeasible if the executor forked on it
            return ('res', extra)
        c = ht.args[0]
        c = self.atomic(c)
        self.splits += 1
        if depth > 24: return None
        worst = True
        for val in (True, False):
            lit = c if val else tm.Not(c)
            ne = tuple(extra) + (lit,)
            mm = {c: val}
            a2 = tm.subst(a, mm)
            b2 = tm.subst(b, mm)
            if not self.feasible(ne, 100): continue
            r = self.prove_eq(a2, b2, ne, m, depth + 1)
            if r is True: continue
            if r and r[1] is ne and self.leaf(a2, b2, ne): continue
            return r
        return worst

    def leaf(self, a, b, extra):
        """a case of the split the normaliser could not settle: infeasible, or provable by the solver?"""
        if time.time() > self.deadline: return False
        if not self.feasible(extra): return True
        g = nb(tm.rcmp('eq', a, b), self.quats)
        if g is True: return True
        pcl = [nb(c, self.quats) for c in list(self.pc) + list(extra) if c is not True]
        sl = rel_slice(pcl, [g])
        return check(sl + [tm.Not(g)], min(2000, self.timeout), self.quats) == 'unsat'

    def atomic(self, c):
        while True:
            if c.op in ('and', 'or', 'not'): c = c.args[0]; continue
            if c.op == 'ite': c = c.args[0]; continue
            if c.op == 'beq': c = c.args[0]; continue
            # an atomic comparison whose operands contain ites: split on these first
            for x in tm.subterms([c]):
                if x.op == 'ite': 
                    c2 = x.args[0]
                    if c2 is not c: c = c2; break
            else:
                return c

    def prove(self, goal):
        """goal boolean term. returns (verdict, info) verdict in proved/refuted/unknown"""
        if goal is True:
            STATS.n['trivial'] += 1
            self.backend = 'trivial'
            return 'proved', None
        pcl = [c for c in self.pc if c is not True]
        if any(c is False for c in pcl):
            self.backend = 'trivial'
            return 'proved', None
        if goal is False:
            r, m = check(pcl, self.timeout, self.quats, True)
            if r == 'unsat': self.backend = 'z3'; return 'proved', None
            return ('refuted', m) if r == 'sat' else ('unknown', None)
        goals = list(goal.args) if goal.op == 'and' else [goal]
        left = []
        bk = set()
        for g in goals:
            if isinstance(g, T) and g.op == 'req':
                r = self.prove_eq(g.args[0], g.args[1])
                if r is True: bk.add('norm'); continue
            elif isinstance(g, T) and g.op in ('rle', 'not'):
                s = self.trysign(g)
                if s: bk.add('norm'); continue
            left.append(g)
        if not left:
            self.backend = 'norm'
            STATS.n['norm'] += 1
            return 'proved', None
        g = tm.And(*left)
        if g is True: self.backend = 'norm'; return 'proved', None
        sl = rel_slice(pcl, [g])
        try: ab = abstract(sl + [tm.Not(g)])
        except RecursionError: ab = None
        if ab is not None and check(ab, 300, ()) == 'unsat':
            self.backend = 'z3'
            STATS.n['z3'] += 1
            return 'proved', None
        r, m = check(sl + [tm.Not(g)], self.timeout, self.quats, True)
        if r == 'unsat':
            self.backend = 'z3'
            STATS.n['z3'] += 1
            return 'proved', None
        if r == 'sat':
            if len(sl) != len(pcl):
                r2, m2 = check(pcl + [tm.Not(g)], self.timeout, self.quats, True)
                if r2 == 'unsat':
                    self.backend = 'z3'; STATS.n['z3'] += 1
                    return 'proved', None
                if r2 == 'sat': m = m2
            return 'refuted', m
        # normalise comparisons then retry
        v = self.prove_split(g, (), 0)
        if v is True:
            self.backend = 'norm+z3'
            STATS.n['z3'] += 1
            return 'proved', None
        if cvc5_check(sl + [tm.Not(g)], self.quats, max(5, self.timeout / 1000.0)) == 'unsat':
            self.backend = 'cvc5'
            STATS.n['cvc5'] += 1
            return 'proved', None
        return 'unknown', None

    def trysign(self, g):
        neg = g.op == 'not'
        c = g.args[0] if neg else g
        if not isinstance(c, T) or c.op not in ('rle', 'req'): return False
        if c.op == 'rle' and not isinstance(c.args[0], T) and c.args[0] <= 0 and tm.nonneg(c.args[1]): return not neg
        try:
            n = poly.Norm(self.quats)
            n.learn(self.pc)
            d = tm.rsub(c.args[1], c.args[0])
            n.prepass([d])
            s = n.sign(d)
            if s is None:
                # a constant?
                r = n.g(d)
                return False
            if c.op == 'rle':
                return s == '<0' if neg else s in ('>0', '>=0', '=0')
            return s in ('>0', '<0') if neg else s == '=0'
        except (poly.HasIte, poly.TooBig, ZeroDivisionError):
            return False

    def prove_split(self, g, extra, depth):
        """case split on ites, normalise both sides of each comparison and ask z3 again"""
        if time.time() > self.deadline or depth > 10: return None
        if g is True: return True
        if g is False: return None if self.feasible(extra) else True
        it = None
        for x in tm.subterms([g]):
            if x.op == 'ite': it = x; break
        if it is not None:
            c = self.atomic(it.args[0])
            for val in (True, False):
                lit = c if val else tm.Not(c)
                ne = tuple(extra) + (lit,)
                if not self.feasible(ne): continue
                r = self.prove_split(tm.subst(g, {c: val}), ne, depth + 1)
                if r is not True: return r
            return True
        pcl = [c for c in self.pc if c is not True] + list(extra)
        if self.trysign(g) : return True
        if g.op == 'req':
            r = self.prove_eq(g.args[0], g.args[1], extra)
            if r is True: return True
        s = norm_bool(tm.Not(g), self.quats)
        sl = rel_slice(pcl, [g])
        sl = [norm_bool(c, self.quats) for c in sl]
        if check(sl + [s], self.timeout, self.quats) == 'unsat': return True
        return None

def norm_bool(c, quats):
    """rewrite the real comparisons in c with normalised polynomials (denominators kept)"""
    if not isinstance(c, T): return c
    m = {}
    for x in tm.subterms([c]):
        if x.op in ('rle', 'req'):
            try:
                n = poly.Norm(quats)
                d = tm.rsub(x.args[1], x.args[0])
                n.prepass([d])
                r = n.g(d)
                if len(r.n) > 60 or len(r.d) > 60: continue
                t = rf_term(n, r)
                if t is None: continue
                y = tm.rcmp('le' if x.op == 'rle' else 'eq', Fraction(0), t)
                if y is not x: m[x] = y
            except (poly.HasIte, poly.TooBig, ZeroDivisionError):
                pass
    return tm.subst(c, m) if m else c

_nb_cache = {}
def nb(c, quats):
    """cached norm_bool, only for conditions with real comparisons that are worth normalising"""
    if not isinstance(c, T): return c
    k = (c.id, len(quats))
    r = _nb_cache.get(k)
    if r is None:
        t0 = time.time()
        r = norm_bool(c, quats) if worth(c) else c
        STATS.t['norm'] += time.time() - t0
        _nb_cache[k] = r
    return r

def worth(c):
    nl = 0
    n = 0
    for x in tm.subterms([c]):
        n += 1
        if n > 4000: return False
        if x.op in ('rmul', 'rdiv') and isinstance(x.args[0], T) and isinstance(x.args[1], T): nl += 1
        elif x.op == 'rdiv' and isinstance(x.args[1], T): nl += 1
        elif x.op == 'uf' and x.args[0] in ('sqrt', 'sin', 'cos', 'tan'): nl += 1
    return nl > 0

def rf_term(n, r):
    def atomterm(i):
        a = n.atoms[i]
        if isinstance(a, T): return tm.toreal(a) if isinstance(a.sort, int) else a
        if a[0] == 'sqrt':
            t = rf_term(n, poly.RF(a[1], a[2]))
            return tm.uf('sqrt', (t,)) if t is not None else None
        if a[0] == 'sqrtc': return tm.uf('sqrt', (Fraction(a[1]),))
        if a[0] in ('sinb', 'cosb'):
            if a[0] == 'sinb': k, rr, l = a[1], a[2], a[3]
            else: k, rr, l = a[1], a[2], a[3]
            t = rf_term(n, rr)
            if t is None: return None
            return tm.uf('sin' if a[0] == 'sinb' else 'cos', (tm.rmul(t, Fraction(1, l)),))
        if a[0] == 'uf':
            ar = []
            for x in a[2]:
                if isinstance(x, poly.RF):
                    x = rf_term(n, x)
                    if x is None: return a[3]
                ar.append(x)
            return tm.uf(a[1], tuple(ar), a[3].sort)
        return None
    def pt(p):
        s = Fraction(0)
        for m, c in sorted(p.items()):
            t = Fraction(c)
            mm = m
            i = 0
            while mm:
                e = mm & poly.MASK
                if e:
                    at = atomterm(i)
                    if at is None: return None
                    for _ in range(e): t = tm.rmul(t, at)
                mm >>= poly.BITS
                i += 1
            s = tm.radd(s, t)
        return s
    a = pt(r.n)
    if a is None: return None
    if poly.isone(r.d): return a
    b = pt(r.d)
    if b is None: return None
    return tm.rdiv(a, b)
