"""Exact normaliser for real-valued terms: rational functions over atoms with quadratic reductions
   (sin^2 = 1 - cos^2 ..., sqrt(e)^2 = e, unit quaternions).  Used to discharge equality obligations
   and to decide signs of simple polynomials; sound for reals with non-zero denominators."""
from fractions import Fraction
import math
import term as tm
from term import T

BITS = 10
MASK = (1 << BITS) - 1

class TooBig(Exception): pass
class HasIte(Exception):
    def __init__(self, t): self.t = t

LIMIT = 60000

def padd(a, b, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v == 0: del r[m]
        else: r[m] = v
    return r

def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 4000000: raise TooBig()
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    z = [m for m, c in r.items() if c == 0]
    for m in z: del r[m]
    if len(r) > LIMIT: raise TooBig()
    return r

def pscale(a, k):
    if k == 0: return {}
    return {m: c * k for m, c in a.items()}

ONE = {0: 1}

def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1: return x.numerator
    return x

class RF(object):
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else ONE

def pkey(p): return tuple(sorted(p.items()))

def isone(d): return len(d) == 1 and d.get(0) == 1

PI = tm.var('PI', 'R')

GLOBAL_SIGN = {}     # input variables with a sign fixed by their range

class Norm(object):
    """One normalisation context (fixed substitution, registry of atoms)."""
    def __init__(self, quats=()):
        self.atoms = []          # index -> description
        self.index = {}
        self.rel = {}            # atom idx -> (num, den) for its square
        self.relorder = []
        self.cache = {}
        self.quats = quats       # tuples (w, x, y, z) of var terms with unit norm
        self.qvars = {}
        for q in quats:
            for v in q: self.qvars[v] = q
        self.trigden = {}        # base-key -> lcm of denominators
        self.sub = {}
        self.eqrules = []        # (leading mono, poly) rewriting rules
        self.sqargs = {}
        self.known_sign = dict(GLOBAL_SIGN)     # var term -> +1 / -1 (from path conditions)
        self.trigsign = {}       # ('sin'|'cos', angle key) -> +1 / -1

    # ---------------------------------------------------------------- atoms
    def atom(self, key, desc):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append(desc)
        return i

    def mono(self, i): return {1 << (BITS * i): 1}

    def addrel(self, i, n, d):
        self.rel[i] = (n, d)
        self.relorder.append(i)

    def varatom(self, t):
        i = self.index.get(('v', t.id))
        if i is None:
            q = self.qvars.get(t)
            if q is not None:
                # register x, y, z then w ; w^2 -> 1 - x^2 - y^2 - z^2
                idx = {}
                for v in (q[1], q[2], q[3], q[0]):
                    idx[v] = self.atom(('v', v.id), v)
                p = {0: 1}
                for v in q[1:]: p[2 << (BITS * idx[v])] = -1
                self.addrel(idx[q[0]], p, ONE)
                return idx[t]
            i = self.atom(('v', t.id), t)
        return i

    # ---------------------------------------------------------------- reduction
    def red(self, p):
        """reduce squares; returns (num, den)"""
        den = ONE
        changed = True
        while changed:
            changed = False
            for i in reversed(self.relorder):
                sh = BITS * i
                if not any((m >> sh) & MASK >= 2 for m in p): continue
                changed = True
                rn, rd = self.rel[i]
                groups = {}
                J = 0
                for m, c in p.items():
                    e = (m >> sh) & MASK
                    j = e >> 1
                    if j > J: J = j
                    mm = m - ((2 * j) << sh)
                    g = groups.setdefault(j, {})
                    g[mm] = g.get(mm, 0) + c
                res = {}
                npow = [ONE]
                for k in range(J): npow.append(pmul(npow[-1], rn))
                if isone(rd):
                    for j, g in groups.items():
                        res = padd(res, pmul(g, npow[j]))
                else:
                    dpow = [ONE]
                    for k in range(J): dpow.append(pmul(dpow[-1], rd))
                    for j, g in groups.items():
                        res = padd(res, pmul(pmul(g, npow[j]), dpow[J - j]))
                    den = pmul(den, dpow[J])
                p = res
            if self.eqrules:
                p, ch = self.applyrules(p)
                changed = changed or ch
        if not isone(den):
            den, d2 = self.red(den)
            if not isone(d2):
                p = pmul(p, d2)
                p, d3 = self.red(p)
                den = pmul(den, d3) if not isone(d3) else den
        return p, den

    def applyrules(self, p):
        ch = False
        for lm, rest in self.eqrules:
            # lm = dict atom->exp as list of (shift, exp)
            hit = True
            guard = 0
            while hit:
                hit = False
                for m in list(p):
                    if all(((m >> s) & MASK) >= e for s, e in lm[0]):
                        c = p.pop(m)
                        q = m - lm[1]
                        p = padd(p, {q + r: c * cr for r, cr in rest.items()})
                        hit = True
                        ch = True
                        guard += 1
                        if guard > 20000: raise TooBig()
                        break
        return p, ch

    def mkrf(self, n, d):
        n, dn = self.red(n)
        if not isone(d):
            d, dd = self.red(d)
            if not isone(dd): n = pmul(n, dd); n, x = self.red(n); d = pmul(d, x) if not isone(x) else d
        if not isone(dn): d = pmul(d, dn)
        if not d: raise ZeroDivisionError()
        if not n: return RF({}, ONE)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: fr(Fraction(v) / c) for k, v in n.items()}
            if m == 0: d = ONE
            else:
                # cancel monomial common factors
                n, m = self.cancelmono(n, m)
                d = {m: 1}
        else:
            n, d = self.cancelboth(n, d)
        return RF(n, d)

    def cancelmono(self, n, m):
        i = 0
        sh = 0
        mm = m
        while mm:
            e = mm & MASK
            if e:
                k = min(min((x >> sh) & MASK for x in n), e)
                if k:
                    n = {x - (k << sh): c for x, c in n.items()}
                    m -= k << sh
            mm >>= BITS
            sh += BITS
        return n, m

    def cancelboth(self, n, d):
        # common monomial
        g = None
        mx = max(max(n), max(d))
        sh = 0
        sub = 0
        while mx >> sh:
            k = min(min((x >> sh) & MASK for x in n), min((x >> sh) & MASK for x in d))
            sub += k << sh
            sh += BITS
        if sub:
            n = {x - sub: c for x, c in n.items()}
            d = {x - sub: c for x, c in d.items()}
        # proportional?
        if len(n) == len(d):
            k0 = next(iter(d))
            if k0 in n:
                r = Fraction(n[k0]) / Fraction(d[k0])
                if all(k in n and n[k] == c * r for k, c in d.items()):
                    return {0: fr(r)}, ONE
        # make den content normalised
        lc = d[max(d)]
        if lc != 1:
            n = {k: fr(Fraction(v) / lc) for k, v in n.items()}
            d = {k: fr(Fraction(v) / lc) for k, v in d.items()}
        return n, d

    def add(self, a, b, s=1):
        if isone(a.d) and isone(b.d): return RF(padd(a.n, b.n, s), ONE)
        if a.d == b.d: return self.mkrf(padd(a.n, b.n, s), a.d)
        # try divisibility of monomial denominators
        return self.mkrf(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))

    def mul(self, a, b):
        if isone(a.d) and isone(b.d):
            n, d = self.red(pmul(a.n, b.n))
            if isone(d): return RF(n, ONE)
            return self.mkrf(n, d)
        return self.mkrf(pmul(a.n, b.n), pmul(a.d, b.d))

    def div(self, a, b):
        if not b.n: raise ZeroDivisionError()
        if not a.n: return RF({}, ONE)
        return self.mkrf(pmul(a.n, b.d), pmul(a.d, b.n))

    def const(self, c): return RF({0: fr(c)} if c != 0 else {}, ONE)

    # ---------------------------------------------------------------- terms
    def rf(self, t):
        if not isinstance(t, T):
            if isinstance(t, float): raise TooBig()
            return self.const(t)
        c = self.cache.get(t.id)
        if c is not None: return c
        # iterative post-order
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.cache: stack.pop(); continue
            if x.op == 'ite': raise HasIte(x)
            if x.sort == 'R' and x.op in ('radd', 'rmul', 'rdiv'):
                pend = [a for a in x.args if isinstance(a, T) and a.id not in self.cache]
                if pend: stack.extend(pend); continue
            stack.pop()
            self.cache[x.id] = self.rf1(x)
        return self.cache[t.id]

    def g(self, a):
        if isinstance(a, T): return self.rf(a)
        if isinstance(a, float): raise TooBig()
        return self.const(a)

    def rf1(self, x):
        op = x.op
        if op == 'radd': return self.add(self.g(x.args[0]), self.g(x.args[1]))
        if op == 'rmul': return self.mul(self.g(x.args[0]), self.g(x.args[1]))
        if op == 'rdiv': return self.div(self.g(x.args[0]), self.g(x.args[1]))
        if op == 'var':
            s = self.sub.get(x)
            if s is not None: return self.g(s)
            return RF(self.mono(self.varatom(x)), ONE)
        if op == 'toreal': return self.intrf(x.args[0])
        if op == 'select':
            return RF(self.mono(self.atom(('v', x.id), x)), ONE)
        if op == 'uf': return self.ufrf(x)
        return RF(self.mono(self.atom(('v', x.id), x)), ONE)

    def intrf(self, t):
        if not isinstance(t, T): return self.const(t)
        if t.op == 'ite': raise HasIte(t)
        if t.op == 'iadd': return self.add(self.intrf(t.args[0]), self.intrf(t.args[1]))
        if t.op == 'isub': return self.add(self.intrf(t.args[0]), self.intrf(t.args[1]), -1)
        if t.op == 'imul': return self.mul(self.intrf(t.args[0]), self.intrf(t.args[1]))
        return RF(self.mono(self.atom(('i', t.id), t)), ONE)

    def rfkey(self, r): return (pkey(r.n), pkey(r.d))

    def ufrf(self, x):
        name = x.args[0]
        if name == 'sqrt': return self.sqrt(self.g(x.args[1]))
        if name in ('sin', 'cos'): return self.trig(name, x.args[1])
        if name == 'tan':
            return self.div(self.trig('sin', x.args[1]), self.trig('cos', x.args[1]))
        args = tuple(self.g(a) if (isinstance(a, T) and a.sort == 'R') or isinstance(a, Fraction) else a for a in x.args[1:])
        key = (name,) + tuple(self.rfkey(a) if isinstance(a, RF) else (a.id if isinstance(a, T) else a) for a in args)
        # inverse trig of constants
        i = self.index.get(key)
        if i is None:
            i = self.atom(key, ('uf', name, args, x))
        return RF(self.mono(i), ONE)

    def sqrt(self, r):
        if not r.n: return self.const(0)
        if len(r.n) == 1 and 0 in r.n and isone(r.d):
            return self.sqrtconst(Fraction(r.n[0]))
        # sqrt(N/D) with a known non-zero D that is a square monomial
        if len(r.d) == 1 and not isone(r.d):
            (m, c), = r.d.items()
            h = self.rootmono(m)
            if h is not None and c > 0:
                return self.div(self.sqrt(RF(r.n, ONE)), self.mul(h, self.sqrtconst(Fraction(c))))
        if len(r.d) > 1 and self.psign(r.d) in ('>0', '>=0'):
            return self.div(self.sqrt(RF(r.n, ONE)), self.sqrt(RF(r.d, ONE)))
        if len(r.n) == 1 and isone(r.d):
            (m, c), = r.n.items()
            h = self.rootmono(m)
            if h is not None and c > 0: return self.mul(h, self.sqrtconst(Fraction(c)))
        # extract rational content
        c = self.content(r.n)
        n = {m: fr(Fraction(v) / c) for m, v in r.n.items()}
        sc = self.sqrtconst(c)
        # even monomial factor with known sign
        g = None
        sh = 0
        i = 0
        mx = max(n)
        while mx >> sh:
            k = min((x >> sh) & MASK for x in n) & ~1
            if k:
                h = self.rootmono(k << sh)
                if h is not None:
                    n = {x - (k << sh): v for x, v in n.items()}
                    sc = self.mul(sc, h)
            sh += BITS
        i = self.quatw(n) if isone(r.d) else None
        if i is not None:
            k = self.atomsign(self.atoms[i])
            if k is not None: return self.mul(sc, RF({1 << (BITS * i): k}, ONE))
        # 1 - cos^2
        if len(n) == 2 and isone(r.d) and n.get(0) == 1:
            m = max(n)
            j = self.single(m >> 1) if n[m] == -1 and m & 1 == 0 else None
            if j is not None and isinstance(self.atoms[j], tuple) and self.atoms[j][0] == 'cosb' and len(self.atoms[j]) == 4:
                a = self.atoms[j]
                si = self.index[('sinb', a[1], a[3])]
                k = self.atomsign(self.atoms[si])
                if k is not None: return self.mul(sc, RF({1 << (BITS * si): k}, ONE))
        key = ('sqrt', pkey(n), pkey(r.d))
        i = self.index.get(key)
        if i is None:
            i = self.atom(key, ('sqrt', n, r.d))
            self.addrel(i, n, r.d)
        return self.mul(sc, RF(self.mono(i), ONE))

    def halfmono(self, m):
        h = 0
        i = 0
        while m:
            e = m & MASK
            if e & 1: return None
            h |= (e >> 1) << (BITS * i)
            m >>= BITS
            i += 1
        return h

    def quatw(self, n):
        """atom index of w when n = 1 - x^2 - y^2 - z^2 of a unit quaternion"""
        if len(n) != 4 or n.get(0) != 1: return None
        for i, (rn, rd) in self.rel.items():
            if rn == n and isone(rd) and isinstance(self.atoms[i], T): return i
        return None

    def assquare(self, r):
        """(k, h) with r = k * h^2, h a monomial quotient"""
        if not r.n: return None
        if len(r.d) != 1: return None
        c = self.content(r.n)
        if len(r.n) == 1:
            (m1, c1), = r.n.items()
            h1 = self.halfmono(m1)
            k = Fraction(c1)
        else:
            g = 0
            n = {m: fr(Fraction(v) / c) for m, v in r.n.items()}
            sh = 0
            mx = max(n)
            while mx >> sh:
                e = min((x >> sh) & MASK for x in n) & ~1
                g += e << sh
                sh += BITS
            n = {m - g: v for m, v in n.items()}
            i = self.quatw(n)
            if i is None: return None
            h1 = self.halfmono(g) + (1 << (BITS * i))
            k = c
        (m2, c2), = r.d.items()
        h2 = self.halfmono(m2)
        k = k / Fraction(c2)
        if h1 is None or h2 is None or k <= 0: return None
        return k, RF({h1: 1}, {h2: 1} if h2 else ONE)

    def rootmono(self, m):
        """|sqrt of a monomial| as RF when all exponents are even and the signs are known"""
        half = 0
        sg = 1
        i = 0
        mm = m
        while mm:
            e = mm & MASK
            if e:
                if e & 1: return None
                half |= (e >> 1) << (BITS * i)
                if (e >> 1) & 1:
                    a = self.atoms[i]
                    k = self.atomsign(a)
                    if k is None and not self.nonneg(i): return None
                    if k is not None: sg *= k
            mm >>= BITS
            i += 1
        return RF({half: sg}, ONE)

    def atomsign(self, a):
        if isinstance(a, T): return self.known_sign.get(a)
        if a[0] in ('sinb', 'cosb') and len(a) == 4 and a[3] == 1: return self.trigsign.get(('sin' if a[0] == 'sinb' else 'cos', a[1]))
        return None

    def learn(self, conds):
        for c in conds:
            if not isinstance(c, T): continue
            neg = c.op == 'not'
            x = c.args[0] if neg else c
            if not isinstance(x, T) or x.op != 'rle': continue
            a, b = x.args
            if not neg:
                if isinstance(a, Fraction) and a >= 0: self.learnsign(b, 1)
                if isinstance(b, Fraction) and b <= 0: self.learnsign(a, -1)
            else:
                # a > b
                if isinstance(b, Fraction) and b >= 0: self.learnsign(a, 1)
                if isinstance(a, Fraction) and a <= 0: self.learnsign(b, -1)

    def learnsign(self, t, s):
        if not isinstance(t, T): return
        if t.op == 'rmul' and isinstance(t.args[1], Fraction):
            if t.args[1] == 0: return
            if t.args[1] < 0: s = -s
            t = t.args[0]
            if not isinstance(t, T): return
        if t.op == 'var': self.known_sign[t] = s
        elif t.op == 'uf' and t.args[0] in ('sin', 'cos') and isinstance(t.args[1], T):
            try: terms, pic = self.lin(self.g(t.args[1]))
            except (HasIte, TooBig, ZeroDivisionError): return
            if pic == 0 and len(terms) == 1 and abs(terms[0][2]) == 1:
                if terms[0][2] < 0 and t.args[0] == 'sin': s = -s
                self.trigsign[(t.args[0], terms[0][0])] = s

    def content(self, p):
        g = 0
        l = 1
        for v in p.values():
            v = Fraction(v)
            g = math.gcd(g, abs(v.numerator))
            l = l * v.denominator // math.gcd(l, v.denominator)
        return Fraction(g, l)

    def sqrtconst(self, c):
        if c < 0:
            raise TooBig()
        # c = a/b ; sqrt = sqrt(a*b)/b
        n = c.numerator * c.denominator
        out = 1
        d = 2
        k = n
        while d * d <= k and d < 2000:
            while k % (d * d) == 0:
                k //= d * d
                out *= d
            d += 1
        s = math.isqrt(k)
        if s * s == k: out *= s; k = 1
        base = Fraction(out, c.denominator)
        if k == 1: return self.const(base)
        key = ('sqrtc', k)
        i = self.index.get(key)
        if i is None:
            i = self.atom(key, ('sqrtc', k))
            self.addrel(i, {0: k}, ONE)
        return RF({1 << (BITS * i): fr(base)}, ONE)

    # trig ------------------------------------------------------------------
    def lin(self, r):
        """argument as list of (key, RFmono, coef) plus rational multiple of pi; None if not polynomial"""
        if not isone(r.d):
            # one opaque angle; normalise content
            c = self.content(r.n)
            lead = r.n[max(r.n)]
            if lead < 0: c = -c
            n = {m: fr(Fraction(v) / c) for m, v in r.n.items()}
            return [(('q', pkey(n), pkey(r.d)), RF(n, r.d), c)], Fraction(0)
        pim = 1 << (BITS * self.varatom(PI))
        terms = []
        pic = Fraction(0)
        for m, c in sorted(r.n.items()):
            if m == pim: pic = Fraction(c)
            elif Fraction(c) % 2 == 0 and self.wholeturns(m, pim): pass
            else: terms.append((m, RF({m: 1}, ONE), Fraction(c)))
        return terms, pic

    def wholeturns(self, m, pim):
        """pi times a product of integers"""
        i = 0
        k = 0
        while m:
            e = m & MASK
            if e:
                if pim >> (BITS * i) == 1:
                    if e != 1: return False
                    k += 1
                elif not (isinstance(self.atoms[i], T) and isinstance(self.atoms[i].sort, int)): return False
            m >>= BITS
            i += 1
        return k == 1

    def prepass(self, roots):
        """collect denominators of trig arguments so that all angles share one base"""
        for t in tm.subterms(roots):
            if t.op == 'uf' and t.args[0] in ('sin', 'cos', 'tan'):
                a = t.args[1]
                if not isinstance(a, T): continue
                try: r = self.g(a)
                except HasIte: continue
                terms, pic = self.lin(r)
                for k, _, c in terms:
                    l = self.trigden.get(k, 1)
                    self.trigden[k] = l * c.denominator // math.gcd(l, c.denominator)

    def base(self, k, r):
        """(sin, cos) RFs of base angle r/trigden[k]"""
        l = self.trigden.setdefault(k, 1)
        key = ('sinb', k, l)
        i = self.index.get(key)
        if i is None:
            # inverse functions
            if isinstance(k, int) and l == 1:
                e = self.single(k)
                if e is not None and isinstance(self.atoms[e], tuple) and self.atoms[e][0] == 'uf':
                    nm, args = self.atoms[e][1], self.atoms[e][2]
                    res = None
                    if nm == 'acos':
                        x = args[0]
                        res = (self.sqrt(self.add(self.const(1), self.mul(x, x), -1)), x)
                    elif nm == 'asin':
                        x = args[0]
                        res = (x, self.sqrt(self.add(self.const(1), self.mul(x, x), -1)))
                    elif nm == 'atan':
                        x = args[0]
                        h = self.sqrt(self.add(self.const(1), self.mul(x, x)))
                        res = (self.div(x, h), self.div(self.const(1), h))
                    elif nm == 'atan2':
                        y, x = args
                        s2 = self.add(self.mul(x, x), self.mul(y, y))
                        if s2.n:
                            h = self.sqrt(s2)
                            res = (self.div(y, h), self.div(x, h))
                    if res is not None: return res
            i = self.atom(key, ('sinb', k, r, l))
            j = self.atom(('cosb', k, l), ('cosb', k, r, l))
            self.addrel(i, {0: 1, 2 << (BITS * j): -1}, ONE)
        j = self.index[('cosb', k, l)]
        return RF(self.mono(i), ONE), RF(self.mono(j), ONE)

    def single(self, m):
        """atom index if monomial m is a single atom to the power one"""
        if m <= 0: return None
        b = m.bit_length() - 1
        if m != 1 << b or b % BITS: return None
        return b // BITS

    def trig(self, name, arg):
        r = self.g(arg)
        terms, pic = self.lin(r)
        s, c = self.const(0), self.const(1)
        for k, rr, co in terms:
            l = self.trigden.get(k, 1)
            if l % co.denominator:
                self.trigden[k] = l = l * co.denominator // math.gcd(l, co.denominator)
            n = int(co * l)
            bs, bc = self.base(k, rr)
            neg = n < 0
            n = abs(n)
            if n > 12: raise TooBig()
            ms, mc = self.const(0), self.const(1)
            for _ in range(n):
                ms, mc = self.add(self.mul(ms, bc), self.mul(mc, bs)), self.add(self.mul(mc, bc), self.mul(ms, bs), -1)
            if neg: ms = self.add(self.const(0), ms, -1)
            s, c = self.add(self.mul(s, mc), self.mul(c, ms)), self.add(self.mul(c, mc), self.mul(s, ms), -1)
        if pic != 0:
            h = pic * 2
            q = h.numerator // h.denominator
            rem = h - q
            if rem != 0:
                if rem == Fraction(1, 2):
                    v = self.sqrtconst(Fraction(1, 2))
                    s, c = self.add(self.mul(s, v), self.mul(c, v)), self.add(self.mul(c, v), self.mul(s, v), -1)
                else:
                    key = ('sinb', 'pi', rem)
                    i = self.index.get(key)
                    if i is None:
                        i = self.atom(key, ('sinpi', rem))
                        j = self.atom(('cosb', 'pi', rem), ('cospi', rem))
                        self.addrel(i, {0: 1, 2 << (BITS * j): -1}, ONE)
                    j = self.index[('cosb', 'pi', rem)]
                    vs, vc = RF(self.mono(i), ONE), RF(self.mono(j), ONE)
                    s, c = self.add(self.mul(s, vc), self.mul(c, vs)), self.add(self.mul(c, vc), self.mul(s, vs), -1)
            for _ in range(q % 4):
                s, c = c, self.add(self.const(0), s, -1)
        return s if name == 'sin' else c

    # ---------------------------------------------------------------- use
    def iszero(self, a, b):
        x, y = self.g(a), self.g(b)
        if x.d == y.d: n = padd(x.n, y.n, -1)
        else:
            n = padd(pmul(x.n, y.d), pmul(y.n, x.d), -1)
        n, _ = self.red(n)
        return not n, n

    def sign(self, t):
        """'>0', '>=0', '<0', '<=0', '=0' or None, from even-power sums and nonneg atoms"""
        r = self.g(t)
        if not r.n: return '=0'
        sn = self.psign(r.n)
        if sn is None: return None
        if isone(r.d): return sn
        sd = self.psign(r.d)
        if sd not in ('>0', '<0'):
            if sd is None: return None
            sd = '>0' if sd == '>=0' else '<0'
        if sd == '>0': return sn
        return {'>0': '<0', '>=0': '<=0', '<0': '>0', '<=0': '>=0'}[sn]

    def psign(self, p):
        pos = neg = False
        for m, c in p.items():
            mm = m
            i = 0
            while mm:
                e = mm & MASK
                if e & 1 and not self.nonneg(i): return None
                mm >>= BITS
                i += 1
            if c > 0: pos = True
            else: neg = True
            if pos and neg: return None
        strict = 0 in p
        if pos: return '>0' if strict else '>=0'
        return '<0' if strict else '<=0'

    def nonneg(self, i):
        a = self.atoms[i]
        if isinstance(a, tuple):
            if a[0] in ('sqrt', 'sqrtc'): return True
            if a[0] == 'uf' and a[1] == 'acos': return True
        if a is PI: return True
        return self.atomsign(a) == 1

    def rule_from_eq(self, a, b):
        """use a == b (a path condition) as a rewrite rule"""
        x, y = self.g(a), self.g(b)
        n = padd(pmul(x.n, y.d), pmul(y.n, x.d), -1)
        n, _ = self.red(n)
        if not n: return False
        if len(n) > 40: return False
        lead = None
        # a monomial that is a single atom with power one and occurs nowhere else is best
        for m in sorted(n, key=lambda m: -m):
            e = self.single(m)
            if e is not None and not isinstance(self.atoms[e], tuple):
                sh = BITS * e
                if all(k == m or not ((k >> sh) & MASK) for k in n): lead = m; break
        if lead is None:
            lead = max(n, key=lambda m: (self.deg(m), m))
            if lead == 0: return False
        c = n[lead]
        rest = {m: fr(-Fraction(v) / c) for m, v in n.items() if m != lead}
        sh = 0
        lst = []
        mm = lead
        while mm:
            if mm & MASK: lst.append((sh, mm & MASK))
            mm >>= BITS
            sh += BITS
        self.eqrules.append(((lst, lead), rest))
        self.cache.clear()
        return True

    def deg(self, m):
        d = 0
        while m:
            d += m & MASK
            m >>= BITS
        return d
