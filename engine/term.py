"""Hash-consed terms: reals ('R'), booleans ('B') and w-bit integers (sort = int width).

Integers are kept in *signed canonical* form (-2^(w-1) .. 2^(w-1)-1); machine wrap-around is explicit
(op 'wrap') unless the interval of the unwrapped result shows that it cannot happen.
Concrete values are plain python values: bool, int, Fraction (and float nan/inf for special reals).
"""
from fractions import Fraction
import math

class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi', 'z', 'aux', '__weakref__')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o
    def __ne__(self, o):
        return self is not o

_tab = {}
_cnt = [0]

def mk(op, args, sort, lo=None, hi=None):
    key = (op, sort, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.lo = lo
        t.hi = hi
        t.z = None
        t.aux = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t

def reset():
    _tab.clear()
    _cnt[0] = 0

def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == 'var':
        return t.args[0]
    if depth == 0:
        return '...'
    return '(%s %s)' % (t.op, ' '.join(show(a, depth - 1) for a in t.args))

def isc(x):
    return not isinstance(x, T)

# ------------------------------------------------------------------ variables
_fresh = [0]
def var(name, sort, lo=None, hi=None):
    if isinstance(sort, int):
        if lo is None: lo = -(1 << (sort - 1))
        if hi is None: hi = (1 << (sort - 1)) - 1
    return mk('var', (name,), sort, lo, hi)

def fresh(prefix, sort, lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort, lo, hi)

# ------------------------------------------------------------------ booleans
def Not(a):
    if a is True: return False
    if a is False: return True
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')

def And(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if x.op == 'and':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0] in out: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')

def Or(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if x.op == 'or':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0] in out: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')

def Implies(a, b): return Or(Not(a), b)

def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isc(a) and isc(b) and type(a) == type(b) and a == b: return a
    if c.op == 'not': return Ite(c.args[0], b, a)
    s = a.sort if isinstance(a, T) else (b.sort if isinstance(b, T) else None)
    if s is None:
        if isinstance(a, bool): s = 'B'
        elif isinstance(a, Fraction) or isinstance(b, Fraction): s = 'R'
        else: return ite_int(c, a, b, 64)
    if s == 'B':
        if a is True: return Or(c, b)
        if a is False: return And(Not(c), b)
        if b is True: return Or(Not(c), a)
        if b is False: return And(c, a)
        return mk('ite', (c, a, b), 'B')
    if s == 'R':
        if isinstance(a, T) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
        if isinstance(b, T) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
        if a is b: return a
        return mk('ite', (c, a, b), 'R')
    if isinstance(s, tuple):
        return mk('ite', (c, a, b), s)
    return ite_int(c, a, b, s)

def ite_int(c, a, b, w):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isc(a) and isc(b) and a == b: return a
    if isinstance(a, T) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if isinstance(b, T) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if isinstance(a, T) and a is b: return a
    return mk('ite', (c, a, b), w, min(lo(a), lo(b)), max(hi(a), hi(b)))

def BEq(a, b):
    if isc(a): return b if a else Not(b)
    if isc(b): return a if b else Not(a)
    if a is b: return True
    return mk('beq', (a, b) if a.id < b.id else (b, a), 'B')

# ------------------------------------------------------------------ integers
def lo(x): return x if isc(x) else x.lo
def hi(x): return x if isc(x) else x.hi

def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

def wrap(t, w):
    """t: unbounded integer term or int; wrap to signed w bit."""
    if isc(t): return sgn(t, w)
    if t.lo >= -(1 << (w - 1)) and t.hi < (1 << (w - 1)):
        return t
    if t.op == 'wrapw' and t.args[1] <= w: return t
    if t.op == 'uext' and t.args[1] == w: return t.args[0]
    return mk('wrapw', (t, w), 64, -(1 << (w - 1)), (1 << (w - 1)) - 1)

def iadd(a, b, w, nowrap=False):
    if isc(a):
        if isc(b): return sgn(a + b, w)
        a, b = b, a
    if isc(b):
        if b == 0: return a
        if a.op == 'iadd' and isc(a.args[1]):
            c = a.args[1] + b
            r = _iadd(a.args[0], c) if c != 0 else a.args[0]
            return r if nowrap else wrap(r, w)
    elif b.op == 'iadd' and isc(b.args[1]) and b.args[1] is not None:
        r = iadd(iadd(a, b.args[0], w, nowrap), b.args[1], w, nowrap)
        return r
    elif a.op == 'iadd' and isc(a.args[1]):
        return iadd(iadd(a.args[0], b, w, nowrap), a.args[1], w, nowrap)
    if isinstance(b, T):
        if a.op == 'isub' and a.args[1] is b: return a.args[0]
        if b.op == 'isub' and b.args[1] is a: return b.args[0]
        if a.id > b.id: a, b = b, a
    r = _iadd(a, b)
    return _clampw(r, w) if nowrap else wrap(r, w)

def _clampw(r, w):
    if isinstance(r, T):
        l, h = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if r.lo < l: r.lo = l
        if r.hi > h: r.hi = h
    return r

def _iadd(a, b):
    return mk('iadd', (a, b), 64, lo(a) + lo(b), hi(a) + hi(b))

def isub(a, b, w, nowrap=False):
    if isc(b): return iadd(a, -b, w, nowrap) if isinstance(a, T) else sgn(a - b, w)
    if a is b: return 0
    if isinstance(a, T):
        if a.op == 'iadd':
            if a.args[0] is b: return a.args[1]
            if a.args[1] is b: return a.args[0]
            if isc(a.args[1]) : return iadd(isub(a.args[0], b, w, nowrap), a.args[1], w, nowrap)
        if b.op == 'iadd' and b.args[0] is a: return ineg(b.args[1], w)
        if b.op == 'iadd' and isc(b.args[1]): return iadd(isub(a, b.args[0], w, nowrap), -b.args[1], w, nowrap)
    r = mk('isub', (a, b), 64, lo(a) - hi(b), hi(a) - lo(b))
    return _clampw(r, w) if nowrap else wrap(r, w)

def ineg(a, w): return sgn(-a, w) if isc(a) else isub(0, a, w)

def imul(a, b, w, nowrap=False):
    if isc(a):
        if isc(b): return sgn(a * b, w)
        a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == 1: return a
        if a.op == 'iadd' and isc(a.args[1]):
            r = mk('iadd', (_imul(a.args[0], b), a.args[1] * b), 64, *sorted((a.lo * b, a.hi * b)))
            return _clampw(r, w) if nowrap else wrap(r, w)
        if a.op == 'imul' and isc(a.args[1]):
            r = _imul(a.args[0], a.args[1] * b)
            return _clampw(r, w) if nowrap else wrap(r, w)
    elif a.id > b.id: a, b = b, a
    r = _imul(a, b)
    return _clampw(r, w) if nowrap else wrap(r, w)

def _imul(a, b):
    ps = [lo(a) * lo(b), lo(a) * hi(b), hi(a) * lo(b), hi(a) * hi(b)]
    return mk('imul', (a, b), 64, min(ps), max(ps))

def uext(a, w):
    """value of the w-bit int read as unsigned (unbounded integer)"""
    if isc(a): return a & ((1 << w) - 1)
    if a.lo >= 0: return a
    return mk('uext', (a, w), 64, 0, (1 << w) - 1)

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q

def sdiv(a, b, w):
    if isc(a) and isc(b): return sgn(tdiv(a, b), w)
    if isc(b):
        if b == 1: return a
        if b > 0:
            # exact division of linear forms
            e = exact_div(a, b)
            if e is not None: return e
            l, h = tdiv(a.lo, b), tdiv(a.hi, b)
            return mk('sdiv', (a, b), 64, l, h)
    m = max(abs(lo(a)), abs(hi(a)))
    return mk('sdiv', (a, b), 64, -m, m)

def exact_div(a, b):
    if isc(a): return a // b if a % b == 0 else None
    if a.op == 'imul' and isc(a.args[1]) and a.args[1] % b == 0: return imul(a.args[0], a.args[1] // b, 64, True)
    if a.op in ('iadd', 'isub'):
        x = exact_div(a.args[0], b)
        if x is None: return None
        y = exact_div(a.args[1], b)
        if y is None: return None
        return iadd(x, y, 64, True) if a.op == 'iadd' else isub(x, y, 64, True)
    if a.op == 'ite':
        x = exact_div(a.args[1], b)
        if x is None: return None
        y = exact_div(a.args[2], b)
        if y is None: return None
        return ite_int(a.args[0], x, y, 64)
    return None

def srem(a, b, w):
    if isc(a) and isc(b): return sgn(a - b * tdiv(a, b), w)
    if isc(b) and b > 0:
        if lo(a) >= 0 and hi(a) < b: return a
        return mk('srem', (a, b), 64, 0 if a.lo >= 0 else -(b - 1), b - 1)
    m = max(abs(lo(b)), abs(hi(b)))
    return mk('srem', (a, b), 64, 0 if lo(a) >= 0 else -m, m)

# comparisons on (unbounded) integer terms
def icmp(op, a, b):
    if isc(a) and isc(b):
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    if op == 'eq':
        if a is b: return True
        if lo(a) > hi(b) or hi(a) < lo(b): return False
        if isc(a): a, b = b, a
        if isc(b):
            if a.op == 'iadd' and isc(a.args[1]): return icmp('eq', a.args[0], b - a.args[1])
            if a.op == 'ite':
                x, y = a.args[1], a.args[2]
                if isc(x) or isc(y):
                    return Ite(a.args[0], icmp('eq', x, b), icmp('eq', y, b))
            if a.op == 'uext' and b >= 0:
                w = a.args[1]
                return icmp('eq', a.args[0], sgn(b, w))
            if a.op == 'isub' and b == 0: return icmp('eq', a.args[0], a.args[1])
            if a.op == 'imul' and isc(a.args[1]):
                if b % a.args[1]: return False
                return icmp('eq', a.args[0], b // a.args[1])
            return mk('ieq', (a, b), 'B')
        if a.op == 'uext' and b.op == 'uext' and a.args[1] == b.args[1]: return icmp('eq', a.args[0], b.args[0])
        if a.id > b.id: a, b = b, a
        return mk('ieq', (a, b), 'B')
    if op == 'lt':
        if a is b: return False
        if hi(a) < lo(b): return True
        if lo(a) >= hi(b): return False
        if isc(b): return icmp('le', a, b - 1)
        if isc(a): return icmp('le', a + 1, b)
        return Not(icmp('le', b, a))
    if op == 'le':
        if a is b: return True
        if hi(a) <= lo(b): return True
        if lo(a) > hi(b): return False
        if isc(b) and a.op == 'iadd' and isc(a.args[1]): return icmp('le', a.args[0], b - a.args[1])
        if isc(a) and b.op == 'iadd' and isc(b.args[1]): return icmp('le', a - b.args[1], b.args[0])
        if isc(b) and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
            return Ite(a.args[0], icmp('le', a.args[1], b), icmp('le', a.args[2], b))
        if isc(a) and b.op == 'ite' and (isc(b.args[1]) or isc(b.args[2])):
            return Ite(b.args[0], icmp('le', a, b.args[1]), icmp('le', a, b.args[2]))
        if isc(a):   # a <= b  <=>  not (b <= a-1)
            return Not(icmp('le', b, a - 1)) if not (hi(b) <= a - 1) else False
        return mk('ile', (a, b), 'B')

# ------------------------------------------------------------------ reals
def radd(a, b):
    if isc(a):
        if isc(b): return a + b
        a, b = b, a
    if isc(b):
        if b == 0: return a
        if a.op == 'radd' and isc(a.args[1]): return radd(a.args[0], a.args[1] + b)
    elif a.id > b.id: a, b = b, a
    return mk('radd', (a, b), 'R')

def rneg(a):
    if isc(a): return -a
    return rmul(a, Fraction(-1))

def rsub(a, b):
    if a is b: return Fraction(0)
    if isc(b): return radd(a, -b)
    return radd(a, rneg(b))

def rmul(a, b):
    if isc(a):
        if isc(b): return a * b
        a, b = b, a
    if isc(b):
        if b == 0: return Fraction(0)
        if b == 1: return a
        if a.op == 'rmul' and isc(a.args[1]): return rmul(a.args[0], a.args[1] * b)
        if a.op == 'ite' and (isc(a.args[1]) and isc(a.args[2])): return Ite(a.args[0], a.args[1] * b, a.args[2] * b)
    elif a.id > b.id: a, b = b, a
    return mk('rmul', (a, b), 'R')

def rdiv(a, b):
    if isc(b):
        return rmul(a, 1 / b) if isinstance(a, T) else a / b
    if isc(a) and a == 0: return Fraction(0)
    if a is b: return Fraction(1)
    return mk('rdiv', (a, b), 'R')

def rcmp(op, a, b):
    if isc(a) and isc(b):
        return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    if op == 'eq':
        if a is b: return True
        if isc(a): a, b = b, a
        if isc(b) and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
            return Ite(a.args[0], rcmp('eq', a.args[1], b), rcmp('eq', a.args[2], b))
        if isc(b) and a.op == 'toreal':
            if b.denominator != 1: return False
            return icmp('eq', a.args[0], b.numerator)
        if isc(b) and a.op == 'rmul' and isc(a.args[1]):
            return rcmp('eq', a.args[0], b / a.args[1])
        if isinstance(b, T) and a.op == 'toreal' and b.op == 'toreal': return icmp('eq', a.args[0], b.args[0])
        if not isc(b) and a.id > b.id: a, b = b, a
        return mk('req', (a, b), 'B')
    if op == 'lt': return Not(rcmp('le', b, a))
    if a is b: return True
    if isc(b):
        if a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
            return Ite(a.args[0], rcmp('le', a.args[1], b), rcmp('le', a.args[2], b))
        if a.op == 'toreal': return icmp('le', a.args[0], math.floor(b))
        if a.op == 'radd' and isc(a.args[1]): return rcmp('le', a.args[0], b - a.args[1])
        if a.op == 'rmul' and isc(a.args[1]):
            k = a.args[1]
            return rcmp('le', a.args[0], b / k) if k > 0 else rcmp('le', b / k, a.args[0])
    elif isc(a):
        if b.op == 'ite' and (isc(b.args[1]) or isc(b.args[2])):
            return Ite(b.args[0], rcmp('le', a, b.args[1]), rcmp('le', a, b.args[2]))
        if b.op == 'toreal': return icmp('le', math.ceil(a), b.args[0])
        if b.op == 'radd' and isc(b.args[1]): return rcmp('le', a - b.args[1], b.args[0])
        if b.op == 'rmul' and isc(b.args[1]):
            k = b.args[1]
            return rcmp('le', a / k, b.args[0]) if k > 0 else rcmp('le', b.args[0], a / k)
    elif a.op == 'toreal' and b.op == 'toreal': return icmp('le', a.args[0], b.args[0])
    return mk('rle', (a, b), 'B')

def toreal(a):
    if isc(a): return Fraction(a)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], Fraction(a.args[1]), Fraction(a.args[2]))
    return mk('toreal', (a,), 'R')

def rfloor(a):
    """floor as integer term"""
    if isc(a): return math.floor(a)
    if a.op == 'toreal': return a.args[0]
    if a.op == 'radd' and isc(a.args[1]) and a.args[1].denominator == 1: return _iadd(rfloor(a.args[0]), a.args[1].numerator)
    return mk('rfloor', (a,), 64, -(1 << 63), (1 << 63) - 1)

def rtrunc(a):
    if isc(a): return math.trunc(a)
    if a.op == 'toreal': return a.args[0]
    return Ite(rcmp('le', Fraction(0), a), rfloor(a), ineg(rfloor(rneg(a)), 64))

def uf(name, args, sort='R'):
    return mk('uf', (name,) + tuple(args), sort)

# ------------------------------------------------------------------ arrays: sort ('A', elemsort)
def select(arr, idx):
    while True:
        if arr.op == 'store':
            c = icmp('eq', arr.args[1], idx)
            if c is True: return arr.args[2]
            if c is False:
                arr = arr.args[0]
                continue
        break
    es = arr.sort[1]
    if arr.op == 'kconst': return arr.args[0]
    if arr.op == 'ite': return Ite(arr.args[0], select(arr.args[1], idx), select(arr.args[2], idx))
    if isinstance(es, int):
        return mk('select', (arr, idx), es, -(1 << (es - 1)), (1 << (es - 1)) - 1)
    return mk('select', (arr, idx), es)

def store(arr, idx, v):
    return mk('store', (arr, idx, v), arr.sort)

def kconst(v, es):
    return mk('kconst', (v,), ('A', es))

def subterms(roots):
    seen = set()
    st = [r for r in roots if isinstance(r, T)]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        yield t
        for a in t.args:
            if isinstance(a, T): st.append(a)

def subst(t, m, cache=None):
    """rebuild t with the map m: T -> value applied bottom-up"""
    if not isinstance(t, T): return t
    if cache is None: cache = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in cache: stack.pop(); continue
        if x in m:
            cache[x.id] = m[x]; stack.pop(); continue
        pend = [a for a in x.args if isinstance(a, T) and a.id not in cache]
        if pend:
            # ite: evaluate the condition first
            if x.op == 'ite' and isinstance(x.args[0], T):
                c = x.args[0]
                if c.id not in cache: stack.append(c); continue
                cv = cache[c.id]
                if cv is True or cv is False:
                    b = x.args[1] if cv else x.args[2]
                    if isinstance(b, T):
                        if b.id not in cache: stack.append(b); continue
                        cache[x.id] = cache[b.id]
                    else: cache[x.id] = b
                    stack.pop(); continue
            stack.extend(pend); continue
        stack.pop()
        na = tuple(cache[a.id] if isinstance(a, T) else a for a in x.args)
        if all(p is q for p, q in zip(na, x.args)): cache[x.id] = x
        else: cache[x.id] = rebuild(x, na)
    return cache[t.id]

def rebuild(x, a):
    op = x.op
    if op == 'not': return Not(a[0])
    if op == 'and': return And(*a)
    if op == 'or': return Or(*a)
    if op == 'ite': return Ite(*a) if not isinstance(x.sort, int) else ite_int(a[0], a[1], a[2], x.sort)
    if op == 'beq': return BEq(*a)
    if op == 'ieq': return icmp('eq', *a)
    if op == 'ile': return icmp('le', *a)
    if op == 'req': return rcmp('eq', *a)
    if op == 'rle': return rcmp('le', *a)
    if op == 'iadd': return a[0] + a[1] if isc(a[0]) and isc(a[1]) else iadd(a[0], a[1], 64, True)
    if op == 'isub': return a[0] - a[1] if isc(a[0]) and isc(a[1]) else isub(a[0], a[1], 64, True)
    if op == 'imul': return a[0] * a[1] if isc(a[0]) and isc(a[1]) else imul(a[0], a[1], 64, True)
    if op == 'wrapw': return wrap(a[0], a[1])
    if op == 'uext': return uext(a[0], a[1])
    if op == 'sdiv':
        if isc(a[1]) and a[1] == 0: return mk(op, a, 64, x.lo, x.hi)
        return sdiv(a[0], a[1], 64)
    if op == 'srem':
        if isc(a[1]) and a[1] == 0: return mk(op, a, 64, x.lo, x.hi)
        return srem(a[0], a[1], 64)
    if op == 'radd': return radd(*a)
    if op == 'rmul': return rmul(*a)
    if op == 'rdiv':
        if isc(a[1]) and a[1] == 0: return mk(op, a, 'R')
        return rdiv(*a)
    if op == 'toreal': return toreal(a[0])
    if op == 'rfloor': return rfloor(a[0])
    if op == 'select': return select(a[0], a[1])
    if op == 'store': return store(*a)
    return mk(op, a, x.sort, x.lo, x.hi)

_nn = {}
def nonneg(t, depth=0):
    """syntactic: t is not negative (sums of squares, square roots, ...)"""
    if not isinstance(t, T): return isinstance(t, (int, Fraction)) and t >= 0
    r = _nn.get(t.id)
    if r is not None: return r
    if depth > 60: return False
    r = False
    if t.op == 'radd': r = nonneg(t.args[0], depth + 1) and nonneg(t.args[1], depth + 1)
    elif t.op == 'rmul': r = t.args[0] is t.args[1] or (nonneg(t.args[0], depth + 1) and nonneg(t.args[1], depth + 1))
    elif t.op == 'rdiv': r = nonneg(t.args[0], depth + 1) and nonneg(t.args[1], depth + 1)
    elif t.op == 'ite': r = nonneg(t.args[1], depth + 1) and nonneg(t.args[2], depth + 1)
    elif t.op == 'uf': r = t.args[0] in ('sqrt', 'exp', 'acos') or (t.args[0] == 'atan2' and nonneg(t.args[1], depth + 1))
    _nn[t.id] = r
    return r
