"""VC generator: symbolic execution of the real code (LLVM IR of /repo's sources, dumped by vcdump) against
contract harnesses.  Every path is explored; obligations are handed to solve.Prover."""
import json, sys, time, math, re, os
from fractions import Fraction
import term as tm
from term import T
import solve, poly

sys.setrecursionlimit(200000)

NAN = float('nan')
INF = float('inf')

class Undef(object):
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class PBits(object):
    """a machine word of which the bits in mask are uninitialised (the last word of a vector<bool>)"""
    __slots__ = ('val', 'mask')
    def __init__(self, val, mask):
        self.val = val
        self.mask = mask

class MU(object):
    """contents of a memory cell that has been written if cond holds"""
    __slots__ = ('cond', 'val')
    def __init__(self, cond, val):
        self.cond = cond
        self.val = val

class Ptr(object):
    __slots__ = ('o', 'off')
    def __init__(self, o, off=0):
        self.o = o
        self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.o, self.off)
NULL = Ptr(0, 0)

class Bits(object):
    """value assembled from typed pieces (type punning through memcpy / integer moves)"""
    __slots__ = ('pieces',)
    def __init__(self, pieces): self.pieces = pieces
    def size(self): return sum(p[0] for p in self.pieces)

class K(object):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class Unsupported(Exception): pass
class PathEnd(Exception): pass
class Unmergeable(Exception): pass

class Obj(object):
    __slots__ = ('size', 'cells', 'fills', 'const', 'alive', 'name', 'own', 'heap', 'zero', 'arr')
    def __init__(self, size, name='', own=None, heap=None):
        self.size = size
        self.cells = {}
        self.fills = ()
        self.const = False
        self.alive = True
        self.name = name
        self.own = own
        self.heap = heap
        self.zero = False
        self.arr = None       # (stride, {field offset: array term / (size, kind, term)}) for symbolic sized objects
    def copy(self, own):
        n = Obj(self.size, self.name, own, self.heap)
        n.cells = dict(self.cells)
        n.fills = self.fills
        n.const = self.const
        n.alive = self.alive
        n.zero = self.zero
        n.arr = None if self.arr is None else (self.arr[0], dict(self.arr[1]))
        return n

class Frame(object):
    __slots__ = ('fn', 'regs', 'bi', 'ii', 'prev', 'allocas', 'onret', 'cnt', 'landing', 'invs')
    def copy(self):
        n = Frame()
        n.fn = self.fn; n.regs = list(self.regs); n.bi = self.bi; n.ii = self.ii; n.prev = self.prev
        n.allocas = list(self.allocas); n.onret = self.onret; n.cnt = self.cnt; n.landing = self.landing
        n.invs = self.invs
        return n

class State(object):
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'own', 'exc', 'caught', 'inputs', 'ended', 'notes', 'guards')
    def fork(self):
        n = State()
        n.frames = [f.copy() for f in self.frames]
        n.mem = dict(self.mem)
        n.pc = list(self.pc)
        n.pcset = set(self.pcset)
        n.own = object()
        self.own = object()
        n.exc = self.exc
        n.caught = list(self.caught)
        n.inputs = self.inputs
        n.ended = None
        n.notes = list(self.notes)
        n.guards = self.guards
        return n

# ---------------------------------------------------------------------------------------- constants
_pi_cands = []
for num in (1, 2, 3, 4, 5, 6, 8, 180, 360):
    for den in (1, 2, 3, 4, 6, 8, 12, 16, 45, 90, 180, 360):
        _pi_cands.append(Fraction(num, den))

def simplest_between(lo, hi):
    """simplest rational in [lo, hi], 0 < lo"""
    f = math.floor(lo)
    if f == lo: return Fraction(f)
    if f + 1 <= hi: return Fraction(f + 1)
    r = simplest_between(1 / (hi - f), 1 / (lo - f))
    return f + 1 / r

_ideal = {}
def ideal(bits, s):
    """the real number a floating point literal stands for: the simplest rational (or multiple of pi, or square
    root) that rounds to it"""
    key = (bits, s)
    r = _ideal.get(key)
    if r is not None: return r
    if s == 'nan': return NAN
    v = float.fromhex(s) if 'inf' not in s else (INF if not s.startswith('-') else -INF)
    if math.isinf(v): return v
    if v == 0: r = Fraction(0)
    else:
        neg = v < 0
        a = abs(v)
        f = Fraction(a)
        m, e = math.frexp(a)
        ulp = Fraction(2) ** (e - (24 if bits == 32 else 53))
        # a double that holds a rounded float: use the float precision
        import struct
        r = None
        if f.denominator == 1 and f < 2 ** 53: r = f
        elif f.denominator <= 4096: r = f
        else:
            precs = [ulp] if bits == 32 else ([ulp] + ([Fraction(2) ** (e - 24)] if struct.unpack('f', struct.pack('f', a))[0] == a else []))
            for u in reversed(precs):
                lo, hi = f - u / 2, f + u / 2
                for k in _pi_cands:
                    p = k * Fraction(314159265358979323846, 10 ** 20)
                    if lo - u / 2 <= p <= hi + u / 2:
                        r = tm.rmul(poly.PI, k); break
                    p = k / Fraction(314159265358979323846, 10 ** 20)
                    if lo - u / 2 <= p <= hi + u / 2:
                        r = tm.rdiv(k, poly.PI); break
                if r is not None: break
                q = simplest_between(lo, hi)
                if q.denominator < 10 ** 4 or (q.denominator < (10 ** 13) and set(str(q.denominator)) <= set('0125') ):
                    r = q; break
                # decimal literal
                d = Fraction(repr(struct.unpack('f', struct.pack('f', a))[0]) if False else ('%.9g' % a if bits == 32 else repr(a)))
                if bits == 32:
                    for prec in range(1, 10):
                        d = Fraction('%.*g' % (prec, a))
                        if lo <= d <= hi: break
                r = d if lo <= d <= hi else q
                break
            if r is None: r = f
        if neg: r = tm.rneg(r)
    _ideal[key] = r
    return r

# ---------------------------------------------------------------------------------------- program
class Fn(object):
    __slots__ = ('name', 'dname', 'args', 'nvals', 'blocks', 'ipdom', 'dom', 'defblock', 'file', 'line', 'rettype', 'repo', 'loops', 'calls')

class Program(object):
    def __init__(self, path):
        self.fnraw = {}
        self.decl = {}
        self.graw = {}
        self.fns = {}
        self.types = None
        for line in open(path):
            tag, name, body = line.rstrip('\n').split('\t', 2)
            if tag == 'F': self.fnraw[name] = body
            elif tag == 'D': self.decl[name] = json.loads(body)
            elif tag == 'G': self.graw[name] = body
            elif tag == 'T': self.types = json.loads(body)
        self.gid = {}
        self.gname = {}
        self.nextid = 1
        for n in list(self.graw) + list(self.decl):
            if n not in self.gid:
                self.gid[n] = -self.nextid
                self.gname[-self.nextid] = n
                self.nextid += 1
        self.stubs = {}    # stub name -> real function name(s)
        self.opts = {}
        bydem = {}
        for n, d in self.decl.items():
            bydem.setdefault(d[0], []).append(n)
        self.bydem = bydem

    def tsize(self, t): return self.types[t][1]

    def const(self, c):
        """decode an operand encoding that is a constant"""
        k = c[0]
        if k == 'i':
            v = int(c[2])
            if c[1] == 1: return v != 0
            return v
        if k == 'f': return ideal(c[1], c[2])
        if k == 'n': return NULL
        if k == 'g': return Ptr(self.gid[c[1]], c[2])
        if k == 'np': return Ptr(0, c[1])
        if k == 'u': return self.undef(c[1])
        if k == 'z': return self.zero(c[1])
        if k == 'a': return tuple(self.const(x) for x in c[2])
        if k == 'b':
            bs = bytes.fromhex(c[2])
            return tuple(b - 256 if b > 127 else b for b in bs)
        if k == 'm': return None
        if k == 'ce':
            ops = [self.const(x) for x in c[3]]
            if c[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return ops[0]
            if c[1] == 'sub' and isinstance(ops[0], Ptr) and isinstance(ops[1], Ptr) and ops[0].o == ops[1].o: return ops[0].off - ops[1].off
            return UNDEF
        if k == 'asm': return ('asm', c[1])
        return UNDEF

    def demangled(self, n):
        d = self.decl.get(n)
        return d[0] if d else n

    def isrepo(self, n):
        d = self.decl.get(n)
        return bool(d and d[3])

    def undef(self, t):
        ty = self.types[t]
        if ty[0] == 's': return tuple(self.undef(x[1]) for x in ty[2])
        if ty[0] in ('a', 'v'): return tuple(self.undef(ty[3]) for _ in range(ty[2])) if ty[2] < 4096 else UNDEF
        return UNDEF

    def zero(self, t):
        ty = self.types[t]
        if ty[0] == 'i': return False if ty[2] == 1 else 0
        if ty[0] == 'f': return Fraction(0)
        if ty[0] == 'p': return NULL
        if ty[0] == 's': return tuple(self.zero(x[1]) for x in ty[2])
        if ty[0] in ('a', 'v'): return tuple(self.zero(ty[3]) for _ in range(ty[2]))
        return UNDEF

    def op(self, e):
        return e if isinstance(e, int) else K(self.const(e))

    def fn(self, name):
        f = self.fns.get(name)
        if f is not None: return f
        raw = self.fnraw.get(name)
        if raw is None: return None
        d = json.loads(raw)
        f = Fn()
        f.name = name
        dd = self.decl[name]
        f.dname, f.file, f.line, f.rettype, f.repo = dd[0], dd[4], dd[5], dd[6], dd[3]
        f.args = d['args']
        f.nvals = d['nvals']
        f.blocks = []
        f.defblock = {}
        for i in range(len(f.args)): f.defblock[i] = 0
        O = self.op
        for bi, b in enumerate(d['blocks']):
            blk = []
            for ins in b:
                o = ins[0]
                if o == 'dbg':
                    blk.append((o, -1, 0, 0, ins[4], O(ins[5]) if ins[5] is not None else None, ins[6], ins[7]))
                    continue
                f.defblock[ins[1]] = bi
                h = tuple(ins[:4])
                if o == 'getelementptr': x = h + (O(ins[4]), ins[5], [(s, O(v), w) for s, v, w in ins[6]])
                elif o in ('call', 'invoke'): x = h + (O(ins[4]), [O(a) for a in ins[5]]) + tuple(ins[6:])
                elif o == 'phi': x = h + (dict((b2, O(v)) for b2, v in ins[4]),)
                elif o == 'br': x = h + ((O(ins[4]), ins[5], ins[6]) if len(ins) > 5 else (ins[4],))
                elif o == 'switch': x = h + (O(ins[4]), ins[5], [(self.const(c), b2) for c, b2 in ins[6]])
                elif o == 'alloca': x = h + (ins[4], O(ins[5]), ins[6])
                elif o == 'load': x = h + (O(ins[4]),)
                elif o == 'store': x = h + (O(ins[4]), O(ins[5]), ins[6])
                elif o in ('icmp', 'fcmp'): x = h + (ins[4], O(ins[5]), O(ins[6]), ins[7])
                elif o == 'extractvalue': x = h + (O(ins[4]), ins[5])
                elif o == 'insertvalue': x = h + (O(ins[4]), O(ins[5]), ins[6])
                elif o == 'shufflevector': x = h + (O(ins[4]), O(ins[5]), ins[6])
                elif o == 'landingpad': x = h + (ins[4], [(a, self.const(c)) for a, c in ins[5]])
                elif o == 'atomicrmw': x = h + (ins[4], O(ins[5]), O(ins[6]), ins[7])
                elif o == 'cmpxchg': x = h + (O(ins[4]), O(ins[5]), O(ins[6]), ins[7])
                else: x = h + ([O(a) for a in ins[4]], ins[5], ins[6] if len(ins) > 6 else 0)
                blk.append(x)
            f.blocks.append(blk)
        self.cfg(f)
        self.fns[name] = f
        return f

    def succs(self, f, bi, exc=True):
        t = f.blocks[bi][-1]
        o = t[0]
        if o == 'br': return [t[5], t[6]] if len(t) > 5 else [t[4]]
        if o == 'switch': return [t[5]] + [b for _, b in t[6]]
        if o == 'invoke': return [t[6], t[7]] if exc else [t[6]]
        return []

    def cfg(self, f):
        n = len(f.blocks)
        succ = [sorted(set(self.succs(f, i))) for i in range(n)]
        # blocks that can reach a ret
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]: pred[s].append(i)
        good = set()
        st = [i for i in range(n) if f.blocks[i][-1][0] == 'ret']
        while st:
            x = st.pop()
            if x in good: continue
            good.add(x)
            st.extend(pred[x])
        # post dominators (exit = n) on good blocks
        EX = n
        order = []
        seen = set()
        def dfs(x):
            stack = [(x, iter(p for p in (pred[x] if x != EX else [i for i in range(n) if f.blocks[i][-1][0] == 'ret'])))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for p in it:
                    if p in good and p not in seen:
                        seen.add(p)
                        stack.append((p, iter(pred[p])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(EX)
        rpo = list(reversed(order))
        num = {b: i for i, b in enumerate(rpo)}
        ip = {EX: EX}
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = ip[a]
                while num[b] > num[a]: b = ip[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ss = [s for s in succ[b] if s in good]
                if f.blocks[b][-1][0] == 'ret': ss = [EX]
                new = None
                for s in ss:
                    if s in ip: new = s if new is None else inter(new, s)
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    ch = True
        f.ipdom = {b: (None if ip[b] == EX else ip[b]) for b in ip if b != EX}
        # dominators
        order = []
        seen = set([0])
        stack = [(0, iter(succ[0]))]
        while stack:
            y, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(y)
                stack.pop()
        rpo = list(reversed(order))
        num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        def inter2(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom: new = p if new is None else inter2(new, p)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        dom = {}
        for b in rpo:
            d = set([b])
            x = b
            while x != 0:
                x = idom[x]
                d.add(x)
            dom[b] = d
        f.dom = dom
        # natural loops: header -> set of blocks
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in pred[x] if p in dom)
        f.loops = loops

# ---------------------------------------------------------------------------------------- results
class Obligation(object):
    def __init__(self, label, where, verdict, backend, t, detail='', model=None):
        self.label = label; self.where = where; self.verdict = verdict; self.backend = backend
        self.t = t; self.detail = detail; self.model = model

