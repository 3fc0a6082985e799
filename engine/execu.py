"""Symbolic executor generating proof obligations."""
import time, math, re
from fractions import Fraction
import term as tm
from term import T
import solve, poly
from prog import *

PTRSZ = 8
STEP_LIMIT = 4000000

def isreal(v): return isinstance(v, Fraction) or (isinstance(v, T) and v.sort == 'R')
def issp(v): return isinstance(v, float)

NOOP_PAT = re.compile(r'basic_ostream|basic_stringstream|basic_ostringstream|basic_istringstream|std::ios_base|basic_ios|std::basic_istream|basic_streambuf|basic_stringbuf|std::locale|std::endl|std::setprecision|std::resetiosflags|boost::basic_format|boost::io::|basic_filebuf|basic_ofstream|basic_ifstream|basic_fstream|std::operator<<')

STD_BASES = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
             '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
             '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
             '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt13bad_exception': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
             '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc'}

class Engine(object):
    def __init__(self, prog, opts=None):
        self.p = prog
        self.o = opts or {}
        self.timeout = self.o.get('timeout', 5000)
        self.feas_timeout = self.o.get('feas_timeout', 300)
        self.loop_bound = self.o.get('loop_bound', 400)
        self.obligations = []
        self.covers = {}
        self.quats = []
        self.inputs = []          # (name, term/const, kind)
        self.nameuse = {}
        self.nextobj = 1
        self.typeids = {}
        self.bounded = []         # descriptions of incomplete explorations
        self.unsupported = []
        self.paths = 0
        self.steps = 0
        self.calls_seen = {}
        self.stubs = {}           # real mangled -> stub mangled
        self.stubuse = set()
        self.ginit = {}
        self.assumptions = set()
        self.failed_labels = {}
        self.deadline = time.time() + self.o.get('budget', 300)
        self.initmem = {}
        self.merge = self.o.get('merge', True)
        self.maxfail = self.o.get('maxfail', 6)
        self.invs = {}            # (fn mangled, header block) -> (inv fn name, [vars])
        self.inv_used = set()
        self.invspec = []
        self.H = {}
        for n in dir(self):
            if n.startswith('i_'): self.H[n[2:]] = getattr(self, n)
        self.X = {}
        for n in dir(self):
            if n.startswith('x_'): self.X[n[2:]] = getattr(self, n)
        self.callcache = {}

    # ------------------------------------------------------------------ memory
    def newobj(self, st, size, name='', heap=None):
        oid = self.nextobj
        self.nextobj += 1
        ob = Obj(size, name, st.own, heap)
        st.mem[oid] = ob
        return oid

    def getobj(self, st, oid, write=False):
        ob = st.mem.get(oid)
        if ob is None:
            if oid < 0: ob = self.globalobj(oid)
            if ob is None: raise Unsupported('unknown object %s' % oid)
            if not write: return ob
        if write and ob.own is not st.own:
            ob = ob.copy(st.own)
            st.mem[oid] = ob
        return ob

    def globalobj(self, oid):
        ob = self.initmem.get(oid)
        if ob is not None: return ob
        ob = self.ginit.get(oid)
        if ob is not None: return ob
        name = self.p.gname[oid]
        raw = self.p.graw.get(name)
        if raw is None:
            ob = Obj(0, name)     # function or external
        else:
            t, const, init = json.loads(raw)
            ob = Obj(self.p.tsize(t), name)
            ob.const = bool(const)
            if init is None:
                ob.size = max(ob.size, 8)
                ob.name = name + ' (external)'
            elif init[0] == 'z': ob.zero = True
            elif init[0] == 'u': pass
            else: self.putinit(ob, 0, t, init)
        self.ginit[oid] = ob
        return ob

    def putinit(self, ob, off, t, init):
        ty = self.p.types[t]
        if init[0] == 'z':
            ob.fills = ob.fills + ((off, off + ty[1], 0),)
            return
        if init[0] == 'b':
            bs = bytes.fromhex(init[2])
            for i, b in enumerate(bs): ob.cells[off + i] = (1, b - 256 if b > 127 else b)
            return
        if init[0] == 'a':
            if ty[0] == 's':
                for (o, tt), x in zip(ty[2], init[2]): self.putinit(ob, off + o, tt, x)
            else:
                es = self.p.tsize(ty[3])
                for i, x in enumerate(init[2]): self.putinit(ob, off + i * es, ty[3], x)
            return
        v = self.p.const(init)
        if v is UNDEF: return
        ob.cells[off] = (ty[1], v)

    def split_cells(self, ob, lo, hi):
        """make sure that no cell straddles lo or hi"""
        for b in (lo, hi):
            for d in range(1, 16):
                c = ob.cells.get(b - d)
                if c is not None:
                    if c[0] > d:
                        sz, v = c
                        parts = self.explode(sz, v, d)
                        del ob.cells[b - d]
                        o = b - d
                        for ps, pv in parts:
                            if pv is not UNDEF: ob.cells[o] = (ps, pv)
                            o += ps
                    break

    def explode(self, sz, v, d):
        """split value into pieces with a boundary at d"""
        if v is UNDEF: return [(d, UNDEF), (sz - d, UNDEF)]
        if type(v) is MU: return [(ps, pv if pv is UNDEF else MU(v.cond, pv)) for ps, pv in self.explode(sz, v.val, d)]
        if isinstance(v, Bits):
            out = []
            o = 0
            for ps, pv in v.pieces:
                if o < d < o + ps: out.extend(self.explode(ps, pv, d - o))
                else: out.append((ps, pv))
                o += ps
            return out
        if isinstance(v, int) and not isinstance(v, bool):
            u = v & ((1 << (8 * sz)) - 1)
            return [(d, tm.sgn(u & ((1 << (8 * d)) - 1), 8 * d)), (sz - d, tm.sgn(u >> (8 * d), 8 * (sz - d)))]
        if isinstance(v, Fraction) and v == 0:
            return [(d, 0), (sz - d, 0)]
        if isinstance(v, T) and isinstance(v.sort, int):
            u = tm.uext(v, 8 * sz)
            l = tm.wrap(tm.srem(u, 1 << (8 * d), 64), 8 * d)
            h = tm.wrap(tm.sdiv(u, 1 << (8 * d), 64), 8 * (sz - d))
            return [(d, l), (sz - d, h)]
        if isinstance(v, Ptr) and v.o == 0 and isinstance(v.off, int): return self.explode(sz, v.off, d)
        raise Unsupported('split of %r' % (v,))

    def rd(self, ob, off, size):
        """raw read: list of (size, value) pieces covering [off, off+size)"""
        c = ob.cells.get(off)
        if c is not None and c[0] == size: return [c]
        pieces = []
        o = off
        end = off + size
        # cell that starts before off
        for d in range(1, 16):
            c = ob.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    parts = self.explode(c[0], c[1], d)
                    q = off - d
                    for ps, pv in parts:
                        if q >= off:
                            if q + ps <= end: pieces.append((ps, pv))
                            else:
                                pieces.append((end - q, self.explode(ps, pv, end - q)[0][1]))
                                ps = end - q
                            o = q + ps
                        q += ps
                        if q >= end: break
                break
        while o < end:
            c = ob.cells.get(o)
            if c is not None:
                if o + c[0] <= end: pieces.append(c); o += c[0]
                else:
                    parts = self.explode(c[0], c[1], end - o)
                    q = o
                    for ps, pv in parts:
                        if q + ps <= end: pieces.append((ps, pv))
                        q += ps
                    o = end
                continue
            # gap up to the next cell
            g = 1
            while o + g < end and (o + g) not in ob.cells: g += 1
            pieces.extend(self.gap(ob, o, g))
            o += g
        return pieces

    def gap(self, ob, o, n):
        """contents of an area without cells: list of pieces"""
        out = []
        i = o
        while i < o + n:
            v = UNDEF if not ob.zero else 0
            run = o + n - i
            found = False
            for (a, b, f) in reversed(ob.fills):
                if a <= i < b:
                    v = UNDEF if f is None else f
                    run = min(run, b - i)
                    found = True
                    break
                elif a > i: run = min(run, a - i)
            # a later fill may start inside the run
            if found:
                for (a, b, f) in ob.fills:
                    if i < a < i + run: run = a - i
            if v is UNDEF: out.append((run, UNDEF))
            elif v == 0: out.append((run, 0))
            else:
                b = v & 255
                u = 0
                if run <= 16:
                    for k in range(run): u |= b << (8 * k)
                    out.append((run, tm.sgn(u, 8 * run)))
                else:
                    for k in range(run): out.append((1, tm.sgn(b, 8)))
            i += run
        return out

    def conv(self, pieces, kind, size, bits):
        """pieces -> value of the requested type"""
        if len(pieces) == 1:
            v = pieces[0][1]
            if v is UNDEF: return UNDEF
            if type(v) is MU:
                if pieces[0][0] != size: return UNDEF
                v = self.conv([(size, v.val)], kind, size, bits)
                return v if v is UNDEF else MU(pieces[0][1].cond, v)
            if isinstance(v, Bits): return self.conv(v.pieces, kind, size, bits) if len(v.pieces) == 1 else v
            if kind == 'f':
                if isinstance(v, (Fraction, float)): return v
                if isinstance(v, T):
                    if v.sort == 'R': return v
                    if isinstance(v.sort, int): raise Unsupported('int bits read as float')
                if isinstance(v, int):
                    if v == 0: return Fraction(0)
                    import struct
                    raw = (v & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
                    x = struct.unpack('<f' if size == 4 else '<d', raw)[0] if size in (4, 8) else 0.0
                    if math.isnan(x) or math.isinf(x): return x
                    return ideal(8 * size, x.hex())
                return v
            if kind == 'i':
                if isinstance(v, bool): return v if bits == 1 else int(v)
                if isinstance(v, int): return (v & 1) != 0 if bits == 1 else v
                if isinstance(v, T):
                    if v.sort == 'R': return Bits(pieces)
                    if v.sort == 'B': return v if bits == 1 else tm.ite_int(v, 1, 0, bits)
                    if bits == 1: return tm.Not(tm.icmp('eq', v, 0))
                    return v
                if isinstance(v, Fraction):
                    if v == 0: return 0
                    return Bits(pieces)
                if isinstance(v, float): return Bits(pieces)
                return v    # pointers as integers
            if kind == 'p':
                if isinstance(v, int): return Ptr(0, v)
                return v
            return v
        if all(p[1] is UNDEF for p in pieces): return UNDEF
        if any(type(p[1]) is MU for p in pieces): pieces = [(p[0], UNDEF if type(p[1]) is MU else p[1]) for p in pieces]
        if all(isinstance(p[1], int) and not isinstance(p[1], bool) for p in pieces):
            u = 0
            sh = 0
            for ps, pv in pieces:
                u |= (pv & ((1 << (8 * ps)) - 1)) << sh
                sh += 8 * ps
            return self.conv([(size, tm.sgn(u, 8 * size))], kind, size, bits)
        if kind == 'i':
            if all(isinstance(p[1], (int,)) or (isinstance(p[1], T) and isinstance(p[1].sort, int)) for p in pieces):
                u = 0
                sh = 0
                for ps, pv in pieces:
                    u = tm.iadd(u, tm.imul(tm.uext(pv, 8 * ps), 1 << sh, 64, True), 64, True) if sh else tm.uext(pv, 8 * ps)
                    sh += 8 * ps
                return tm.wrap(u, 8 * size)
            flat = []
            for ps, pv in pieces:
                if isinstance(pv, Bits): flat.extend(pv.pieces)
                else: flat.append((ps, pv))
            return Bits(flat)
        if kind == 'f' and all(isinstance(p[1], int) for p in pieces): return self.conv([(size, 0)], kind, size, bits)
        if any(p[1] is UNDEF for p in pieces): return UNDEF
        raise Unsupported('mixed load %s %s' % (kind, pieces))

    def cands(self, ob, off, n):
        """possible concrete offsets of the symbolic offset term"""
        lo_, hi_ = max(tm.lo(off), 0), min(tm.hi(off), ob.size - n)
        leaves = self.leaves(off)
        if leaves is not None:
            return [k for k in sorted(leaves) if 0 <= k <= ob.size - n]
        # congruence
        c, g = self.congr(off)
        if g == 0: g = 1
        res = []
        k = lo_ + ((c - lo_) % g)
        while k <= hi_:
            res.append(k)
            k += g
            if len(res) > 300: raise Unsupported('symbolic offset with too many candidates into %s' % ob.name)
        return res

    def leaves(self, t, depth=0):
        if not isinstance(t, T): return {t}
        if t.op == 'ite' and depth < 12:
            a = self.leaves(t.args[1], depth + 1)
            if a is None: return None
            b = self.leaves(t.args[2], depth + 1)
            if b is None: return None
            r = a | b
            return r if len(r) <= 64 else None
        if t.op in ('iadd', 'isub', 'imul'):
            a = self.leaves(t.args[0], depth + 1)
            if a is None: return None
            b = self.leaves(t.args[1], depth + 1)
            if b is None or len(a) * len(b) > 256: return None
            f = {'iadd': lambda x, y: x + y, 'isub': lambda x, y: x - y, 'imul': lambda x, y: x * y}[t.op]
            return set(f(x, y) for x in a for y in b)
        if t.op == 'srem' and not isinstance(t.args[1], T) and t.args[1] != 0:
            a = self.leaves(t.args[0], depth + 1)
            if a is None: return None
            return set(x - t.args[1] * tm.tdiv(x, t.args[1]) for x in a)
        if t.hi - t.lo <= 16 and t.op in ('var', 'select', 'srem', 'sdiv'): return set(range(t.lo, t.hi + 1))
        return None

    def congr(self, t):
        """t = c (mod g)"""
        if not isinstance(t, T): return t, 0
        if t.op == 'iadd':
            a, b = self.congr(t.args[0]), self.congr(t.args[1])
            return a[0] + b[0], math.gcd(a[1], b[1])
        if t.op == 'isub':
            a, b = self.congr(t.args[0]), self.congr(t.args[1])
            return a[0] - b[0], math.gcd(a[1], b[1])
        if t.op == 'imul':
            a, b = self.congr(t.args[0]), self.congr(t.args[1])
            return a[0] * b[0], math.gcd(math.gcd(a[1] * b[0], b[1] * a[0]), a[1] * b[1])
        if t.op == 'ite':
            a, b = self.congr(t.args[1]), self.congr(t.args[2])
            return a[0], math.gcd(math.gcd(a[1], b[1]), abs(a[0] - b[0]))
        return 0, 1

    def chkptr(self, st, p, n, what):
        """pointer validity; returns object"""
        if isinstance(p, T) or isinstance(p, Bits): raise Unsupported('symbolic pointer')
        if p is UNDEF: self.fail(st, 'use of an uninitialised pointer')
        if isinstance(p, int): p = Ptr(0, p)
        if p.o == 0: self.fail(st, 'null pointer dereference (%s)' % what)
        ob = self.getobj(st, p.o)
        if not ob.alive: self.fail(st, 'use after free of %s' % ob.name)
        return ob

    def bounds(self, st, ob, off, n):
        if isinstance(off, T):
            if isinstance(ob.size, T) or tm.lo(off) < 0 or tm.hi(off) > ob.size - n:
                g = tm.And(tm.icmp('le', 0, off), tm.icmp('le', tm.iadd(off, n, 64, True), ob.size))
                self.oblige(st, g, 'memory access in bounds (%s)' % (ob.name or 'object'), assume=True)
        else:
            if isinstance(ob.size, T):
                if off < 0: self.fail(st, 'out of bounds access to %s' % ob.name)
                self.oblige(st, tm.icmp('le', off + n, ob.size), 'memory access in bounds (%s)' % (ob.name or 'object'), assume=True)
            elif off < 0 or off + n > ob.size:
                self.fail(st, 'out of bounds access: offset %s size %s in %s of %s bytes' % (off, n, ob.name, ob.size))

    def load(self, st, p, t):
        ty = self.p.types[t]
        kind = ty[0]
        if kind in ('s', 'a', 'v'):
            if kind == 's': return tuple(self.load(st, Ptr(p.o, self.padd(p.off, o)), tt) for o, tt in ty[2])
            es = self.p.tsize(ty[3])
            return tuple(self.load(st, Ptr(p.o, self.padd(p.off, i * es)), ty[3]) for i in range(ty[2]))
        n = ty[1]
        ob = self.chkptr(st, p, n, 'load')
        if isinstance(p, int): p = Ptr(0, p)
        off = p.off
        self.bounds(st, ob, off, n)
        if ob.arr is not None: return self.aload(st, p.o, ob, off, kind, n, ty[2])
        if isinstance(off, T):
            cs = self.cands(ob, off, n)
            if not cs: raise PathEnd()
            res = None
            vals = [(k, self.unmaybe(st, self.conv(self.rd(ob, k, n), kind, n, ty[2]), tm.icmp('eq', off, k))) for k in cs]
            if any(v is UNDEF for k, v in vals) and not all(v is UNDEF for k, v in vals):
                vals = [(k, v) for k, v in vals if v is not UNDEF or self.feas(st, tm.icmp('eq', off, k))]
                cs = [k for k, v in vals]
            for k, v in reversed(vals):
                if res is None: res = v
                else:
                    try: res = self.itev(st, tm.icmp('eq', off, k), v, res)
                    except Unmergeable:
                        # pointers to different objects: one path for each element
                        k = self.concretize(st, off, cs)
                        return vals[cs.index(k)][1]
            return res
        c = ob.cells.get(off)
        if c is not None and c[0] == n:
            v = self.conv((c,), kind, n, ty[2])
            return self.unmaybe(st, v) if type(v) is MU else v
        if ob.name.endswith('(external)'): return self.extload(st, ob, off, kind, n)
        return self.unmaybe(st, self.conv(self.rd(ob, off, n), kind, n, ty[2]))

    def unmaybe(self, st, v, where=True):
        """a value that has been written on some of the merged paths only"""
        if type(v) is not MU: return v
        if self.must(st, tm.Or(v.cond, tm.Not(where))): return v.val
        return UNDEF

    def itevm(self, st, c, a, b):
        """merge of memory: remembers on which paths the cell has been written"""
        ua, ub = a is UNDEF, b is UNDEF
        ma, mb = type(a) is MU, type(b) is MU
        if not (ua or ub or ma or mb): return self.itev(st, c, a, b)
        if type(a) is PBits or type(b) is PBits or ua and ub or isinstance(c, bool):
            if ma: a = UNDEF
            if mb: b = UNDEF
            return self.itev(st, c, a, b)
        n = tm.Not(c)
        if ua: return MU(tm.And(n, b.cond) if mb else n, b.val if mb else b)
        if ub: return MU(tm.And(c, a.cond) if ma else c, a.val if ma else a)
        g = tm.And(tm.Or(n, a.cond if ma else True), tm.Or(c, b.cond if mb else True))
        x, y = a.val if ma else a, b.val if mb else b
        try: v = x if same(x, y) else self.itev(st, c, x, y)
        except Unmergeable: return UNDEF
        return v if g is True else MU(g, v)

    def extload(self, st, ob, off, kind, n):
        nm = ob.name[:-11]
        if nm == '__libc_single_threaded': return 1
        if kind == 'p': return Ptr(self.p.gid.get(nm, 0), 0)
        raise Unsupported('read of external global ' + nm)

    def aload(self, st, oid, ob, off, kind, n, bits):
        stride, fields = ob.arr
        idx, fo = self.aindex(off, stride)
        f = fields.get(fo)
        if f is None:
            # typed on first use
            es = 'R' if kind == 'f' else bits
            if kind == 'p': raise Unsupported('pointer array of symbolic size')
            arr = tm.mk('var', ('arr!%d.%d' % (oid, fo),), ('A', es))
            ob2 = self.getobj(st, oid, True)
            ob2.arr[1][fo] = (n, kind, arr)
            f = ob2.arr[1][fo]
        if f[0] != n or f[1] != kind: raise Unsupported('mixed typed access to symbolic array')
        return tm.select(f[2], idx)

    def aindex(self, off, stride):
        if not isinstance(off, T): return off // stride, off % stride
        c = 0
        t = off
        if t.op == 'iadd' and not isinstance(t.args[1], T):
            c = t.args[1] % stride
            t = tm.iadd(t, -c, 64, True)
        e = tm.exact_div(t, stride)
        if e is None:
            # constants spread inside
            cc, g = self.congr(off)
            if g % stride == 0 and g:
                c = cc % stride
                return tm.sdiv(tm.iadd(off, -c, 64, True), stride, 64), c
            raise Unsupported('index of symbolic array %s / %d' % (tm.show(off), stride))
        return e, c

    def padd(self, a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        return tm.iadd(a, b, 64, True)

    def store(self, st, p, v, t):
        ty = self.p.types[t]
        kind = ty[0]
        if kind in ('s', 'a', 'v'):
            if v is UNDEF: v = self.p.undef(t)
            if kind == 's':
                for (o, tt), x in zip(ty[2], v): self.store(st, Ptr(p.o, self.padd(p.off, o)), x, tt)
            else:
                es = self.p.tsize(ty[3])
                for i, x in enumerate(v): self.store(st, Ptr(p.o, self.padd(p.off, i * es)), x, ty[3])
            return
        n = ty[1]
        ob = self.chkptr(st, p, n, 'store')
        if ob.const: self.fail(st, 'write to constant ' + ob.name)
        self.bounds(st, ob, p.off, n)
        ob = self.getobj(st, p.o, True)
        if ob.arr is not None:
            stride, fields = ob.arr
            idx, fo = self.aindex(p.off, stride)
            f = fields.get(fo)
            if f is None:
                if kind == 'p': raise Unsupported('pointer array of symbolic size')
                es = 'R' if kind == 'f' else ty[2]
                f = (n, kind, tm.mk('var', ('arr!%d.%d' % (p.o, fo),), ('A', es)))
            if f[0] != n: raise Unsupported('mixed typed access to symbolic array')
            if v is UNDEF: return
            fields[fo] = (f[0], f[1], tm.store(f[2], idx, v))
            return
        off = p.off
        if isinstance(off, T):
            cs = self.cands(ob, off, n)
            if not cs: raise PathEnd()
            if len(cs) == 1:
                self.put(ob, cs[0], n, v)
                return
            olds = [self.conv(self.rd(ob, k, n), kind, n, ty[2]) for k in cs]
            if (v is UNDEF or type(v) is MU or any(o is UNDEF or type(o) is MU for o in olds)):
                self.put(ob, self.concretize(st, off, cs), n, v)
                return
            try:
                nvs = [self.itev(st, tm.icmp('eq', off, k), v, old) for k, old in zip(cs, olds)]
            except Unmergeable:
                self.put(ob, self.concretize(st, off, cs), n, v)
                return
            for k, nv in zip(cs, nvs): self.put(ob, k, n, nv)
            return
        self.put(ob, off, n, v)

    def put(self, ob, off, n, v):
        c = ob.cells.get(off)
        if c is None or c[0] != n:
            self.clear(ob, off, off + n)
        if isinstance(v, Bits):
            if ob.cells.get(off) is not None: del ob.cells[off]
            o = off
            for ps, pv in v.pieces:
                if pv is not UNDEF: ob.cells[o] = (ps, pv)
                else: ob.fills = ob.fills + ((o, o + ps, None),)
                o += ps
            return
        if v is UNDEF:
            ob.cells.pop(off, None)
            if ob.zero or ob.fills: ob.fills = ob.fills + ((off, off + n, None),)
            return
        ob.cells[off] = (n, v)

    def clear(self, ob, lo, hi):
        self.split_cells(ob, lo, hi)
        if hi - lo > 2 * len(ob.cells):
            for k in [k for k in ob.cells if lo <= k < hi]: del ob.cells[k]
        else:
            for k in range(lo, hi): ob.cells.pop(k, None)

    def memset(self, st, p, byte, n):
        if n == 0: return
        if isinstance(n, T):
            ob = self.chkptr(st, p, 0, 'memset')
            if ob.arr is None and isinstance(ob.size, T) or ob.arr is not None: return self.asetall(st, p, byte, n)
            raise Unsupported('memset of symbolic size')
        ob = self.chkptr(st, p, n, 'memset')
        self.bounds(st, ob, p.off, n)
        if isinstance(p.off, T): raise Unsupported('memset at symbolic offset')
        ob = self.getobj(st, p.o, True)
        self.clear(ob, p.off, p.off + n)
        if byte is UNDEF: f = None
        elif isinstance(byte, T):
            for k in range(n): ob.cells[p.off + k] = (1, byte)
            return
        else: f = byte
        fl = tuple(x for x in ob.fills if not (x[0] >= p.off and x[1] <= p.off + n))
        ob.fills = fl + ((p.off, p.off + n, f),)

    def asetall(self, st, p, byte, n):
        ob = self.getobj(st, p.o, True)
        if p.off != 0: raise Unsupported('partial memset of a symbolic array')
        self.oblige(st, tm.icmp('eq', n, ob.size), 'memset covers the buffer', assume=True)
        if byte != 0: raise Unsupported('memset value')
        ob.arr = (ob.arr[0], {})
        self._azero = getattr(self, '_azero', set())
        raise Unsupported('memset of symbolic array')

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if isinstance(n, T):
            lv = self.leaves(n)
            if lv is None or len(lv) > 40: return self.amemcpy(st, d, s, n)
            n = self.concretize(st, n, sorted(lv))
            if n == 0: return
        so = self.chkptr(st, s, n, 'memcpy source')
        do = self.chkptr(st, d, n, 'memcpy destination')
        self.bounds(st, so, s.off, n)
        self.bounds(st, do, d.off, n)
        if do.const: self.fail(st, 'write to constant ' + do.name)
        if so.arr is not None or do.arr is not None:
            # element copies field by field
            tmpl = so.arr if so.arr is not None else do.arr
            fields = sorted(tmpl[1].items())
            if not fields: raise Unsupported('memcpy of untyped symbolic array')
            i0, fo = self.aindex((s if so.arr is not None else d).off, tmpl[0])
            k = 0
            while k < n:
                f = tmpl[1].get((fo + k) % tmpl[0])
                if f is None: k += 1; continue
                tidx = self.typeof(f[1], f[0])
                v = self.load(st, Ptr(s.o, self.padd(s.off, k)), tidx)
                self.store(st, Ptr(d.o, self.padd(d.off, k)), v, tidx)
                k += f[0]
            return
        if isinstance(s.off, T):
            cs = self.cands(so, s.off, n)
            if not cs: raise PathEnd()
            s = Ptr(s.o, self.concretize(st, s.off, cs))
        if isinstance(d.off, T):
            cs = self.cands(do, d.off, n)
            if not cs: raise PathEnd()
            d = Ptr(d.o, self.concretize(st, d.off, cs))
        pieces = self.rd(so, s.off, n)
        do = self.getobj(st, d.o, True)
        self.clear(do, d.off, d.off + n)
        o = d.off
        for ps, pv in pieces:
            if pv is UNDEF:
                if do.zero or do.fills: do.fills = do.fills + ((o, o + ps, None),)
            elif ps > 8 and isinstance(pv, int) :
                do.fills = tuple(x for x in do.fills if not (x[0] >= o and x[1] <= o + ps)) + ((o, o + ps, 0),) if pv == 0 else do.fills
                if pv != 0: raise Unsupported('wide fill')
            else: do.cells[o] = (ps, pv)
            o += ps

    def typeof(self, kind, n):
        for i, t in enumerate(self.p.types):
            if t[0] == kind and t[1] == n and (kind != 'i' or t[2] == 8 * n): return i
        self.p.types.append([kind, n, 8 * n])
        return len(self.p.types) - 1

    def amemcpy(self, st, d, s, n):
        so = self.chkptr(st, s, 0, 'memcpy source')
        do = self.chkptr(st, d, 0, 'memcpy destination')
        if so.arr is None or do.arr is None: raise Unsupported('memcpy of symbolic length %s' % tm.show(n))
        self.oblige(st, tm.And(tm.icmp('le', 0, n), tm.icmp('le', self.padd(s.off, n), so.size)), 'memcpy source in bounds', assume=True)
        self.oblige(st, tm.icmp('le', self.padd(d.off, n), do.size), 'memcpy destination in bounds', assume=True)
        stride = so.arr[0]
        si, sf = self.aindex(s.off, stride)
        di, df = self.aindex(d.off, do.arr[0])
        if do.arr[0] != stride and not do.arr[1]: 
            do = self.getobj(st, d.o, True); do.arr = (stride, {})
        if do.arr[0] != stride or sf or df: raise Unsupported('memcpy of symbolic arrays of different layout')
        if si == 0 and di == 0:
            fresh = not do.arr[1] or (tm.icmp('eq', n, do.size) is True)
            if fresh:
                do = self.getobj(st, d.o, True)
                do.arr = (stride, dict(so.arr[1]))
                return
        raise Unsupported('partial memcpy of symbolic array')

    # ------------------------------------------------------------------ values
    def itev(self, st, c, a, b):
        """ite over machine values"""
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is PBits or type(b) is PBits:
            x, mx = (a.val, a.mask) if type(a) is PBits else (a, 0)
            y, my = (b.val, b.mask) if type(b) is PBits else (b, 0)
            return PBits(self.itev(st, c, x, y), mx | my)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off: return a
                return Ptr(a.o, tm.ite_int(c, a.off, b.off, 64))
            raise Unmergeable()
        if isinstance(a, tuple): return tuple(self.itev(st, c, x, y) for x, y in zip(a, b))
        if isinstance(a, Bits) or isinstance(b, Bits):
            if isinstance(a, Bits) and isinstance(b, Bits) and [p[0] for p in a.pieces] == [p[0] for p in b.pieces]:
                return Bits([(p[0], self.itev(st, c, p[1], q[1])) for p, q in zip(a.pieces, b.pieces)])
            if isinstance(a, Bits) and isinstance(b, int) and b == 0:
                return Bits([(p[0], self.itev(st, c, p[1], Fraction(0) if isreal(p[1]) else 0)) for p in a.pieces])
            if isinstance(b, Bits) and isinstance(a, int) and a == 0:
                return Bits([(p[0], self.itev(st, c, Fraction(0) if isreal(p[1]) else 0, p[1])) for p in b.pieces])
            raise Unmergeable()
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)): return a
            raise Unmergeable()
        if isinstance(a, T) and isinstance(b, T):
            sa, sb = a.sort, b.sort
            if sa == 'R' or sa == 'B': return tm.Ite(c, a, b)
            return tm.ite_int(c, a, b, sa)
        if isinstance(a, T): s = a.sort
        elif isinstance(b, T): s = b.sort
        elif isinstance(a, bool): s = 'B'
        elif isinstance(a, Fraction) or isinstance(b, Fraction): s = 'R'
        else: s = 64
        if s == 'R':
            if isinstance(a, int): a = Fraction(a)
            if isinstance(b, int): b = Fraction(b)
            return tm.Ite(c, a, b)
        if s == 'B': return tm.Ite(c, a, b)
        return tm.ite_int(c, a, b, s if isinstance(s, int) else 64)

    # ------------------------------------------------------------------ path conditions
    def assume(self, st, c):
        if c is True: return True
        if c is False: return False
        if c.op == 'and':
            for x in c.args:
                if not self.assume(st, x): return False
            return True
        if c.id not in st.pcset:
            st.pc.append(c)
            st.pcset.add(c.id)
        return True

    def known(self, st, c):
        if not isinstance(c, T): return c
        if c.id in st.pcset: return True
        n = tm.Not(c)
        if isinstance(n, T):
            if n.id in st.pcset: return False
        else: return not n
        return None

    def feas(self, st, c):
        k = self.known(st, c)
        if k is not None: return k
        if c.op == 'and':
            for x in c.args:
                if self.known(st, x) is False: return False
        if self.signs(c) is False: return False
        return solve.check2(st.pc, c, self.quats, self.feas_timeout) != 'unsat'

    def signs(self, c):
        """cheap refutation of a comparison by the sign analysis of the normaliser"""
        neg = c.op == 'not'
        x = c.args[0] if neg else c
        if not isinstance(x, T) or x.op not in ('rle', 'req'): return None
        if x.op == 'rle' and not isinstance(x.args[0], T) and x.args[0] <= 0 and tm.nonneg(x.args[1]): return not neg
        try:
            n = poly.Norm(self.quats)
            d = tm.rsub(x.args[1], x.args[0])
            n.prepass([d])
            s = n.sign(d)
        except (poly.HasIte, poly.TooBig, ZeroDivisionError):
            return None
        if s is None: return None
        if x.op == 'rle': v = {'>0': True, '>=0': True, '=0': True, '<0': False}.get(s)
        else: v = {'>0': False, '<0': False, '=0': True}.get(s)
        if v is None: return None
        return (not v) if neg else v

    def must(self, st, c):
        """is c implied by the path condition (conservative)"""
        if c is True or c is False: return c
        return not self.feas(st, tm.Not(c))

    def concretize(self, st, t, cs):
        for k in cs[:-1]:
            if self.decide(st, tm.icmp('eq', t, k)): return k
        if not self.decide(st, tm.icmp('eq', t, cs[-1])): raise PathEnd()
        return cs[-1]

    def decide(self, st, c):
        """concrete truth value of c on this path, forking if both are possible"""
        if not isinstance(c, T): return bool(c)
        k = self.known(st, c)
        if k is not None: return k
        if not self.feas(st, c):
            self.assume(st, tm.Not(c)); return False
        if not self.feas(st, tm.Not(c)):
            self.assume(st, c); return True
        raise Fork(c)

    def where(self, st):
        out = []
        for f in st.frames[-4:]:
            ln = 0
            blk = f.fn.blocks[f.bi]
            i = min(max(f.ii - 1, 0), len(blk) - 1)
            if blk: ln = blk[i][3]
            out.append('%s:%s' % (f.fn.dname.split('(')[0][-60:], ln))
        return ' > '.join(out)

    def oblige(self, st, goal, label, assume=False):
        if goal is True:
            solve.STATS.n['trivial'] += 1
            self.obligations.append(Obligation(label, '', 'proved', 'trivial', 0))
            return
        t0 = time.time()
        w = self.where(st)
        if self.failed_labels.get(label, 0) >= self.maxfail:
            self.obligations.append(Obligation(label, w, 'skipped', '', 0))
        else:
            pr = solve.Prover(st.pc, self.quats, self.timeout, self.o.get('prove_budget', 60))
            v, m = pr.prove(goal)
            detail = ''
            if v != 'proved':
                self.failed_labels[label] = self.failed_labels.get(label, 0) + 1
                detail = 'goal: ' + tm.show(goal, 8)[:1500]
            self.obligations.append(Obligation(label, w, v, pr.backend or '', time.time() - t0, detail, self.model(st, m)))
        if assume: 
            if not self.assume(st, goal): raise PathEnd()

    def model(self, st, m):
        if m is None: return None
        import z3
        out = {}
        for name, v, kind in st.inputs if st.inputs is not None else self.inputs:
            try:
                z = m.eval(solve.zt(v), model_completion=True) if isinstance(v, T) else v
                if isinstance(v, T):
                    if kind == 'b': out[name] = 1 if z3.is_true(z) else 0
                    elif kind == 'i': out[name] = z.as_long()
                    else:
                        if z3.is_algebraic_value(z): z = z.approx(12)
                        out[name] = float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
            except Exception:
                pass
        return out

    def fail(self, st, label):
        """a definite error on this path: an obligation 'path infeasible'"""
        self.oblige(st, False, label)
        raise PathEnd()

    def setup(self):
        """contract stubs and loop invariants from the annotations of the harness file"""
        byname = {}
        for n, d in self.p.decl.items():
            byname.setdefault(d[0], []).append(n)
        for n, d in self.p.decl.items():
            for an in d[1]:
                if an.startswith('stub:'):
                    t = re.sub(r'> (?=>)', '>', an[5:])
                    c = byname.get(t)
                    if not c: c = [m for k, v in byname.items() for m in v if k.split('(')[0] == t and m != n]
                    for m in c or []: self.stubs[m] = n
                elif an.startswith('inv:'):
                    self.invspec.append((an[4:], n))

    def reset(self):
        self.signcache = {}
        self.deadline = time.time() + self.o.get('budget', 300)
        self.steps = 0
        self.calls_seen = {}
        self.paths = 0
        self.bounded = []
        self.covers = {}
        self.assumptions = set()

    # ------------------------------------------------------------------ running
    def newstate(self):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.pcset = set()
        st.own = object()
        st.exc = None
        st.caught = []
        st.inputs = None
        st.ended = None
        st.notes = []
        st.guards = ()
        return st

    def pushframe(self, st, fn, args, onret):
        f = Frame()
        f.fn = fn
        f.regs = [None] * fn.nvals
        f.bi = 0
        f.ii = 0
        f.prev = -1
        f.allocas = []
        f.onret = onret
        f.cnt = None
        f.landing = None
        f.invs = None
        for i, a in enumerate(args[:len(fn.args)]):
            bv = fn.args[i][1]
            if bv:
                o = self.newobj(st, bv, 'byval')
                f.allocas.append(o)
                st.frames.append(f)
                self.memcpy(st, Ptr(o, 0), a, bv)
                st.frames.pop()
                a = Ptr(o, 0)
            f.regs[i] = a
        st.frames.append(f)

    def runharness(self, name):
        st = self.newstate()
        fn = self.p.fn(name)
        self.pushframe(st, fn, [], None)
        self.run(st, (1, 'ret'))

    def run_ctors(self):
        """static initialisers"""
        raw = self.p.graw.get('llvm.global_ctors')
        if raw is None: return
        t, c, init = json.loads(raw)
        if init is None or init[0] != 'a': return
        st = self.newstate()
        for e in init[2]:
            try:
                fnp = e[2][1]
                name = fnp[1]
                fn = self.p.fn(name)
                if fn is None: continue
                s2 = self.tryinit(st, fn)
                if s2 is not None: st = s2; continue
                for blk in fn.blocks:
                    for ins in blk:
                        if ins[0] == 'call' and isinstance(ins[4], K) and isinstance(ins[4].v, Ptr):
                            sub = self.p.fn(self.p.gname[ins[4].v.o])
                            if sub is None or sub.args: continue
                            s2 = self.tryinit(st, sub)
                            if s2 is not None: st = s2
            except (Unsupported, PathEnd, KeyError, IndexError):
                pass
        self.obligations = []
        self.initmem = dict(st.mem)
        self.failed_labels = {}

    def tryinit(self, st, fn):
        s2 = st.fork()
        try:
            self.pushframe(s2, fn, [], None)
            r = self.run(s2, (1, 'ret'))
            if len(r) == 1:
                r[0].frames = []
                return r[0]
        except (Unsupported, PathEnd):
            pass
        return None

    def run(self, st, stop):
        """run until every state reaches stop = (depth, block | 'ret'); returns the states that did (merged)
        and those that left the frame (escaped) - escaped ones are distinguished by their depth"""
        work = [st]
        out = []
        d, blk = stop
        while work:
            s = work.pop()
            while True:
                if len(s.frames) < d or (len(s.frames) == d and s.frames[-1].bi == blk and s.frames[-1].ii == -1):
                    if len(s.frames) == d:
                        s.frames[-1].ii = -2   # marked as arrived; caller resets
                    out.append(s)
                    break
                f = s.frames[-1]
                if f.ii == -1: f.ii = self.firstnonphi(f)
                r = self.steps_until_branch(s, d, blk)
                if r is None: break            # path ended
                if r is True: continue          # stop check
                # symbolic branch: r = (cond, tblock, fblock) or ('fork', cond) or list of cases
                sub = self.branch(s, r)
                if sub is None: break
                work.extend(sub[1:])
                if not sub: break
                s = sub[0]
        if len(out) > 1 and self.merge: out = self.mergeall(out)
        return out

    def firstnonphi(self, f):
        blk = f.fn.blocks[f.bi]
        i = 0
        while blk[i][0] in ('phi',) or (blk[i][0] == 'dbg'):
            i += 1
        return i

    def branch(self, s, r):
        """explore the alternatives of a symbolic branch; returns the states to continue with"""
        f = s.frames[-1]
        depth = len(s.frames)
        P = f.fn.ipdom.get(f.bi)
        alts = []
        if r[0] == 'fork':
            c = r[1]
            s2 = s.fork()
            if self.assume(s, c): alts.append(s)
            if self.assume(s2, tm.Not(c)): alts.append(s2)
            # let both run to the post dominator of the current block
        else:
            # list of (cond, block)
            for i, (c, b) in enumerate(r[1]):
                s2 = s if i == len(r[1]) - 1 else s.fork()
                if self.assume(s2, c):
                    self.goto(s2, b)
                    alts.append(s2)
        if len(alts) == 1: return alts
        if not self.merge: return alts
        res = []
        for a in alts:
            stop = (depth, P if P is not None else 'ret')
            fr = a.frames[-1]
            try:
                res.extend(self.run(a, stop))
            except RecursionError:
                self.bounded.append('recursion'); 
        for x in res:
            if len(x.frames) == depth and x.frames[-1].ii == -2: x.frames[-1].ii = -1
        arrived = [x for x in res if len(x.frames) == depth]
        esc = [x for x in res if len(x.frames) != depth]
        if len(arrived) > 1: arrived = self.mergeall(arrived)
        if len(esc) > 1: esc = self.mergeall(esc)
        allr = arrived + esc
        return allr if allr else None

    def mergeall(self, sts):
        groups = {}
        order = []
        for s in sts:
            if s.frames:
                f = s.frames[-1]
                key = (len(s.frames), f.fn.name, f.bi, f.ii)
            else: key = ()
            if key not in groups: groups[key] = []; order.append(key)
            groups[key].append(s)
        out = []
        for k in order:
            g = groups[k]
            acc = []
            for s in g:
                for i in range(len(acc)):
                    m = self.merge2(acc[i], s)
                    if m is not None:
                        acc[i] = m
                        break
                else: acc.append(s)
            out.extend(acc)
        return out

    def merge2(self, a, b):
        if len(a.frames) != len(b.frames): return None
        if (a.exc is None) != (b.exc is None): return None
        if a.exc is not None: return None
        if a.caught != b.caught: return None
        if a.notes != b.notes: return None
        i = 0
        n = min(len(a.pc), len(b.pc))
        while i < n and a.pc[i] is b.pc[i]: i += 1
        sa, sb = a.pc[i:], b.pc[i:]
        if not sa or not sb: return None if (a.mem != b.mem) else None
        ca, cb = tm.And(*sa), tm.And(*sb)
        na = tm.Not(sa[0])
        if na is sb[0]: c = sa[0]
        elif any(tm.Not(x) in sb for x in sa if isinstance(x, T)):
            c = [x for x in sa if tm.Not(x) in sb][0]
        else: c = ca
        try:
            m = State()
            m.own = object()
            a.own = object(); b.own = object()
            m.exc = None
            m.caught = list(a.caught)
            m.inputs = a.inputs
            m.ended = None
            m.notes = list(a.notes)
            m.guards = a.guards
            m.frames = []
            for fa, fb in zip(a.frames, b.frames):
                if fa.fn is not fb.fn or fa.bi != fb.bi or fa.ii != fb.ii: return None
                nf = fa.copy()
                if fa.regs != fb.regs:
                    dom = fa.fn.dom.get(fa.bi, ())
                    db = fa.fn.defblock
                    for k in range(len(fa.regs)):
                        x, y = fa.regs[k], fb.regs[k]
                        if x is y: continue
                        if x is None or y is None: nf.regs[k] = None; continue
                        if db.get(k, 0) not in dom: nf.regs[k] = None; continue
                        if same(x, y): continue
                        nf.regs[k] = self.itev(m, c, x, y)
                if fa.allocas != fb.allocas:
                    nf.allocas = list(set(fa.allocas) | set(fb.allocas))
                m.frames.append(nf)
            m.mem = dict(a.mem)
            for oid, ob in b.mem.items():
                oa = a.mem.get(oid)
                if oa is ob: continue
                if oa is None:
                    if oid < 0: oa = self.globalobj(oid)
                    else: m.mem[oid] = ob; continue
                    if oa is ob: m.mem[oid] = ob; continue
                m.mem[oid] = self.mergeobj(m, c, oa, ob)
            for oid, oa in a.mem.items():
                if oid not in b.mem and oid < 0:
                    m.mem[oid] = self.mergeobj(m, c, oa, self.globalobj(oid))
        except Unmergeable:
            return None
        except Unsupported:
            return None
        m.pc = a.pc[:i]
        m.pcset = set(x.id for x in m.pc)
        self.assume(m, tm.Or(ca, cb))
        return m

    def mergeobj(self, m, c, x, y):
        if x.alive != y.alive: raise Unmergeable()
        if x.size is not y.size and x.size != y.size: raise Unmergeable()
        n = x.copy(m.own)
        if x.arr is not None:
            if y.arr is None or x.arr[0] != y.arr[0]: raise Unmergeable()
            for k in set(x.arr[1]) | set(y.arr[1]):
                p, q = x.arr[1].get(k), y.arr[1].get(k)
                if p is None: n.arr[1][k] = q; continue
                if q is None: continue
                if p[2] is not q[2]: n.arr[1][k] = (p[0], p[1], tm.Ite(c, p[2], q[2]))
            return n
        if x.fills != y.fills:
            # materialise: keep the common prefix of fills only if the rest is covered by cells
            keys = set()
            for (a, b, f) in set(x.fills) ^ set(y.fills):
                keys.update(range(a, b))
            offs = [k for k in keys if k not in x.cells and k not in y.cells]
        cx, cy = x.cells, y.cells
        if cx != cy or x.fills != y.fills:
            allk = set(cx) | set(cy)
            done = {}
            for k in sorted(allk):
                p, q = cx.get(k), cy.get(k)
                if p is q: continue
                if p is not None and q is not None and p[0] == q[0]:
                    if same(p[1], q[1]): continue
                    v = self.itevm(m, c, p[1], q[1])
                    self.put(n, k, p[0], v)
                else:
                    sz = (p or q)[0]
                    if p is not None and q is not None: sz = max(p[0], q[0])
                    px = self.rd(x, k, sz)
                    py = self.rd(y, k, sz)
                    kind = self.kindof(px, py)
                    vx, vy = self.conv(px, kind, sz, 8 * sz), self.conv(py, kind, sz, 8 * sz)
                    if same(vx, vy): self.put(n, k, sz, vx); continue
                    self.put(n, k, sz, self.itevm(m, c, vx, vy))
            if x.fills != y.fills:
                # areas without cells in both: merge bytewise where they differ
                for k in sorted(set(offs)):
                    if any(k - d in n.cells and n.cells[k - d][0] > d for d in range(0, 16)): continue
                    vx, vy = self.gap(x, k, 1)[0][1], self.gap(y, k, 1)[0][1]
                    if vx is UNDEF and vy is UNDEF or same(vx, vy): 
                        if self.gap(n, k, 1)[0][1] is not vx: self.put(n, k, 1, vx)
                        continue
                    self.put(n, k, 1, UNDEF if (vx is UNDEF or vy is UNDEF) else self.itev(m, c, vx, vy))
        return n

    def kindof(self, *pl):
        for ps in pl:
            for _, v in ps:
                if type(v) is MU: v = v.val
                if isinstance(v, Ptr): return 'p'
                if isreal(v) or isinstance(v, float): return 'f'
        return 'i'

    def goto(self, st, b):
        """transfer control to block b of the top frame (phis evaluated)"""
        f = st.frames[-1]
        cur = f.bi
        blk = f.fn.blocks[b]
        vals = []
        for ins in blk:
            if ins[0] == 'phi':
                x = ins[4][cur]
                vals.append((ins[1], f.regs[x] if type(x) is int else x.v))
            elif ins[0] != 'dbg': break
        for k, v in vals: f.regs[k] = v
        f.prev = cur
        f.bi = b
        f.ii = -1
        hdr = f.fn.loops.get(b)
        if hdr is not None:
            if f.cnt is None: f.cnt = {}
            else: f.cnt = dict(f.cnt)
            f.cnt[b] = (f.cnt.get(b, 0) + 1) if cur in hdr else 1
            # reset inner loops
            if cur not in hdr:
                pass
            if f.cnt[b] > self.loop_bound:
                self.bounded.append('loop at %s unrolled %d times' % (self.where(st), self.loop_bound))
                raise PathEnd()
            iv = self.invs.get((f.fn.name, b))
            if iv is not None: self.loop_header(st, f, b, cur, hdr, iv)

    def steps_until_branch(self, st, d, blk):
        """execute until stop is reached / path ends (None) / symbolic branch"""
        H = self.H
        try:
            while True:
                f = st.frames[-1]
                if f.ii < 0:
                    return True
                blkk = f.fn.blocks[f.bi]
                n0 = len(st.frames)
                ii = f.ii
                L = len(blkk)
                while ii < L:
                    ins = blkk[ii]
                    f.ii = ii + 1
                    self.steps += 1
                    r = H[ins[0]](st, f, ins)
                    if r is not None: break
                    ii += 1
                if self.steps & 1023 == 0 or True:
                    if self.steps > STEP_LIMIT or time.time() > self.deadline:
                        raise Unsupported('budget exhausted at %s' % self.where(st))
                if r == 'call':
                    continue
                if r == 'jump':
                    if len(st.frames) < d: return True
                    if not st.frames: return True
                    f2 = st.frames[-1]
                    if f2.ii == -1:
                        if len(st.frames) == d and f2.bi == blk: return True
                        f2.ii = self.firstnonphi(f2)
                    continue
                if r == 'end':
                    self.paths += 1
                    return None
                return r
        except Fork as fk:
            f = st.frames[-1]
            f.ii -= 1
            return ('fork', fk.cond)
        except PathEnd:
            self.paths += 1
            return None

    def val(self, f, x):
        return f.regs[x] if type(x) is int else x.v

    # ------------------------------------------------------------------ instructions
    def i_dbg(self, st, f, ins):
        return None

    def i_phi(self, st, f, ins):
        return None

    def i_alloca(self, st, f, ins):
        n = self.val(f, ins[5])
        if isinstance(n, T): raise Unsupported('variable sized alloca')
        o = self.newobj(st, ins[4] * n, ins[6] or 'local of ' + f.fn.dname.split('(')[0][-40:])
        f.allocas.append(o)
        f.regs[ins[1]] = Ptr(o, 0)

    def i_load(self, st, f, ins):
        p = ins[4]
        p = f.regs[p] if type(p) is int else p.v
        f.regs[ins[1]] = self.load(st, p, ins[2])

    def i_store(self, st, f, ins):
        v, p = self.val(f, ins[4]), self.val(f, ins[5])
        if isinstance(p, int): p = Ptr(0, p)
        if p is UNDEF or p is None: self.fail(st, 'store through an uninitialised pointer')
        self.store(st, p, v, ins[6])

    def i_getelementptr(self, st, f, ins):
        p = self.val(f, ins[4])
        if p is UNDEF: f.regs[ins[1]] = UNDEF; return
        if isinstance(p, int): p = Ptr(0, p)
        if isinstance(p, tuple): raise Unsupported('vector gep')
        off = self.padd(p.off, ins[5]) if ins[5] else p.off
        for s, x, w in ins[6]:
            i = self.val(f, x)
            if i is UNDEF: f.regs[ins[1]] = UNDEF; return
            if isinstance(i, Bits): raise Unsupported('gep index bits')
            if isinstance(i, Ptr):
                if i.o: raise Unsupported('gep index ptr')
                i = i.off
            if isinstance(i, int): 
                off = self.padd(off, i * s)
            else: off = tm.iadd(off, tm.imul(i, s, 64, True), 64, True)
        f.regs[ins[1]] = Ptr(p.o, off)

    def i_ret(self, st, f, ins):
        v = self.val(f, ins[4][0]) if ins[4] else None
        return self.doreturn(st, v)

    def doreturn(self, st, v):
        f = st.frames.pop()
        for o in f.allocas:
            if o in st.mem: del st.mem[o]
        if not st.frames:
            self.paths += 1
            return 'jump'
        c = st.frames[-1]
        if f.onret is not None:
            rid, nb = f.onret
            if rid is not None: c.regs[rid] = v
            if nb is not None:
                self.goto(st, nb)
                return 'jump'
            c.ii = c.ii
        return 'jump'

    def i_br(self, st, f, ins):
        if len(ins) == 5:
            self.goto(st, ins[4])
            return 'jump'
        c = self.val(f, ins[4])
        if c is True: self.goto(st, ins[5]); return 'jump'
        if c is False: self.goto(st, ins[6]); return 'jump'
        if c is UNDEF or c is None: self.fail(st, 'branch on an uninitialised value')
        if ins[5] == ins[6]: self.goto(st, ins[5]); return 'jump'
        k = self.known(st, c)
        if k is None:
            if not self.feas(st, c): k = False; self.assume(st, tm.Not(c))
            elif not self.feas(st, tm.Not(c)): k = True; self.assume(st, c)
        if k is True: self.goto(st, ins[5]); return 'jump'
        if k is False: self.goto(st, ins[6]); return 'jump'
        return ('cases', [(c, ins[5]), (tm.Not(c), ins[6])])

    def i_switch(self, st, f, ins):
        v = self.val(f, ins[4])
        if v is UNDEF: self.fail(st, 'switch on an uninitialised value')
        if not isinstance(v, T):
            for c, b in ins[6]:
                if c == v: self.goto(st, b); return 'jump'
            self.goto(st, ins[5]); return 'jump'
        cases = []
        rest = True
        byb = {}
        for c, b in ins[6]:
            e = tm.icmp('eq', v, c) if not isinstance(c, bool) else (v if c else tm.Not(v))
            rest = tm.And(rest, tm.Not(e))
            byb[b] = tm.Or(byb.get(b, False), e)
        byb[ins[5]] = tm.Or(byb.get(ins[5], False), rest)
        cases = [(c, b) for b, c in byb.items() if c is not False and self.feas(st, c)]
        if not cases: raise PathEnd()
        if len(cases) == 1:
            self.assume(st, cases[0][0])
            self.goto(st, cases[0][1]); return 'jump'
        return ('cases', cases)

    def i_unreachable(self, st, f, ins):
        self.fail(st, 'unreachable code reached')

    def i_select(self, st, f, ins):
        c, a, b = [self.val(f, x) for x in ins[4]]
        if isinstance(c, tuple):
            f.regs[ins[1]] = tuple(self.sel(st, x, y, z) for x, y, z in zip(c, a, b))
            return
        f.regs[ins[1]] = self.sel(st, c, a, b)

    def sel(self, st, c, a, b):
        if c is True: return a
        if c is False: return b
        if c is UNDEF: return UNDEF
        k = self.known(st, c)
        if k is None and self.quats:
            # a comparison that the normaliser decides (a unit quaternion has norm one)
            k = self.signcache.get(c.id, 0)
            if k == 0: k = self.signcache[c.id] = self.signs(c)
        if k is not None: return a if k else b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isreal(a) and isreal(b):
            # alternatives that differ by turns
            d = tm.rsub(a, b)
            if isinstance(d, T) and (d is poly.PI or d.op == 'rmul' and d.args[0] is poly.PI and isinstance(d.args[1], Fraction)):
                if self.must(st, c): return a
                if self.must(st, tm.Not(c)): return b
        try:
            return self.itev(st, c, a, b)
        except Unmergeable:
            return a if self.decide(st, c) else b

    def i_freeze(self, st, f, ins):
        f.regs[ins[1]] = self.val(f, ins[4][0])

    def i_extractvalue(self, st, f, ins):
        v = self.val(f, ins[4])
        for i in ins[5]:
            v = v[i] if v is not UNDEF else UNDEF
        f.regs[ins[1]] = v

    def i_insertvalue(self, st, f, ins):
        v, x = self.val(f, ins[4]), self.val(f, ins[5])
        if v is UNDEF: v = self.p.undef(ins[2])
        f.regs[ins[1]] = self.insv(v, x, ins[6])

    def insv(self, v, x, idx):
        l = list(v)
        if len(idx) == 1: l[idx[0]] = x
        else: l[idx[0]] = self.insv(l[idx[0]], x, idx[1:])
        return tuple(l)

    def i_extractelement(self, st, f, ins):
        v, i = [self.val(f, x) for x in ins[4]]
        if isinstance(i, T): raise Unsupported('extractelement index')
        f.regs[ins[1]] = UNDEF if v is UNDEF else v[i]

    def i_insertelement(self, st, f, ins):
        v, x, i = [self.val(f, y) for y in ins[4]]
        if v is UNDEF: v = self.p.undef(ins[2])
        l = list(v)
        l[i] = x
        f.regs[ins[1]] = tuple(l)

    def i_shufflevector(self, st, f, ins):
        a, b = self.val(f, ins[4]), self.val(f, ins[5])
        ty = self.p.types[ins[2]]
        n = None
        if a is not UNDEF: n = len(a)
        elif b is not UNDEF: n = len(b)
        else: f.regs[ins[1]] = self.p.undef(ins[2]); return
        if a is UNDEF: a = (UNDEF,) * n
        if b is UNDEF: b = (UNDEF,) * n
        l = list(a) + list(b)
        f.regs[ins[1]] = tuple(UNDEF if i < 0 else l[i] for i in ins[6])

    # ---- casts
    def width(self, t): return self.p.types[t][2]

    def vec1(self, fn, v):
        return tuple(fn(x) for x in v) if isinstance(v, tuple) else fn(v)

    def i_bitcast(self, st, f, ins):
        v = self.val(f, ins[4][0])
        src, dst = self.p.types[ins[5]], self.p.types[ins[2]]
        f.regs[ins[1]] = self.bitcast(v, src, dst)

    def flat(self, v, ty):
        if ty[0] == 'v':
            et = self.p.types[ty[3]]
            out = []
            for x in v: out.extend(self.flat(x, et))
            return out
        if isinstance(v, Bits): return list(v.pieces)
        return [(ty[1], v)]

    def bitcast(self, v, src, dst):
        if v is UNDEF: return UNDEF
        if src[0] == dst[0] and src[0] != 'v': return v
        pieces = self.flat(v, src)
        if dst[0] == 'v':
            et = self.p.types[dst[3]]
            out = []
            i = 0
            for _ in range(dst[2]):
                need = et[1]
                ps = []
                while need > 0:
                    s, x = pieces[i]
                    if s <= need: ps.append((s, x)); need -= s; i += 1
                    else:
                        pr = self.explode(s, x, need)
                        ps.append(pr[0])
                        pieces[i:i + 1] = pr[1:] if len(pr) > 1 else []
                        need = 0
                out.append(self.conv(ps, et[0], et[1], et[2]))
            return tuple(out)
        return self.conv(pieces, dst[0], dst[1], dst[2])

    def i_ptrtoint(self, st, f, ins):
        v = self.val(f, ins[4][0])
        f.regs[ins[1]] = v
    def i_inttoptr(self, st, f, ins):
        v = self.val(f, ins[4][0])
        f.regs[ins[1]] = Ptr(0, v) if isinstance(v, int) else v

    def i_zext(self, st, f, ins):
        w0, w1 = self.ew(ins[5]), self.ew(ins[2])
        f.regs[ins[1]] = self.vec1(lambda v: self.zext(v, w0, w1), self.val(f, ins[4][0]))
    def ew(self, t):
        ty = self.p.types[t]
        return self.p.types[ty[3]][2] if ty[0] == 'v' else ty[2]
    def zext(self, v, w0, w1):
        if v is UNDEF: return UNDEF
        if w0 == 1:
            if isinstance(v, T): return tm.ite_int(v, 1, 0, w1)
            return 1 if v else 0
        if isinstance(v, Bits): return Bits(v.pieces + [((w1 - w0) // 8, 0)])
        if isinstance(v, Ptr): return v
        return tm.uext(v, w0)
    def i_sext(self, st, f, ins):
        w0, w1 = self.ew(ins[5]), self.ew(ins[2])
        def g(v):
            if v is UNDEF: return UNDEF
            if w0 == 1:
                if isinstance(v, T): return tm.ite_int(v, -1, 0, w1)
                return -1 if v else 0
            if isinstance(v, Bits): raise Unsupported('sext bits')
            return v
        f.regs[ins[1]] = self.vec1(g, self.val(f, ins[4][0]))
    def i_trunc(self, st, f, ins):
        w1 = self.ew(ins[2])
        def g(v):
            if v is UNDEF: return UNDEF
            if isinstance(v, Bits):
                o = 0
                ps = []
                for s, x in v.pieces:
                    if o + s <= w1 // 8: ps.append((s, x))
                    elif o < w1 // 8: ps.append(self.explode(s, x, w1 // 8 - o)[0])
                    o += s
                return self.conv(ps, 'i', w1 // 8, w1)
            if isinstance(v, Ptr):
                if isinstance(v.off, int): return tm.sgn(v.off, w1)
                raise Unsupported('trunc of pointer')
            if w1 == 1:
                if isinstance(v, T):
                    if v.lo == 0 and v.hi == 1: return tm.icmp('eq', v, 1)
                    return tm.icmp('eq', tm.srem(tm.uext(v, 64), 2, 64), 1)
                return bool(v & 1)
            return tm.wrap(v, w1)
        f.regs[ins[1]] = self.vec1(g, self.val(f, ins[4][0]))

    def i_fpext(self, st, f, ins): f.regs[ins[1]] = self.val(f, ins[4][0])
    i_fptrunc = i_fpext
    def i_sitofp(self, st, f, ins):
        w0 = self.ew(ins[5])
        def g(v):
            if v is UNDEF: return UNDEF
            if isinstance(v, bool): return Fraction(-1 if v else 0)
            if isinstance(v, T) and v.sort == 'B': return tm.Ite(v, Fraction(-1), Fraction(0))
            if isinstance(v, (Bits, Ptr)): raise Unsupported('sitofp')
            return tm.toreal(v)
        f.regs[ins[1]] = self.vec1(g, self.val(f, ins[4][0]))
    def i_uitofp(self, st, f, ins):
        w0 = self.ew(ins[5])
        def g(v):
            if v is UNDEF: return UNDEF
            if isinstance(v, bool): return Fraction(1 if v else 0)
            if isinstance(v, T) and v.sort == 'B': return tm.Ite(v, Fraction(1), Fraction(0))
            if isinstance(v, (Bits, Ptr)): raise Unsupported('uitofp')
            return tm.toreal(tm.uext(v, w0))
        f.regs[ins[1]] = self.vec1(g, self.val(f, ins[4][0]))
    def simpler(self, v):
        """the same real number, as a normal form if that is a smaller term"""
        if not isinstance(v, T) or v.op == 'var': return v
        k = 0
        for x in tm.subterms([v]):
            k += 1
            if k > 120 or x.op == 'ite': return v
        try:
            n = poly.Norm(self.quats)
            n.prepass([v])
            r = n.rf(v)
            if len(r.n) > 8 or len(r.d) > 4: return v
            t = solve.rf_term(n, r)
        except (poly.HasIte, poly.TooBig, ZeroDivisionError): return v
        if t is None: return v
        if isinstance(t, T) and sum(1 for _ in tm.subterms([t])) >= k: return v
        return t
    def fptoi(self, st, v, w, signed):
        if v is UNDEF: return UNDEF
        if isinstance(v, float): return UNDEF
        r = tm.rtrunc(self.simpler(v))
        if isinstance(r, T):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if r.lo < lo or r.hi > hi:
                # out of range conversion is undefined: the value is unspecified, no obligation unless required
                c = tm.And(tm.icmp('le', lo, r), tm.icmp('le', r, hi))
                if self.o.get('fptoi_check', False) : self.oblige(st, c, 'float to integer conversion in range', assume=True)
                else:
                    if not self.must(st, c):
                        self.assumptions.add('float-to-integer conversions are in range of the integer type')
                        if not self.assume(st, c): raise PathEnd()
                if w == 64 and signed: return r
                x = tm.mk('clampi', (r,), 64, lo, hi) if False else r
                return tm.wrap(r, w) if not signed else self.clampw(st, r, w)
        else:
            if not signed and r < 0: return UNDEF
            r = tm.sgn(r, w)
        return r
    def clampw(self, st, r, w):
        # value is known to be in range on this path: re-introduce as a bounded unknown equal to it
        v = tm.mk('var', ('trunc!%d' % r.id,), w, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        self.assume(st, tm.icmp('eq', v, r))
        return v
    def i_fptosi(self, st, f, ins):
        w = self.ew(ins[2])
        f.regs[ins[1]] = self.vec1(lambda v: self.fptoi(st, v, w, True), self.val(f, ins[4][0]))
    def i_fptoui(self, st, f, ins):
        w = self.ew(ins[2])
        f.regs[ins[1]] = self.vec1(lambda v: self.fptoi(st, v, w, False), self.val(f, ins[4][0]))

    # ---- integer arithmetic
    def ibin(fn):
        def g(self, st, f, ins):
            a, b = ins[4]
            a = f.regs[a] if type(a) is int else a.v
            b = f.regs[b] if type(b) is int else b.v
            ty = self.p.types[ins[2]]
            if type(a) is PBits or type(b) is PBits or a is UNDEF or b is UNDEF:
                f.regs[ins[1]] = self.partial(st, fn.__name__, a, b, ty)
                return
            if ty[0] == 'v':
                w = self.p.types[ty[3]][2]
                if a is UNDEF or b is UNDEF: f.regs[ins[1]] = UNDEF; return
                f.regs[ins[1]] = tuple(fn(self, st, x, y, w, ins[6]) for x, y in zip(a, b))
                return
            f.regs[ins[1]] = fn(self, st, a, b, ty[2], ins[6])
        return g

    def partial(self, st, op, a, b, ty):
        """bit operations on words that are not initialised completely"""
        if op not in ('_and', '_or') or ty[0] != 'i' or ty[2] < 32:
            if ty[0] == 'i' and ty[2] == 1:
                if op == '_and' and (a is False or b is False): return False
                if op == '_or' and (a is True or b is True): return True
            return UNDEF
        w = ty[2]
        full = (1 << w) - 1
        def part(x): return (0, full) if x is UNDEF else (x.val, x.mask) if type(x) is PBits else (x, 0)
        va, ma = part(a)
        vb, mb = part(b)
        for x in (va, vb):
            if not isinstance(x, int) and not (isinstance(x, T) and isinstance(x.sort, int)): return UNDEF
        v = (self._and if op == '_and' else self._or)(st, va, vb, w, 0)
        m = ma | mb
        # a constant bit decides the result
        for x, mx in ((va, ma), (vb, mb)):
            if isinstance(x, int):
                k = ~x if op == '_and' else x
                m &= ~(k & ~mx)
        m &= full
        if m == 0: return v
        if m == full: return UNDEF
        return PBits(v, m)

    def _add(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr): return Ptr(a.o, self.padd(a.off, b)) if not isinstance(b, Ptr) else self.bad('ptr+ptr')
        if isinstance(b, Ptr): return Ptr(b.o, self.padd(b.off, a))
        if isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported('add bits')
        if w == 1: return self._xor(st, a, b, 1, 0)
        return tm.iadd(a, b, w, bool(fl & 1))
    def _sub(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o != b.o:
                raise Unsupported('difference of pointers into different objects')
            return a.off - b.off if isinstance(a.off, int) and isinstance(b.off, int) else tm.isub(a.off, b.off, 64, True)
        if isinstance(a, Ptr): return Ptr(a.o, tm.isub(a.off, b, 64, True) if isinstance(a.off, T) or isinstance(b, T) else a.off - b)
        if isinstance(b, Ptr):
            if b.o == 0 and isinstance(b.off, int): b = b.off
            else: raise Unsupported('int - ptr')
        if isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported('sub bits')
        return tm.isub(a, b, w, bool(fl & 1))
    def _mul(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (Bits, Ptr)) or isinstance(b, (Bits, Ptr)): raise Unsupported('mul bits')
        if w == 1: return self._and(st, a, b, 1, 0)
        return tm.imul(a, b, w, bool(fl & 1))
    def bad(self, s): raise Unsupported(s)
    def divz(self, st, b):
        if isinstance(b, T):
            self.oblige(st, tm.Not(tm.icmp('eq', b, 0)), 'integer division by zero', assume=True)
        elif b == 0: self.fail(st, 'integer division by zero')
    def _sdiv(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (Bits, Ptr)) or isinstance(b, (Bits, Ptr)): raise Unsupported('div')
        self.divz(st, b)
        return tm.sdiv(a, b, w)
    def _udiv(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (Bits, Ptr)) or isinstance(b, (Bits, Ptr)): raise Unsupported('div')
        self.divz(st, b)
        a, b = tm.uext(a, w), tm.uext(b, w)
        r = tm.sdiv(a, b, w + 1) if isinstance(a, T) or isinstance(b, T) else a // b
        return tm.wrap(r, w)
    def _srem(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (Bits, Ptr)) or isinstance(b, (Bits, Ptr)): raise Unsupported('rem')
        self.divz(st, b)
        return tm.srem(a, b, w)
    def _urem(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr): 
            if isinstance(a.off, int): return a.off % b
        if isinstance(a, (Bits, Ptr)) or isinstance(b, (Bits, Ptr)): raise Unsupported('rem')
        self.divz(st, b)
        a, b = tm.uext(a, w), tm.uext(b, w)
        r = tm.srem(a, b, w + 1) if isinstance(a, T) or isinstance(b, T) else a % b
        return tm.wrap(r, w)
    def _and(self, st, a, b, w, fl):
        if w == 1:
            if a is False or b is False: return False
            if a is UNDEF or b is UNDEF: return UNDEF
            return tm.And(a, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) and isinstance(b, int):
            if b == -1: return a
            if b > 0 and b < 16 and isinstance(a.off, int): return a.off & b
            if b < 0 and -b <= 16 and isinstance(a.off, int): return Ptr(a.o, a.off & b)
            if a.o == 0: return tm.sgn(a.off & b, w)
            raise Unsupported('and of pointer')
        if isinstance(a, Bits) or isinstance(b, Bits):
            return self.bitsand(a, b, w)
        if isinstance(a, int) and isinstance(b, int): return a & b
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return 0
            if b == -1: return a
            if a.op == 'ite' and isinstance(a.args[1], int) and isinstance(a.args[2], int): return tm.ite_int(a.args[0], a.args[1] & b, a.args[2] & b, w)
            ub = b & ((1 << w) - 1)
            if ub & (ub + 1) == 0:
                if a.lo >= 0 and a.hi <= ub: return a
                return tm.srem(tm.uext(a, w), ub + 1, 64)
            nb = (~b) & ((1 << w) - 1)
            if nb & (nb + 1) == 0:    # clears low bits
                m = tm.srem(tm.uext(a, w), nb + 1, 64)
                return tm.wrap(tm.isub(a, m, 64, True), w)
        lo_, hi_ = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if tm.lo(a) >= 0 or tm.lo(b) >= 0: lo_ = 0; hi_ = max(0, min(tm.hi(a) if tm.lo(a) >= 0 else hi_, tm.hi(b) if tm.lo(b) >= 0 else hi_))
        return tm.mk('band', (a, b, w), 64, lo_, hi_)
    def bitsand(self, a, b, w):
        if isinstance(b, Bits): a, b = b, a
        if isinstance(b, int) and len(a.pieces) == 1 and isreal(a.pieces[0][1]):
            if b == (1 << (w - 1)) - 1:
                v = a.pieces[0][1]
                return Bits([(w // 8, self.fabs(v))])
        # masks on piece boundaries
        if isinstance(b, int):
            ub = b & ((1 << w) - 1)
            o = 0
            ps = []
            for s, x in a.pieces:
                m = (ub >> o) & ((1 << (8 * s)) - 1)
                if m == 0: ps.append((s, 0))
                elif m == (1 << (8 * s)) - 1: ps.append((s, x))
                else: raise Unsupported('and on float bits')
                o += 8 * s
            return Bits(ps)
        raise Unsupported('and on bits')
    def _or(self, st, a, b, w, fl):
        if w == 1:
            if a is True or b is True: return True
            if a is UNDEF or b is UNDEF: return UNDEF
            return tm.Or(a, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, int) and isinstance(b, int): return a | b
        if isinstance(a, Bits) or isinstance(b, Bits): return self.bitsor(a, b, w)
        if isinstance(a, Ptr) and isinstance(b, int) and b == 0: return a
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('or of pointer')
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0: return a
            if b == -1: return -1
            if isinstance(a, T) and b > 0 and b & (b - 1) == 0:
                c, g = self.congr(a)
                if g and g % (2 * b) == 0 and (c & b) == 0: return tm.iadd(a, b, w, True)
        # disjoint bits
        ca, ga = self.congr(a)
        cb, gb = self.congr(b)
        if ga and tm.lo(b) >= 0 and ca % ga == 0:
            low = ga & -ga
            if tm.hi(b) < low: return tm.iadd(a, b, w, True)
        if gb and tm.lo(a) >= 0 and cb % gb == 0:
            low = gb & -gb
            if tm.hi(a) < low: return tm.iadd(a, b, w, True)
        lo_, hi_ = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if tm.lo(a) >= 0 and tm.lo(b) >= 0: lo_ = 0; hi_ = min(hi_, (1 << max(tm.hi(a).bit_length(), tm.hi(b).bit_length())) - 1)
        return tm.mk('bor', (a, b, w), 64, lo_, hi_)
    def bitsor(self, a, b, w):
        def norm(x):
            if isinstance(x, Bits): return x.pieces
            return [(w // 8, x)]
        pa, pb = list(norm(a)), list(norm(b))
        # align on common boundaries; each byte range must be zero in one of them
        out = []
        i = j = 0
        while i < len(pa) and j < len(pb):
            sa, xa = pa[i]
            sb, xb = pb[j]
            s = min(sa, sb)
            if sa > s:
                pr = self.explode(sa, xa, s); pa[i:i + 1] = pr; sa, xa = pa[i]
            if sb > s:
                pr = self.explode(sb, xb, s); pb[j:j + 1] = pr; sb, xb = pb[j]
            if isinstance(xa, int) and xa == 0: out.append((s, xb))
            elif isinstance(xb, int) and xb == 0: out.append((s, xa))
            else: raise Unsupported('or of float bits')
            i += 1; j += 1
        return Bits(out)
    def _xor(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            if not isinstance(a, T) and not isinstance(b, T): return bool(a) != bool(b)
            return tm.Not(tm.BEq(a, b))
        if isinstance(a, int) and isinstance(b, int): return a ^ b
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int) and b == -1 and isinstance(a, T): return tm.isub(-1, a, w, True)
        if isinstance(a, Bits) and isinstance(b, int) and len(a.pieces) == 1 and isreal(a.pieces[0][1]) and b == -(1 << (w - 1)):
            return Bits([(w // 8, self.fneg(a.pieces[0][1]))])
        if isinstance(a, (Bits, Ptr)) or isinstance(b, (Bits, Ptr)): raise Unsupported('xor')
        return tm.mk('bxor', (a, b, w), 64, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    def _shl(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Bits):
            if isinstance(b, int) and b % 8 == 0:
                n = w // 8 - b // 8
                ps = [(b // 8, 0)] if b else []
                o = 0
                for s, x in a.pieces:
                    if o + s <= n: ps.append((s, x))
                    elif o < n: ps.append(self.explode(s, x, n - o)[0])
                    o += s
                return Bits(ps)
            raise Unsupported('shl bits')
        if isinstance(b, int):
            if b >= w: return UNDEF
            return tm.imul(a, 1 << b, w, bool(fl & 1)) if not isinstance(a, Ptr) else self.bad('shl ptr')
        if isinstance(a, int) or isinstance(a, T):
            return tm.mk('shl', (a, b, w), 64, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        raise Unsupported('shl')
    def _lshr(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Bits):
            if isinstance(b, int) and b % 8 == 0:
                k = b // 8
                ps = []
                o = 0
                for s, x in a.pieces:
                    if o >= k: ps.append((s, x))
                    elif o + s > k: ps.append(self.explode(s, x, k - o)[-1])
                    o += s
                if k: ps.append((k, 0))
                return Bits(ps)
            raise Unsupported('lshr bits')
        if isinstance(a, Ptr): raise Unsupported('lshr ptr')
        if isinstance(b, int):
            u = tm.uext(a, w)
            if isinstance(u, int): return tm.sgn(u >> b, w)
            return tm.wrap(tm.sdiv(u, 1 << b, 64), w)
        return tm.mk('lshr', (a, b, w), 64, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    def _ashr(self, st, a, b, w, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) and a.o == 0: a = a.off
        if isinstance(a, (Bits, Ptr)): raise Unsupported('ashr')
        if isinstance(b, int):
            if isinstance(a, int): return a >> b
            if b == 0: return a
            e = tm.exact_div(a, 1 << b)
            if e is not None: return e
            if a.lo >= 0: return tm.sdiv(a, 1 << b, 64)
            return tm.ite_int(tm.icmp('le', 0, a), tm.sdiv(a, 1 << b, 64), tm.isub(-1, tm.sdiv(tm.isub(-1, a, 64, True), 1 << b, 64), 64, True), w)
        return tm.mk('ashr', (a, b, w), 64, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    i_add = ibin(_add); i_sub = ibin(_sub); i_mul = ibin(_mul); i_sdiv = ibin(_sdiv); i_udiv = ibin(_udiv)
    i_srem = ibin(_srem); i_urem = ibin(_urem); i_and = ibin(_and); i_or = ibin(_or); i_xor = ibin(_xor)
    i_shl = ibin(_shl); i_lshr = ibin(_lshr); i_ashr = ibin(_ashr)

    def i_icmp(self, st, f, ins):
        a, b = self.val(f, ins[5]), self.val(f, ins[6])
        ty = self.p.types[ins[7]]
        if ty[0] == 'v':
            w = self.p.types[ty[3]][2]
            f.regs[ins[1]] = tuple(self.icmp(st, ins[4], x, y, w) for x, y in zip(a, b))
            return
        f.regs[ins[1]] = self.icmp(st, ins[4], a, b, ty[2])

    def icmp(self, st, pr, a, b, w):
        if a is UNDEF or b is UNDEF or type(a) is PBits or type(b) is PBits: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(st, pr, a, b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            # comparison of float bits with zero / sign test
            x, y = (a, b) if isinstance(a, Bits) else (b, a)
            if len(x.pieces) == 1 and isreal(x.pieces[0][1]) and isinstance(y, int):
                v = x.pieces[0][1]
                if y == 0 and pr in ('eq', 'ne'):
                    c = tm.rcmp('eq', v, Fraction(0))
                    return c if pr == 'eq' else tm.Not(c)
                if y == 0 and pr == 'slt' and isinstance(a, Bits): return tm.rcmp('lt', v, Fraction(0))
                if y == -1 and pr == 'sgt' and isinstance(a, Bits): return tm.rcmp('le', Fraction(0), v)
            if isinstance(y, int) and pr in ('eq', 'ne') and any(v is UNDEF for n, v in x.pieces):
                # decided by the initialised bytes, or undefined
                o = 0
                for n, v in x.pieces:
                    if isinstance(v, int) and (v ^ (y >> (8 * o))) & ((1 << (8 * n)) - 1): return pr == 'ne'
                    o += n
                return UNDEF
            if isinstance(y, int) and any(v is UNDEF for n, v in x.pieces): return UNDEF
            raise Unsupported('icmp of float bits %s' % [getattr(q, 'pieces', q) for q in (a, b)])
        if w == 1:
            if pr == 'eq': return tm.BEq(a, b)
            if pr == 'ne': return tm.Not(tm.BEq(a, b))
            ai = self.zext(a, 1, 8); bi = self.zext(b, 1, 8)
            if pr in ('slt', 'sle', 'sgt', 'sge'): ai, bi = bi, ai
            pr = pr[1:]
            return {'lt': tm.icmp('lt', ai, bi), 'le': tm.icmp('le', ai, bi), 'gt': tm.icmp('lt', bi, ai), 'ge': tm.icmp('le', bi, ai)}[pr]
        if pr == 'eq': return tm.icmp('eq', a, b)
        if pr == 'ne': return tm.Not(tm.icmp('eq', a, b))
        if pr[0] == 'u': a, b = tm.uext(a, w), tm.uext(b, w)
        q = pr[1:]
        if q == 'lt': return tm.icmp('lt', a, b)
        if q == 'le': return tm.icmp('le', a, b)
        if q == 'gt': return tm.icmp('lt', b, a)
        return tm.icmp('le', b, a)

    def pcmp(self, st, pr, a, b):
        if isinstance(a, int): a = Ptr(0, a)
        if isinstance(b, int): b = Ptr(0, b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise Unsupported('pointer comparison with %r' % (a if not isinstance(a, Ptr) else b,))
        if a.o == b.o:
            return self.icmp(st, 's' + pr[1:] if pr[0] == 'u' else pr, a.off, b.off, 64)
        if pr == 'eq': return False
        if pr == 'ne': return True
        # ordering of unrelated objects: by id (arbitrary but consistent)
        if a.o == 0: return pr in ('ult', 'ule')
        if b.o == 0: return pr in ('ugt', 'uge')
        return {'ult': a.o < b.o, 'ule': a.o < b.o, 'ugt': a.o > b.o, 'uge': a.o > b.o}.get(pr, False)

    # ---- floats
    def fbin(fn):
        def g(self, st, f, ins):
            a, b = ins[4]
            a = f.regs[a] if type(a) is int else a.v
            b = f.regs[b] if type(b) is int else b.v
            if isinstance(a, tuple) or isinstance(b, tuple):
                n = len(a) if isinstance(a, tuple) else len(b)
                if a is UNDEF: a = (UNDEF,) * n
                if b is UNDEF: b = (UNDEF,) * n
                f.regs[ins[1]] = tuple(fn(self, st, x, y) for x, y in zip(a, b))
                return
            f.regs[ins[1]] = fn(self, st, a, b)
        return g
    def sgnof(self, st, v):
        """sign of a value for infinity arithmetic: 1, 0, -1"""
        if isinstance(v, float): return 1 if v > 0 else -1
        if not isinstance(v, T): return (v > 0) - (v < 0)
        if self.decide(st, tm.rcmp('lt', Fraction(0), v)): return 1
        if self.decide(st, tm.rcmp('eq', v, Fraction(0))): return 0
        return -1
    def _fadd(self, st, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float): return a + b
            return a if isinstance(a, float) else b
        return tm.radd(a, b)
    def _fsub(self, st, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and isinstance(b, float): return a - b
            return a if isinstance(a, float) else -b
        return tm.rsub(a, b)
    def _fmul(self, st, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            if a != a or b != b: return NAN
            s = self.sgnof(st, a) * self.sgnof(st, b)
            return NAN if s == 0 else s * INF
        return tm.rmul(a, b)
    def _fdiv(self, st, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            if a != a or b != b: return NAN
            if isinstance(a, float) and isinstance(b, float): return NAN
            if isinstance(b, float): return Fraction(0)
            s = self.sgnof(st, b)
            return a if s >= 0 else -a
        if isinstance(b, T):
            z = tm.rcmp('eq', b, Fraction(0))
            k = self.known(st, z)
            if k is None:
                if self.o.get('div0') == 'assume':
                    if self.feas(st, z):
                        self.assumptions.add('floating-point divisors are non-zero')
                        self.assume(st, tm.Not(z))
                    k = False
                else: k = self.decide(st, z)
            if not k:
                return tm.rdiv(a, b)
            b = Fraction(0)
        if b == 0:
            s = self.sgnof(st, a)
            return NAN if s == 0 else s * INF
        return tm.rdiv(a, b)
    def _frem(self, st, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float): raise Unsupported('frem special')
        q = self._fdiv(st, a, b)
        if isinstance(q, float): return NAN
        if not isinstance(q, T): return tm.rsub(a, tm.rmul(b, tm.toreal(tm.rtrunc(q))))
        # a = b * k + r with an integer k, |r| < |b| and r of the sign of a
        k = tm.var('frem!%s!%s' % tuple(x.id if isinstance(x, T) else 'c%s' % x for x in (a, b)), 64, -(1 << 200), 1 << 200)
        r = tm.rsub(a, tm.rmul(b, tm.toreal(k)))
        ab = self.fabs(b)
        z = Fraction(0)
        for c in (tm.rcmp('lt', r, ab), tm.rcmp('lt', tm.rneg(ab), r), tm.Or(tm.rcmp('lt', a, z), tm.rcmp('le', z, r)), tm.Or(tm.rcmp('lt', z, a), tm.rcmp('le', r, z))): self.assume(st, c)
        # the quotient may be determined by the path
        if self.feas(st, True):
            for n in (0, -1, 1, -2, 2):
                if self.must(st, tm.icmp('eq', k, n)):
                    return tm.rsub(a, tm.rmul(b, Fraction(n)))
        return r
    i_fadd = fbin(_fadd); i_fsub = fbin(_fsub); i_fmul = fbin(_fmul); i_fdiv = fbin(_fdiv); i_frem = fbin(_frem)
    def fneg(self, v):
        if v is UNDEF: return UNDEF
        if isinstance(v, float): return -v
        return tm.rneg(v)
    def i_fneg(self, st, f, ins):
        f.regs[ins[1]] = self.vec1(self.fneg, self.val(f, ins[4][0]))
    def fabs(self, v):
        if v is UNDEF: return UNDEF
        if isinstance(v, (float, Fraction)): return abs(v)
        return tm.Ite(tm.rcmp('le', Fraction(0), v), v, tm.rneg(v))

    def i_fcmp(self, st, f, ins):
        a, b = self.val(f, ins[5]), self.val(f, ins[6])
        if isinstance(a, tuple): f.regs[ins[1]] = tuple(self.fcmp(ins[4], x, y) for x, y in zip(a, b)); return
        f.regs[ins[1]] = self.fcmp(ins[4], a, b)

    def fcmp(self, pr, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pr == 'false': return False
        if pr == 'true': return True
        if isinstance(a, float) or isinstance(b, float):
            if a != a or b != b: return pr[0] == 'u' or pr == 'uno'
            if pr == 'ord': return True
            if pr == 'uno': return False
            # infinities against finite values
            def rank(v): return (1 if v > 0 else -1) if isinstance(v, float) else 0
            x, y = rank(a), rank(b)
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[1:]]
        if pr == 'ord': return True
        if pr == 'uno': return False
        q = pr[1:]
        if q == 'eq': return tm.rcmp('eq', a, b)
        if q == 'ne': return tm.Not(tm.rcmp('eq', a, b))
        if q == 'lt': return tm.rcmp('lt', a, b)
        if q == 'le': return tm.rcmp('le', a, b)
        if q == 'gt': return tm.rcmp('lt', b, a)
        return tm.rcmp('le', b, a)

    # ---- atomics (sequential)
    def i_fence(self, st, f, ins): return None
    def i_atomicrmw(self, st, f, ins):
        p, v = self.val(f, ins[5]), self.val(f, ins[6])
        old = self.load(st, p, ins[7])
        w = self.p.types[ins[7]][2]
        op = ins[4]
        if op == 'xchg': n = v
        elif op == 'add': n = tm.iadd(old, v, w)
        elif op == 'sub': n = tm.isub(old, v, w)
        elif op == 'or': n = self._or(st, old, v, w, 0)
        elif op == 'and': n = self._and(st, old, v, w, 0)
        else: raise Unsupported('atomicrmw ' + op)
        self.store(st, p, n, ins[7])
        f.regs[ins[1]] = old
    def i_cmpxchg(self, st, f, ins):
        p, c, n = self.val(f, ins[4]), self.val(f, ins[5]), self.val(f, ins[6])
        old = self.load(st, p, ins[7])
        e = self.icmp(st, 'eq', old, c, self.p.types[ins[7]][2])
        if self.decide(st, e): self.store(st, p, n, ins[7]); ok = True
        else: ok = False
        f.regs[ins[1]] = (old, ok)

    # ---- exceptions
    def typeid(self, ti):
        if ti not in self.typeids: self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    def tibases(self, ti):
        """list of (base typeinfo name, offset)"""
        if ti in STD_BASES: return [(STD_BASES[ti], 0)]
        raw = self.p.graw.get(ti)
        if raw is None: return []
        t, c, init = json.loads(raw)
        if init is None or init[0] != 'a': return []
        el = init[2]
        vt = el[0]
        if len(el) == 3 and el[2][0] == 'g': return [(el[2][1], 0)]
        if len(el) > 4:
            out = []
            k = 4
            while k + 1 < len(el) + 0:
                b, fl = el[k], el[k + 1]
                if b[0] == 'g': out.append((b[1], int(fl[2]) >> 8))
                k += 2
            return out
        return []

    def tiderives(self, ti, base, depth=0):
        if ti == base: return 0
        if depth > 10: return None
        for b, off in self.tibases(ti):
            r = self.tiderives(b, base, depth + 1)
            if r is not None: return off + r
        return None

    def throw(self, st, ptr, ti):
        st.exc = (ptr, ti)
        return self.unwind(st)

    def unwind(self, st):
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.bi][f.ii - 1] if f.ii > 0 else None
            if ins is not None and ins[0] == 'invoke':
                lp = f.fn.blocks[ins[7]]
                l = None
                for x in lp:
                    if x[0] == 'landingpad': l = x; break
                sel = None
                ti = st.exc[1]
                for isc_, c in l[5]:
                    if not isc_: continue     # filters
                    if isinstance(c, Ptr) and c.o == 0: sel = self.typeid('...'); break
                    cn = self.p.gname.get(c.o) if isinstance(c, Ptr) else None
                    if cn is not None and self.tiderives(ti, cn) is not None: sel = self.typeid(cn); break
                if sel is None and l[4]: sel = 0
                if sel is not None:
                    f.landing = (st.exc[0], sel)
                    self.goto(st, ins[7])
                    return 'jump'
            st.frames.pop()
            for o in f.allocas: st.mem.pop(o, None)
            if not st.frames:
                # report on the harness
                st.frames.append(f)
                self.fail(st, 'uncaught exception ' + st.exc[1])
        raise PathEnd()

    def i_landingpad(self, st, f, ins):
        p, sel = f.landing
        f.regs[ins[1]] = (p, sel)
        # current exception stays in st.exc until begin_catch / resume

    def i_resume(self, st, f, ins):
        return self.unwind(st)

    # ---- calls
    def i_invoke(self, st, f, ins): return self.call(st, f, ins, ins[6])
    def i_call(self, st, f, ins): return self.call(st, f, ins, None)

    def call(self, st, f, ins, nb):
        c = self.val(f, ins[4])
        if isinstance(c, tuple): # inline asm
            f.regs[ins[1]] = UNDEF
            if nb is not None: self.goto(st, nb); return 'jump'
            return None
        if not isinstance(c, Ptr) or c.o == 0:
            if c is UNDEF or c is None or isinstance(c, (int, Ptr)): self.fail(st, 'call through a null or uninitialised function pointer')
            raise Unsupported('call through symbolic pointer')
        name = self.p.gname.get(c.o)
        if name is None: raise Unsupported('call through data pointer')
        args = [f.regs[a] if type(a) is int else a.v for a in ins[5]]
        self.calls_seen[name] = self.calls_seen.get(name, 0) + 1
        stub = self.stubs.get(name)
        if stub is not None and not any(fr.fn.name == stub for fr in st.frames):
            self.stubuse.add(stub)
            name = stub
        h = self.callcache.get(name)
        if h is None:
            h = self.resolve(name)
            self.callcache[name] = h
        if type(h) is Fn:
            if len(st.frames) > 180: raise Unsupported('recursion too deep in ' + h.dname)
            self.pushframe(st, h, args, (ins[1], nb))
            return 'call'
        r = h(st, f, ins, args)
        if r == 'jump' or r == 'end' or r == 'call': return r
        f.regs[ins[1]] = r
        if nb is not None:
            self.goto(st, nb)
            return 'jump'
        return None

    def resolve(self, name):
        x = self.X.get(name)
        if x is not None: return x
        d = self.p.decl.get(name)
        if name.startswith('llvm.'):
            b = name.split('.')
            x = self.X.get('llvm_' + b[1]) or self.X.get('llvm_' + '_'.join(b[1:3])) or self.X.get('llvm_' + '_'.join(b[1:4]))
            if x is not None: return x
            raise Unsupported('intrinsic ' + name)
        dn = d[0] if d else name
        head = dn.split('(')[0]
        if name.startswith('_ZNSt7__cxx1112basic_string') and not NOOP_PAT.search(head):
            pass
        elif NOOP_PAT.search(dn.split('(')[0]) or re.match(r'^(std::ostream|std::basic_ostream|std::ostream&)', dn):
            return self.mknoop(name, dn)
        fn = self.p.fn(name)
        if fn is not None: return fn
        if NOOP_PAT.search(dn): return self.mknoop(name, dn)
        if name.startswith('_ZSt') and 'throw' in name: return self.mkthrow(name)
        def unk(st, f, ins, args):
            raise Unsupported('call of unmodelled function %s' % dn[:200])
        return unk

    def mkthrow(self, name):
        m = {'out_of_range': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error', 'bad_alloc': '_ZTISt9bad_alloc',
             'invalid_argument': '_ZTISt16invalid_argument', 'bad_function_call': '_ZTISt17bad_function_call', 'bad_cast': '_ZTISt8bad_cast', 'bad_array_new_length': '_ZTISt20bad_array_new_length',
             'runtime_error': '_ZTISt13runtime_error', 'bad_weak_ptr': '_ZTISt12bad_weak_ptr'}
        ti = '_ZTISt9exception'
        for k, v in m.items():
            if k in name: ti = v
        def h(st, f, ins, args):
            o = self.newobj(st, 64, 'exception')
            return self.throw(st, Ptr(o, 0), ti)
        return h

    def mknoop(self, name, dn):
        d = self.p.decl.get(name)
        rt = self.p.types[d[6]] if d else None
        isstr = '::str() const' in dn or '::str[abi:cxx11]() const' in dn
        def h(st, f, ins, args):
            if isstr:
                self.emptystring(st, args[0])
                return None
            ty = self.p.types[ins[2]]
            if ty[0] == 'p': return args[0] if args else NULL
            if ty[0] == 'i': return False if ty[2] == 1 else 0
            if ty[0] == 'f': return Fraction(0)
            if ty[0] == 's': return self.p.undef(ins[2])
            return None
        return h

    def emptystring(self, st, p):
        ob = self.getobj(st, p.o, True)
        off = p.off
        self.put(ob, off, 8, Ptr(p.o, off + 16))
        self.put(ob, off + 8, 8, 0)
        self.put(ob, off + 16, 1, 0)

    # ---- runtime functions
    def alloc(self, st, n, kind):
        if n is UNDEF: self.fail(st, 'allocation of uninitialised size')
        if isinstance(n, T):
            lv = self.leaves(n)
            if lv is not None and len(lv) <= 40:
                n = self.concretize(st, n, sorted(lv))
            else:
                # bounded interval with few multiples?
                stride = 1
                t = n
                if t.op == 'imul' and not isinstance(t.args[1], T): stride = t.args[1]
                elif t.op == 'iadd':
                    c, g = self.congr(t)
                    stride = g if g > 1 else 1
                o = self.newobj(st, n, 'heap')
                ob = st.mem[o]
                ob.heap = kind
                ob.arr = (stride, {})
                return Ptr(o, 0)
        if n < 0: return self.mkthrow('bad_alloc')(st, st.frames[-1], None, None) if kind != 'malloc' else NULL
        o = self.newobj(st, n, 'heap', kind)
        return Ptr(o, 0)
    def x__Znwm(self, st, f, ins, a): return self.alloc(st, a[0], 'new')
    def x__Znam(self, st, f, ins, a): return self.alloc(st, a[0], 'new[]')
    def x__ZnwmRKSt9nothrow_t(self, st, f, ins, a): return self.alloc(st, a[0], 'new')
    def x__ZnamRKSt9nothrow_t(self, st, f, ins, a): return self.alloc(st, a[0], 'new[]')
    def x_malloc(self, st, f, ins, a): return self.alloc(st, a[0], 'malloc')
    def x_calloc(self, st, f, ins, a):
        p = self.alloc(st, a[0] * a[1], 'malloc')
        st.mem[p.o].zero = True
        return p
    def x_realloc(self, st, f, ins, a):
        p = self.alloc(st, a[1], 'malloc')
        if isinstance(a[0], Ptr) and a[0].o != 0:
            ob = self.getobj(st, a[0].o)
            self.memcpy(st, p, a[0], min(ob.size, a[1]))
            self.dofree(st, a[0], 'malloc')
        return p
    def dofree(self, st, p, kind):
        if isinstance(p, int) or p.o == 0: return None
        ob = self.getobj(st, p.o)
        if not ob.alive: self.fail(st, 'double free')
        if (isinstance(p.off, T) or p.off != 0) or ob.heap is None: self.fail(st, 'free of a pointer that was not allocated')
        if ob.heap != kind and os.environ.get('VC_DEBUG'): print([f.fn.name for f in st.frames])
        if ob.heap != kind: self.fail(st, 'allocation with %s released as %s' % (ob.heap, kind))
        ob = self.getobj(st, p.o, True)
        ob.alive = False
        return None
    def x_free(self, st, f, ins, a): return self.dofree(st, a[0], 'malloc')
    def x__ZdlPv(self, st, f, ins, a): return self.dofree(st, a[0], 'new')
    def x__ZdlPvm(self, st, f, ins, a): return self.dofree(st, a[0], 'new')
    def x__ZdaPv(self, st, f, ins, a): return self.dofree(st, a[0], 'new[]')
    def x__ZdaPvm(self, st, f, ins, a): return self.dofree(st, a[0], 'new[]')

    def x___cxa_allocate_exception(self, st, f, ins, a):
        o = self.newobj(st, max(a[0], 8), 'exception', 'exc')
        return Ptr(o, 0)
    def x___cxa_free_exception(self, st, f, ins, a): return None
    def x___cxa_throw(self, st, f, ins, a):
        return self.throw(st, a[0], self.p.gname[a[1].o])
    def x___cxa_begin_catch(self, st, f, ins, a):
        st.caught.append(st.exc)
        st.exc = None
        return a[0]
    def x___cxa_end_catch(self, st, f, ins, a):
        if st.caught: st.caught.pop()
        return None
    def x___cxa_rethrow(self, st, f, ins, a):
        st.exc = st.caught[-1]
        return self.unwind(st)
    def x___cxa_get_exception_ptr(self, st, f, ins, a): return a[0]
    def x___clang_call_terminate(self, st, f, ins, a): self.fail(st, 'std::terminate')
    def x__ZSt9terminatev(self, st, f, ins, a): self.fail(st, 'std::terminate')
    def x_abort(self, st, f, ins, a): self.fail(st, 'abort')
    def x___assert_fail(self, st, f, ins, a): self.fail(st, 'assertion')
    def x___cxa_pure_virtual(self, st, f, ins, a): self.fail(st, 'pure virtual call')
    def x___cxa_guard_acquire(self, st, f, ins, a):
        v = self.load(st, a[0], self.typeof('i', 1))
        return 0 if v == 1 else 1
    def x___cxa_guard_release(self, st, f, ins, a):
        self.store(st, a[0], 1, self.typeof('i', 1))
    def x___cxa_guard_abort(self, st, f, ins, a): return None
    def x___cxa_atexit(self, st, f, ins, a): return 0
    def x_llvm_eh_typeid_for(self, st, f, ins, a):
        if a[0].o == 0: return self.typeid('...')
        return self.typeid(self.p.gname[a[0].o])
    def x___dynamic_cast(self, st, f, ins, a):
        src = a[0]
        dst = self.p.gname[a[2].o]
        vt = self.load(st, src, self.typeof('p', 8))
        top = self.load(st, Ptr(vt.o, vt.off - 16), self.typeof('i', 8))
        if isinstance(top, Ptr): top = top.off
        ti = self.load(st, Ptr(vt.o, vt.off - 8), self.typeof('p', 8))
        r = self.tiderives(self.p.gname[ti.o], dst)
        if r is None: return NULL
        return Ptr(src.o, src.off + top + r)

    def x_llvm_memcpy(self, st, f, ins, a): self.memcpy(st, self.P(a[0]), self.P(a[1]), a[2])
    def x_llvm_memmove(self, st, f, ins, a): self.memcpy(st, self.P(a[0]), self.P(a[1]), a[2])
    def x_memcpy(self, st, f, ins, a): self.memcpy(st, self.P(a[0]), self.P(a[1]), a[2]); return a[0]
    def x_memmove(self, st, f, ins, a): self.memcpy(st, self.P(a[0]), self.P(a[1]), a[2]); return a[0]
    def P(self, v): return Ptr(0, v) if isinstance(v, int) else v
    def x_llvm_memset(self, st, f, ins, a): self.memset(st, a[0], a[1], a[2])
    def x_memset(self, st, f, ins, a): self.memset(st, a[0], tm.wrap(a[1], 8), a[2]); return a[0]
    def x_llvm_stacksave(self, st, f, ins, a): return NULL
    def x_llvm_stackrestore(self, st, f, ins, a): return None
    def x_llvm_trap(self, st, f, ins, a): self.fail(st, 'trap')
    def x_llvm_expect(self, st, f, ins, a): return a[0]
    def x_llvm_objectsize(self, st, f, ins, a): return -1
    def x_llvm_is_constant(self, st, f, ins, a): return False
    def x_llvm_prefetch(self, st, f, ins, a): return None
    def x_llvm_launder_invariant_group(self, st, f, ins, a): return a[0]
    def x_llvm_strip_invariant_group(self, st, f, ins, a): return a[0]
    def x_llvm_threadlocal_address(self, st, f, ins, a): return a[0]
    def x_llvm_is_fpclass(self, st, f, ins, a):
        v, mask = a
        if v is UNDEF: return UNDEF
        # bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
        if isinstance(v, float):
            if v != v: return bool(mask & 3)
            return bool(mask & (0x200 if v > 0 else 4))
        neg, zero, pos = bool(mask & 0x8), bool(mask & 0x60), bool(mask & 0x100)
        r = False
        if neg: r = tm.Or(r, tm.rcmp('lt', v, Fraction(0)))
        if zero: r = tm.Or(r, tm.rcmp('eq', v, Fraction(0)))
        if pos: r = tm.Or(r, tm.rcmp('lt', Fraction(0), v))
        return r
    def x_llvm_fabs(self, st, f, ins, a): return self.vec1(self.fabs, a[0])
    x_fabs = x_llvm_fabs
    x_fabsf = x_llvm_fabs
    def x_llvm_fmuladd(self, st, f, ins, a): return self._fadd(st, self._fmul(st, a[0], a[1]), a[2])
    x_llvm_fma = x_llvm_fmuladd
    def x_llvm_copysign(self, st, f, ins, a):
        x, s = a
        if isinstance(x, float) or isinstance(s, float): raise Unsupported('copysign special')
        ax = self.fabs(x)
        return tm.Ite(tm.rcmp('le', Fraction(0), s), ax, tm.rneg(ax)) if isinstance(s, T) else (ax if s >= 0 else tm.rneg(ax))
    x_copysign = x_llvm_copysign
    x_copysignf = x_llvm_copysign
    def fminmax(self, st, a, b, mx):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) and a != a: return b
        if isinstance(b, float) and b != b: return a
        c = self.fcmp('ole', a, b)
        if mx: a, b = b, a
        return self.sel(st, c, a, b)
    def x_llvm_minnum(self, st, f, ins, a): return self.fminmax(st, a[0], a[1], False)
    def x_llvm_maxnum(self, st, f, ins, a): return self.fminmax(st, a[0], a[1], True)
    x_fmin = x_llvm_minnum; x_fminf = x_llvm_minnum; x_fmax = x_llvm_maxnum; x_fmaxf = x_llvm_maxnum
    def sqrt(self, st, v):
        if v is UNDEF: return UNDEF
        if isinstance(v, float): return v if v > 0 else NAN
        if isinstance(v, Fraction):
            if v < 0: return NAN
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return Fraction(n, d)
            return tm.uf('sqrt', (v,))
        if v.op == 'rmul' and v.args[0] is v.args[1]: return v.args[0] if tm.nonneg(v.args[0]) else self.fabs(v.args[0])
        c = tm.rcmp('le', Fraction(0), v)
        k = self.known(st, c)
        if k is None:
            if self.signs(c) is True: k = True
            else: k = self.decide(st, c)
        if not k: return NAN
        # exact value when the radicand is constant
        try:
            n = poly.Norm(self.quats)
            n.prepass([v])
            r = n.g(v)
            if poly.isone(r.d) and (not r.n or (len(r.n) == 1 and 0 in r.n)):
                x = Fraction(r.n.get(0, 0))
                return self.sqrt(st, x)
            sq = n.assquare(r)
            if sq is not None:
                t = solve.rf_term(n, sq[1])
                if t is not None:
                    s = n.sign(t)
                    return tm.rmul(self.sqrt(st, sq[0]), t if s in ('>0', '>=0') else self.fabs(t))
        except (poly.HasIte, poly.TooBig, ZeroDivisionError): pass
        return tm.uf('sqrt', (v,))
    def x_sqrtf(self, st, f, ins, a): return self.sqrt(st, a[0])
    def x_sqrt(self, st, f, ins, a): return self.sqrt(st, a[0])
    def x_llvm_sqrt(self, st, f, ins, a): return self.vec1(lambda v: self.sqrt(st, v), a[0])
    def pimult(self, v):
        if isinstance(v, Fraction): return Fraction(0) if v == 0 else None
        if v is poly.PI: return Fraction(1)
        if isinstance(v, T) and v.op == 'rmul' and v.args[0] is poly.PI and isinstance(v.args[1], Fraction): return v.args[1]
        return None
    def trig(self, st, name, v):
        if v is UNDEF: return UNDEF
        if isinstance(v, float): return NAN
        k = self.pimult(v)
        if k is not None and (2 * k).denominator == 1:
            q = int(2 * k) % 4
            s = [0, 1, 0, -1][q]
            c = [1, 0, -1, 0][q]
            return Fraction(s if name == 'sin' else c)
        return tm.uf(name, (v,))
    def x_sinf(self, st, f, ins, a): return self.trig(st, 'sin', a[0])
    def x_cosf(self, st, f, ins, a): return self.trig(st, 'cos', a[0])
    x_sin = x_sinf; x_cos = x_cosf
    x_llvm_sin = x_sinf; x_llvm_cos = x_cosf
    def x_tanf(self, st, f, ins, a): return self._fdiv(st, self.trig(st, 'sin', a[0]), self.trig(st, 'cos', a[0]))
    x_tan = x_tanf
    def pickite(self, st, v):
        while isinstance(v, T) and v.op == 'ite': v = v.args[1] if self.decide(st, v.args[0]) else v.args[2]
        return v
    def acoscos(self, st, v):
        """t when v = cos t and 0 <= t <= pi on this path"""
        try:
            n = poly.Norm(self.quats)
            n.learn(st.pc)
            n.prepass([v])
            r = n.g(v)
        except (poly.HasIte, poly.TooBig, ZeroDivisionError): return None
        if not poly.isone(r.d) or len(r.n) != 1: return None
        (m, c), = r.n.items()
        i = n.single(m)
        if i is None or c not in (1, -1): return None
        d = n.atoms[i]
        if isinstance(d, T) or d[0] != 'cosb' or len(d) != 4: return None
        t = solve.rf_term(n, d[2])
        if t is None: return None
        t = tm.rmul(t, Fraction(1, d[3]))
        if self.must(st, tm.And(tm.rcmp('le', Fraction(0), t), tm.rcmp('le', t, poly.PI))):
            return t if c == 1 else tm.rsub(poly.PI, t)
        return None
    def x_acosf(self, st, f, ins, a):
        v = self.pickite(st, a[0])
        if isinstance(v, T):
            t = self.acoscos(st, v)
            if t is not None: return t
        if v is UNDEF: return UNDEF
        if isinstance(v, float): return NAN
        if not self.decide(st, tm.And(tm.rcmp('le', Fraction(-1), v), tm.rcmp('le', v, Fraction(1)))): return NAN
        if v == 1: return Fraction(0)
        if v == -1: return poly.PI
        if v == 0: return tm.rmul(poly.PI, Fraction(1, 2))
        return tm.uf('acos', (v,))
    x_acos = x_acosf
    def x_asinf(self, st, f, ins, a):
        v = a[0]
        if v is UNDEF: return UNDEF
        if isinstance(v, float): return NAN
        if not self.decide(st, tm.And(tm.rcmp('le', Fraction(-1), v), tm.rcmp('le', v, Fraction(1)))): return NAN
        if v == 0: return Fraction(0)
        if v == 1 or v == -1: return tm.rmul(poly.PI, Fraction(v, 2))
        return tm.uf('asin', (v,))
    x_asin = x_asinf
    def x_atanf(self, st, f, ins, a):
        v = a[0]
        if isinstance(v, float): return v if v != v else tm.rmul(poly.PI, Fraction(1 if v > 0 else -1, 2))
        if v == 0: return Fraction(0)
        return tm.uf('atan', (v,))
    x_atan = x_atanf
    def x_atan2f(self, st, f, ins, a):
        y, x = a
        if y is UNDEF or x is UNDEF: return UNDEF
        if isinstance(y, float) or isinstance(x, float): 
            if y != y or x != x: return NAN
            if isinstance(y, float) and isinstance(x, float):
                return tm.rmul(poly.PI, Fraction(1 if y > 0 else -1, 4) * (1 if x > 0 else 3))
            if isinstance(y, float): return tm.rmul(poly.PI, Fraction(1 if y > 0 else -1, 2))
            if x > 0: return Fraction(0)
            return poly.PI if not isinstance(y, T) and y >= 0 or isinstance(y, T) and self.decide(st, tm.rcmp('le', Fraction(0), y)) else tm.rneg(poly.PI)
        if not isinstance(y, T) and y == 0:
            if isinstance(x, T):
                return Fraction(0) if self.decide(st, tm.rcmp('le', Fraction(0), x)) else poly.PI
            return Fraction(0) if x >= 0 else poly.PI
        return tm.uf('atan2', (y, x))
    x_atan2 = x_atan2f
    def x_expf(self, st, f, ins, a):
        if isinstance(a[0], float): return Fraction(0) if a[0] < 0 else a[0]
        if a[0] == 0: return Fraction(1)
        return tm.uf('exp', (a[0],))
    x_exp = x_expf; x_llvm_exp = x_expf
    def x_logf(self, st, f, ins, a):
        v = a[0]
        if isinstance(v, float): return v
        if not self.decide(st, tm.rcmp('lt', Fraction(0), v)): return NAN
        if v == 1: return Fraction(0)
        return tm.uf('log', (v,))
    x_log = x_logf; x_llvm_log = x_logf
    def powr(self, st, x, y):
        if isinstance(y, Fraction) and y.denominator == 1 and 0 <= y <= 8 and not isinstance(x, float):
            r = Fraction(1)
            for _ in range(int(y)): r = tm.rmul(r, x)
            return r
        if isinstance(y, Fraction) and y == Fraction(1, 2): return self.sqrt(st, x)
        if isinstance(x, float) or isinstance(y, float): raise Unsupported('pow special')
        return tm.uf('pow', (x, y))
    def x_powf(self, st, f, ins, a): return self.powr(st, a[0], a[1])
    x_pow = x_powf; x_llvm_pow = x_powf
    def x_llvm_powi(self, st, f, ins, a): return self.powr(st, a[0], Fraction(a[1]))
    def x_floorf(self, st, f, ins, a):
        if a[0] is UNDEF or isinstance(a[0], float): return a[0]
        return tm.toreal(tm.rfloor(self.simpler(a[0])))
    x_floor = x_floorf; x_llvm_floor = x_floorf
    def x_ceilf(self, st, f, ins, a):
        if a[0] is UNDEF or isinstance(a[0], float): return a[0]
        return tm.rneg(tm.toreal(tm.rfloor(tm.rneg(a[0]))))
    x_ceil = x_ceilf; x_llvm_ceil = x_ceilf
    def roundv(self, v):
        if v is UNDEF or isinstance(v, float): return v
        h = Fraction(1, 2)
        up = tm.toreal(tm.rfloor(tm.radd(v, h)))
        dn = tm.rneg(tm.toreal(tm.rfloor(tm.radd(tm.rneg(v), h))))
        return tm.Ite(tm.rcmp('le', Fraction(0), v), up, dn)
    def x_roundf(self, st, f, ins, a): return self.roundv(a[0])
    x_round = x_roundf; x_llvm_round = x_roundf
    def x_truncf(self, st, f, ins, a):
        if a[0] is UNDEF or isinstance(a[0], float): return a[0]
        return tm.toreal(tm.rtrunc(a[0]))
    x_trunc = x_truncf; x_llvm_trunc = x_truncf
    def x_lroundf(self, st, f, ins, a):
        v = a[0]
        if v is UNDEF or isinstance(v, float): return UNDEF
        h = Fraction(1, 2)
        c = tm.rcmp('le', Fraction(0), v)
        up = tm.rfloor(tm.radd(v, h)); dn = tm.ineg(tm.rfloor(tm.radd(tm.rneg(v), h)), 64)
        return up if c is True else dn if c is False else tm.ite_int(c, up, dn, 64)
    x_lround = x_lroundf
    def x_fmodf(self, st, f, ins, a): return self._frem(st, a[0], a[1])
    x_fmod = x_fmodf
    def x_hypotf(self, st, f, ins, a): return self.sqrt(st, tm.radd(tm.rmul(a[0], a[0]), tm.rmul(a[1], a[1])))
    x_hypot = x_hypotf
    def mm(self, a, b, w, mx, un):
        if a is UNDEF or b is UNDEF: return UNDEF
        x, y = (tm.uext(a, w), tm.uext(b, w)) if un else (a, b)
        c = tm.icmp('le', x, y)
        if mx: a, b = b, a
        return a if c is True else b if c is False else tm.ite_int(c, a, b, w)
    def x_llvm_umin(self, st, f, ins, a): return self.mm(a[0], a[1], self.ew(ins[2]), False, True)
    def x_llvm_umax(self, st, f, ins, a): return self.mm(a[0], a[1], self.ew(ins[2]), True, True)
    def x_llvm_smin(self, st, f, ins, a): return self.mm(a[0], a[1], self.ew(ins[2]), False, False)
    def x_llvm_smax(self, st, f, ins, a): return self.mm(a[0], a[1], self.ew(ins[2]), True, False)
    def x_llvm_abs(self, st, f, ins, a):
        v = a[0]
        if isinstance(v, int): return abs(v)
        return tm.ite_int(tm.icmp('le', 0, v), v, tm.ineg(v, self.ew(ins[2])), self.ew(ins[2]))
    def x_abs(self, st, f, ins, a): return self.x_llvm_abs(st, f, ins, a)
    def x_llvm_ctlz(self, st, f, ins, a):
        if isinstance(a[0], int):
            w = self.ew(ins[2])
            return w - (a[0] & ((1 << w) - 1)).bit_length()
        raise Unsupported('ctlz')
    def x_llvm_cttz(self, st, f, ins, a):
        if isinstance(a[0], int):
            w = self.ew(ins[2])
            u = a[0] & ((1 << w) - 1)
            return w if u == 0 else (u & -u).bit_length() - 1
        raise Unsupported('cttz')
    def x_llvm_ctpop(self, st, f, ins, a):
        if isinstance(a[0], int): return bin(a[0] & ((1 << self.ew(ins[2])) - 1)).count('1')
        raise Unsupported('ctpop')
    def x_llvm_fshl(self, st, f, ins, a):
        w = self.ew(ins[2])
        if all(isinstance(x, int) for x in a):
            m = (1 << w) - 1
            s = a[2] % w
            return tm.sgn((((a[0] & m) << s) | ((a[1] & m) >> (w - s))) & m, w) if s else a[0]
        raise Unsupported('fshl')
    def ovf(self, ins, a, fn, un):
        w = self.p.types[self.p.types[ins[2]][2][0][1]][2]
        x, y = (tm.uext(a[0], w), tm.uext(a[1], w)) if un else a
        if isinstance(x, int) and isinstance(y, int): r = fn(x, y)
        else: r = {'+': tm._iadd, '*': tm._imul}[self._ov](x, y) if not (isinstance(x, int) and self._ov == '+') else tm._iadd(y, x)
        lo_, hi_ = (0, (1 << w) - 1) if un else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        o = tm.Not(tm.And(tm.icmp('le', lo_, r), tm.icmp('le', r, hi_)))
        return (tm.wrap(r, w), o)
    def x_llvm_umul(self, st, f, ins, a): self._ov = '*'; return self.ovf(ins, a, lambda x, y: x * y, True)
    def x_llvm_smul(self, st, f, ins, a): self._ov = '*'; return self.ovf(ins, a, lambda x, y: x * y, False)
    def x_llvm_uadd(self, st, f, ins, a):
        if 'sat' in self.p.gname[ins[4].v.o]: raise Unsupported('uadd.sat')
        self._ov = '+'; return self.ovf(ins, a, lambda x, y: x + y, True)
    def x_llvm_sadd(self, st, f, ins, a): self._ov = '+'; return self.ovf(ins, a, lambda x, y: x + y, False)
    def x_llvm_usub(self, st, f, ins, a):
        w = self.ew(ins[2]) if self.p.types[ins[2]][0] == 'i' else None
        if w is None: raise Unsupported('usub.with.overflow')
        x, y = tm.uext(a[0], w), tm.uext(a[1], w)
        c = tm.icmp('le', y, x)
        d = tm.isub(x, y, 64, True) if isinstance(x, T) or isinstance(y, T) else x - y
        return tm.wrap(d, w) if c is True else 0 if c is False else tm.ite_int(c, tm.wrap(d, w), 0, w)
    def x_llvm_vector_reduce(self, st, f, ins, a):
        n = self.p.gname[ins[4].v.o]
        if 'fadd' in n:
            r = a[0]
            for x in a[1]: r = self._fadd(st, r, x)
            return r
        if '.or.' in n and self.p.types[ins[2]][2] == 1:
            return tm.Or(*a[0])
        if '.and.' in n and self.p.types[ins[2]][2] == 1:
            return tm.And(*a[0])
        raise Unsupported(n)

    # pthreads / misc
    def zero(self, st, f, ins, a): return 0
    x_pthread_mutex_lock = zero; x_pthread_mutex_unlock = zero; x_pthread_mutex_init = zero; x_pthread_mutex_destroy = zero
    x_pthread_mutexattr_init = zero; x_pthread_mutexattr_settype = zero; x_pthread_mutexattr_destroy = zero; x_pthread_mutex_trylock = zero
    x_pthread_cond_init = zero; x_pthread_cond_destroy = zero; x_sched_yield = zero; x_pthread_condattr_init = zero; x_pthread_condattr_setclock = zero; x_pthread_condattr_destroy = zero
    x_pthread_cond_signal = zero; x_pthread_cond_broadcast = zero
    x___pthread_key_create = zero
    def x_pthread_self(self, st, f, ins, a): return 1
    def x_puts(self, st, f, ins, a): return 0
    def x_printf(self, st, f, ins, a): return 0
    def x_putchar(self, st, f, ins, a): return 0
    def cstr(self, st, p):
        if isinstance(p, Ptr) and p.o != 0:
            ob = self.getobj(st, p.o)
            out = []
            o = p.off
            while True:
                v = self.conv(self.rd(ob, o, 1), 'i', 1, 8)
                if not isinstance(v, int): raise Unsupported('symbolic string')
                if v == 0: break
                out.append(v & 255)
                o += 1
            return bytes(out)
        raise Unsupported('string')
    def x_strlen(self, st, f, ins, a): return len(self.cstr(st, a[0]))
    def x_strcmp(self, st, f, ins, a):
        x, y = self.cstr(st, a[0]), self.cstr(st, a[1])
        return (x > y) - (x < y)
    def bytesat(self, st, p, n):
        ob = self.chkptr(st, p, n, 'memcmp')
        self.bounds(st, ob, p.off, n)
        out = []
        for i in range(n):
            v = self.conv(self.rd(ob, p.off + i, 1), 'i', 1, 8)
            if not isinstance(v, int): raise Unsupported('symbolic memcmp')
            out.append(v & 255)
        return bytes(out)
    def x_memcmp(self, st, f, ins, a):
        if isinstance(a[2], T): raise Unsupported('memcmp length')
        if a[2] == 0: return 0
        try:
            x, y = self.bytesat(st, a[0], a[2]), self.bytesat(st, a[1], a[2])
            return (x > y) - (x < y)
        except Unsupported:
            # equality of symbolic bytes
            c = True
            for i in range(a[2]):
                t = self.typeof('i', 1)
                x, y = self.load(st, Ptr(a[0].o, self.padd(a[0].off, i)), t), self.load(st, Ptr(a[1].o, self.padd(a[1].off, i)), t)
                c = tm.And(c, self.icmp(st, 'eq', x, y, 8))
            return tm.ite_int(c, 0, 1, 32) if isinstance(c, T) else (0 if c else 1)
    x_bcmp = x_memcmp
    def x_memchr(self, st, f, ins, a):
        b = self.bytesat(st, a[0], a[2])
        i = b.find(bytes([a[1] & 255]))
        return NULL if i < 0 else Ptr(a[0].o, a[0].off + i)
    def x__ZSt11_Hash_bytesPKvmm(self, st, f, ins, a):
        b = self.bytesat(st, a[0], a[1])
        h = 14695981039346656037
        for c in b: h = ((h ^ c) * 1099511628211) & ((1 << 64) - 1)
        return tm.sgn(h, 64)
    def x_rand(self, st, f, ins, a):
        return tm.fresh('rand', 32, 0, 2147483647)
    def x_srand(self, st, f, ins, a): return None
    def x_clock(self, st, f, ins, a): return tm.fresh('clock', 64)
    def x_time(self, st, f, ins, a): return tm.fresh('time', 64)
    def x__ZNSt6chrono3_V212system_clock3nowEv(self, st, f, ins, a): return tm.fresh('time', 64)
    def x__ZNSt6chrono3_V212steady_clock3nowEv(self, st, f, ins, a): return tm.fresh('time', 64)
    def x__ZNSt8ios_base4InitC1Ev(self, st, f, ins, a): return None
    def x__ZNSt8ios_base4InitD1Ev(self, st, f, ins, a): return None
    def x___errno_location(self, st, f, ins, a):
        o = self.newobj(st, 4, 'errno')
        return Ptr(o, 0)

    # std::exception family: construct / destroy / what are irrelevant to the contracts
    def nop(self, st, f, ins, a): return None
    x__ZNSt9exceptionD2Ev = nop; x__ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = nop
    x__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = nop
    x__ZNSt13runtime_errorC1EPKc = nop; x__ZNSt13runtime_errorC2EPKc = nop
    x__ZNSt13runtime_errorD1Ev = nop; x__ZNSt13runtime_errorD2Ev = nop; x__ZNSt16invalid_argumentC1EPKc = nop; x__ZNSt16invalid_argumentD1Ev = nop
    x__ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = nop
    x__ZNSt11logic_errorC1EPKc = nop; x__ZNSt11logic_errorC2EPKc = nop; x__ZNSt11logic_errorD1Ev = nop; x__ZNSt11logic_errorD2Ev = nop
    x__ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = nop; x__ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = nop
    x__ZNSt12out_of_rangeC1EPKc = nop; x__ZNSt12out_of_rangeD1Ev = nop
    x__ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = nop
    x__ZNSt12length_errorC1EPKc = nop; x__ZNSt12length_errorD1Ev = nop
    x__ZNSt11range_errorC1EPKc = nop; x__ZNSt11range_errorD1Ev = nop

    # ------------------------------------------------------------------ contract intrinsics
    def label(self, st, p):
        try: return self.cstr(st, p).decode('latin1')
        except Exception: return '?'
    def inname(self, st, p):
        n = self.label(st, p)
        # occurrence number along this path, so that native replay reads the same names
        k = sum(1 for x in st.notes if x == n)
        st.notes.append(n)
        return n if k == 0 else '%s#%d' % (n, k)
    def addinput(self, st, name, v, kind):
        if not any(n == name for n, _, _ in self.inputs): self.inputs.append((name, v, kind))
    def x_vc_nondet_float(self, st, f, ins, a):
        n = self.inname(st, a[0])
        v = tm.var(n, 'R')
        self.addinput(st, n, v, 'r')
        return v
    x_vc_nondet_double = x_vc_nondet_float
    def x_vc_nondet_range(self, st, f, ins, a):
        n = self.inname(st, a[0])
        v = tm.var(n, 'R')
        self.addinput(st, n, v, 'r')
        sg = 1 if isinstance(a[1], Fraction) and a[1] >= 0 else -1 if isinstance(a[2], Fraction) and a[2] <= 0 else None
        if poly.GLOBAL_SIGN.get(v, sg) != sg: raise Unsupported('input %s has two ranges' % n)
        if sg: poly.GLOBAL_SIGN[v] = sg
        if not self.assume(st, tm.rcmp('le', a[1], v)) or not self.assume(st, tm.rcmp('le', v, a[2])): raise PathEnd()
        return v
    def x_vc_nondet_int(self, st, f, ins, a):
        n = self.inname(st, a[0])
        v = tm.var(n, 32, a[1], a[2])
        if a[1] == a[2]: v = a[1]
        self.addinput(st, n, v, 'i')
        return v
    def x_vc_case(self, st, f, ins, a):
        """nondeterministic integer enumerated case by case"""
        n = self.inname(st, a[0])
        v = tm.var(n, 32, a[1], a[2])
        self.addinput(st, n, v, 'i')
        for k in range(a[1], a[2]):
            c = tm.icmp('eq', v, k)
            kn = self.known(st, c)
            if kn is True: return k
            if kn is None:
                st.notes.pop()
                raise Fork(c)
        return a[2]
    def x_vc_nondet_byte(self, st, f, ins, a):
        n = self.inname(st, a[0])
        v = tm.var(n, 8)
        self.addinput(st, n, v, 'i')
        return v
    def x_vc_nondet_bool(self, st, f, ins, a):
        n = self.inname(st, a[0])
        v = tm.var(n, 'B')
        self.addinput(st, n, v, 'b')
        return v
    def x_vc_unit_quat(self, st, f, ins, a):
        n = self.inname(st, a[0])
        q = tuple(tm.var(n + s, 'R') for s in ('.w', '.x', '.y', '.z'))
        if q not in self.quats: self.quats.append(q)
        for s, v in zip(('.w', '.x', '.y', '.z'), q): self.addinput(st, n + s, v, 'r')
        t = self.typeof('f', 4)
        for i, v in enumerate(q): self.store(st, Ptr(a[1].o, self.padd(a[1].off, 4 * i)), v, t)
    def x_vc_symbolic(self, st, f, ins, a): return True
    def x_vc_fresh_float(self, st, f, ins, a):
        return tm.fresh(self.label(st, a[0]), 'R')
    def x_vc_fresh_int(self, st, f, ins, a):
        return tm.fresh(self.label(st, a[0]), 32)
    def x_vc_fresh_bool(self, st, f, ins, a):
        return tm.fresh(self.label(st, a[0]), 'B')
    def x_vc_array(self, st, f, ins, a):
        """float array of symbolic length: name, count, stride(bytes), nfields(floats)"""
        n = self.inname(st, a[0])
        o = self.newobj(st, tm.imul(a[1], a[2], 64, True), n, 'new')
        ob = st.mem[o]
        ob.arr = (a[2], {})
        for k in range(a[3]):
            ob.arr[1][4 * k] = (4, 'f', tm.mk('var', ('%s.%d' % (n, k),), ('A', 'R')))
        return Ptr(o, 0)
    def x_vc_assume(self, st, f, ins, a):
        c = a[0]
        if c is UNDEF: self.fail(st, 'precondition depends on an uninitialised value')
        if not self.assume(st, c): raise PathEnd()
        if isinstance(c, T):
            # prune infeasible paths early
            if solve.check2([x for x in st.pc if x is not c], c, self.quats, self.feas_timeout) == 'unsat': raise PathEnd()
    def x_vc_ensure(self, st, f, ins, a):
        l = self.label(st, a[1])
        if a[0] is UNDEF: self.fail(st, l + ': value is uninitialised')
        self.cover(st, l)
        self.oblige(st, a[0], l)
    def x_vc_assert_lemma(self, st, f, ins, a):
        """prove, then use"""
        l = self.label(st, a[1])
        self.oblige(st, a[0], 'lemma ' + l, assume=True)
    def x_vc_ensure_eq(self, st, f, ins, a):
        l = self.label(st, a[2])
        x, y = a[0], a[1]
        self.cover(st, l)
        if x is UNDEF or y is UNDEF: self.fail(st, l + ': value is uninitialised')
        if isinstance(x, float) or isinstance(y, float):
            if isinstance(x, float) and isinstance(y, float) and x == y: self.oblige(st, True, l); return
            self.oblige(st, False, l + ' (not finite)')
            return
        self.oblige(st, tm.rcmp('eq', x, y), l)
    def x_vc_ensure_le(self, st, f, ins, a):
        l = self.label(st, a[2])
        x, y = a[0], a[1]
        self.cover(st, l)
        if x is UNDEF or y is UNDEF: self.fail(st, l + ': value is uninitialised')
        if isinstance(x, float) or isinstance(y, float):
            r = self.fcmp('ole', x, y)
            self.oblige(st, r, l + ('' if r else ' (not finite)'))
            return
        self.oblige(st, tm.rcmp('le', x, y), l)
    def x_vc_le(self, st, f, ins, a):
        if a[0] is UNDEF or a[1] is UNDEF: return UNDEF
        return self.fcmp('ole', a[0], a[1])
    def x_vc_eq(self, st, f, ins, a):
        if a[0] is UNDEF or a[1] is UNDEF: return UNDEF
        return self.fcmp('oeq', a[0], a[1])
    def x_vc_sin(self, st, f, ins, a): return self.trig(st, 'sin', a[0])
    def x_vc_cos(self, st, f, ins, a): return self.trig(st, 'cos', a[0])
    def x_vc_acos(self, st, f, ins, a): return tm.uf('acos', (a[0],))
    def x_vc_sqrt(self, st, f, ins, a): return tm.uf('sqrt', (a[0],))
    def x_vc_pi(self, st, f, ins, a): return poly.PI
    def x_vc_cover(self, st, f, ins, a):
        self.cover(st, self.label(st, a[0]), True)
    def cover(self, st, l, force=False):
        if self.covers.get(l) == 'sat' : return
        if l in self.covers and not force and self.covers[l] != 'unsat': return
        r = solve.check(st.pc, 3000, self.quats)
        old = self.covers.get(l)
        if old is None or r == 'sat' or (r == 'unknown' and old == 'unsat'): self.covers[l] = r
    def x_vc_unreachable(self, st, f, ins, a):
        self.fail(st, self.label(st, a[0]))

def same(x, y):
    if x is y: return True
    if isinstance(x, T) or isinstance(y, T): return False
    if isinstance(x, Ptr): return isinstance(y, Ptr) and x.o == y.o and (x.off is y.off or (not isinstance(x.off, T) and not isinstance(y.off, T) and x.off == y.off))
    if isinstance(x, tuple): return isinstance(y, tuple) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, Bits): return isinstance(y, Bits) and len(x.pieces) == len(y.pieces) and all(p[0] == q[0] and same(p[1], q[1]) for p, q in zip(x.pieces, y.pieces))
    if type(x) is not type(y): return False
    if isinstance(x, float) and x != x: return y != y
    return x == y
