"""Abstract interpreter over the exported IR. Every value is a value-graph term valid for all
inputs; control-flow joins become conditional terms and loops are summarised (never unrolled):
their variables are solved as inductions, sums, products, last values or array folds, and
anything else becomes a recurrence term."""
import heapq
import sys
from fractions import Fraction
from terms import *
import terms as TM
from arith import Ctx

sys.setrecursionlimit(20000)

UNDEF = ap(atom('app', 'undef', ZERO, int_=True))

# ------------------------------------------------------------------ reads

class Analysis:
    """current context for fact-aware simplification"""
    ctx = Ctx()

AN = Analysis()

def _dec(b):
    return AN.ctx.dec(b)

def with_ctx(ctx):
    old = AN.ctx
    AN.ctx = ctx
    return old

def a_read(A, i):
    ctx = AN.ctx
    k = (A, i)
    c = ctx.cache
    r = c.get(k)
    if r is None:
        r = _read(A, i, ctx)
        c[k] = r
    return r

def _read(A, i, ctx):
    op = A.op
    if op == 'st':
        out = []
        while A.op == 'st':
            base, g, j, v = A.a
            e = ctx.simp(band(g, eq0(sub(i, j))))
            if e is T:
                r = v
                break
            if e is not F:
                out.append((e, v))
            A = base
        else:
            r = a_read(A, i)
        for e, v in reversed(out):
            r = ite(e, v, r)
        return r
    if op == 'ite':
        c = ctx.simp(A.a[0])
        if c is T:
            return a_read(A.a[1], i)
        if c is F:
            return a_read(A.a[2], i)
        return ite(c, a_read(A.a[1], i), a_read(A.a[2], i))
    if op == 'lam':
        b, d = A.a
        return subst(b, {the_atom(bv(d)): i})
    if op == 'undef':
        return ap(atom('app', 'undef', num(A.a[0]), int_=False))
    if op == 'zero':
        return ZERO
    if op == 'fold':
        r = solve_fold(A, i, ctx)
        if r is not None:
            return r
    if op == 'rec':
        try:
            r = solve_rec(A, i, ctx)
        except Unsupported:
            r = None
        if r is not None:
            return r
    return rd_raw(A, i)

TM.RD.read = a_read
TM.RD.dec = _dec

def split_hit(q, X):
    """q = ite(h, v, X) -> (h, v), X an atom; None if q has another shape"""
    if X.a[0] not in q.fv:
        return T, q
    if q is ap(X):
        return F, ZERO
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
            cnd, x, y = m[0][0].a
            a = split_hit(scale(x, c), X)
            b = split_hit(scale(y, c), X)
            if a is None or b is None:
                return None
            h = bite(cnd, a[0], b[0])
            if a[0] is F:
                return h, b[1]
            if b[0] is F:
                return h, a[1]
            return h, ite(cnd, a[1], b[1])
    return None

def split_base(off, k):
    return pdiv(off, k)

def solve_binder(h, t, n, ctx):
    """a term t* such that h(t) with 0<=t<n implies t = t*; also a sufficient condition simplification.
    returns (tstar, extra_cond) or None"""
    va = the_atom(t)
    cands = []
    ess = sorted(essential(h), key=lambda x: x[0].id)
    # quotient and remainder given separately
    for l, s in ess:
        if l.op == 'eq' and s and va in l.fv:
            for m, c in l.a[0].t.items():
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == 'idiv' and m[0][0].a[0] is t:
                    D = m[0][0]
                    X = sub(ap(D), l.a[0]) if c == 1 else add(ap(D), l.a[0])
                    if va in X.fv:
                        continue
                    for l2, s2 in ess:
                        if l2 is not l and l2.op == 'eq' and s2 and any(a is D for m2 in l2.a[0].t for a, e in m2):
                            k, rest = coef_of(subst_atom1(l2.a[0], D, X), va)
                            if k is ONE:
                                return neg(rest), T
                            if k is not None and neg(k) is ONE:
                                return rest, T
    for l, s in ess:
        if va not in l.fv:
            continue
        if l.op == 'eq' and s:
            p = l.a[0]
            k, rest = coef_of(p, va)
            if k is None:
                r = solve_digits(p, t, ctx)
                if r is not None:
                    return r
                continue
            if lead_neg(k):
                k, rest = neg(k), neg(rest)
            e = neg(rest)                      # k*t = e
            if is_const(k) and cval(k) == 1:
                return e, T
            if is_const(k) and cval(k) == -1:
                return rest, T
            if not (ctx.prove(sub(k, ONE))):
                if ctx.prove(sub(neg(k), ONE)):
                    k, e = neg(k), neg(e)
                else:
                    continue
            s_, r_ = pdiv(e, k)
            km1 = sub(k, ONE)
            if ctx.prove(sub(km1, r_)) and ctx.prove(add(km1, r_)):
                return s_, eq0(r_)
            d = idiv(e, k, ctx.dec)
            return d, bands([ge0(e), eq0(sub(e, mul(k, d)))])
        if l.op == 'ge':
            p = l.a[0] if s else sub(neg(l.a[0]), ONE)
            k, rest = coef_of(p, va)
            if k is None:
                continue
            cands.append((k, rest))
    ups = []
    los = []
    for k, r in cands:
        if ctx.prove(sub(neg(k), ONE)):
            ups.append((neg(k), r))            # K*t <= r
        elif ctx.prove(sub(k, ONE)):
            los.append((k, neg(r)))            # K*t >= r
    if ups or los:
        ups.append((ONE, sub(n, ONE)))
        los.append((ONE, ZERO))
    for K, e in ups:
        for K2, e2 in los:
            if K is K2 and ctx.prove(sub(sub(K, ONE), sub(e, e2))):
                s_, r_ = pdiv(e, K)
                if ctx.prove(r_) and ctx.prove(sub(sub(K, ONE), r_)):
                    return s_, T
                return idiv(e, K, ctx.dec), ge0(e)
    return None

def subst_atom1(p, D, X):
    """D replaced by X where it occurs as a factor"""
    r = ZERO
    for m, c in p.t.items():
        e = dict(m).get(D, 0)
        q = TM._mk({tuple(x for x in m if x[0] is not D): c})
        if e < 0:
            raise Unsupported('quotient in a denominator')
        r = add(r, mul(q, ppow(X, e)) if e else q)
    return r

def solve_digits(p, t, ctx):
    """p = M*(t/k) + (t%k) - P with M >= k"""
    va = the_atom(t)
    D = None
    for m in p.t:
        for a, e in m:
            if va in a.fv and a is not va:
                if a.op != 'idiv' or a.a[0] is not t or va in a.a[1].fv or D is not None and D is not a:
                    return None
                D = a
    if D is None:
        return None
    k = D.a[1]
    # coefficients of the quotient and of t
    cd, ct, rest = ZERO, ZERO, {}
    for m, c in p.t.items():
        f = [a for a, e in m if a is D or a is va]
        if not f:
            rest[m] = c
            continue
        if len(f) != 1 or dict(m)[f[0]] != 1:
            return None
        q = TM._mk({tuple(x for x in m if x[0] is not f[0]): c})
        if f[0] is D:
            cd = add(cd, q)
        else:
            ct = add(ct, q)
    rest = TM._mk(rest)
    if ct is neg(ONE):
        cd, ct, rest = neg(cd), ONE, neg(rest)
    if ct is not ONE:
        return None
    M = add(cd, k)
    if not ctx.prove(sub(M, k)) or not ctx.prove(sub(k, ONE)):
        return None
    P = neg(rest)
    d = idiv(P, M, ctx.dec)
    e = sub(P, mul(M, d))
    return add(mul(k, d), e), bands([ge0(P), ge0(sub(sub(k, ONE), e))])

def lead_neg(p):
    return p.t.get(lead(p), 0) < 0

def coef_of(p, va):
    """p = k*va + rest with va not in k, rest (linear, va only as a factor)"""
    k = ZERO
    rest = {}
    for m, c in p.t.items():
        hit = None
        for a, e in m:
            if a is va:
                hit = e
            elif va in a.fv:
                return None, None
        if hit is None:
            rest[m] = c
        elif hit == 1:
            k = add(k, TM._mk({tuple(x for x in m if x[0] is not va): c}))
        else:
            return None, None
    if not k.t:
        return None, None
    return k, TM._mk(rest)

def solve_fold(A, i, ctx):
    base, n, t, ph, body = open_fold(A)
    va = the_atom(t)
    c2 = ctx.child([ge0(sub(sub(n, ONE), t))])
    old = with_ctx(c2)
    try:
        q = c2.simpP(a_read(body, i))
    finally:
        with_ctx(old)
    X = the_atom(rd_raw(ph, i))
    if ph not in q.fv:
        # written on every iteration
        return ite(ctx.simp(ge0(sub(n, ONE))), subst(q, {va: sub(n, ONE)}), a_read(base, i))
    if q is ap(X):
        return a_read(base, i)
    g = sub(q, ap(X))
    if ph not in g.fv:
        return add(a_read(base, i), msum(t, n, g))
    sh = split_hit(q, X)
    if sh is None:
        return None
    h, v = sh
    if va not in h.fv:
        c = ctx.simp(band(h, ge0(sub(n, ONE))))
        if c is F:
            return a_read(base, i)
        return ite(c, subst(v, {va: sub(n, ONE)}), a_read(base, i))
    cases = solve_cases(h, t, n, c2, 2)
    if cases is None:
        return None
    hits = []
    for ts, ex, hk in cases:
        if va in ts.fv or va in ex.fv:
            return None
        cond = ctx.simp(bands([ex, ge0(ts), ge0(sub(sub(n, ONE), ts))]))
        if cond is F:
            continue
        c3 = ctx.child([cond])
        old = with_ctx(c3)
        try:
            hh = c3.simp(subst(hk, {va: ts}))
            vv = subst(v, {va: ts})
            vv = ctx.child([cond, hh]).simpP(vv) if hh is not F else vv
        finally:
            with_ctx(old)
        cond = ctx.simp(band(cond, hh))
        if cond is F:
            continue
        hits.append((cond, vv, ts))
    # at most one of them is the place
    for x in range(len(hits)):
        for y in range(x):
            both = band(hits[x][0], hits[y][0])
            if both is F or both.n > 40:
                if both is F:
                    continue
                return None
            k = ctx.child([both])
            if not (k.prove_false() or ctx.simp(both) is F or hits[x][2] is hits[y][2]):
                return None
    r = None
    for cond, vv, ts in hits:
        if cond is T:
            return vv
    for cond, vv, ts in hits:
        r = ite(cond, vv, a_read(base, i) if r is None else r)
    return a_read(base, i) if r is None else r

_recdepth = [0]
_opened = {}

def solve_rec(A, i, ctx):
    """a place which is never written, or written in one known iteration with a known value"""
    s, j, n = A.a
    if _recdepth[0] > 2:
        return None
    o = _opened.get(s)
    if o is None:
        o = _opened[s] = open_sys(s)
    t, phs, nexts = o
    va = the_atom(t)
    keys = [p if s.kinds[k] == 'a' else (p.l if s.kinds[k] == 'b' else the_atom(p)) for k, p in enumerate(phs)]
    c2 = ctx.child([ge0(sub(sub(n, ONE), t))])
    ph = phs[j]
    _recdepth[0] += 1
    try:
        old = with_ctx(c2)
        try:
            q = c2.simpP(a_read(nexts[j], i))
        finally:
            with_ctx(old)
        X = the_atom(rd_raw(ph, i))
        if q is ap(X):
            return a_read(s.inits[j], i)
        sh = split_hit(q, X) if ph in q.fv else (T, q)
        if sh is None:
            return None
        h, v = sh
        if any(k in h.fv for k in keys):
            return None
        if va not in h.fv:
            ts, cond = sub(n, ONE), ctx.simp(band(h, ge0(sub(n, ONE))))
            hits = [(ts, cond)]
        else:
            cases = solve_cases(h, t, n, c2, 2)
            if cases is None or len(cases) != 1:
                return None
            ts, ex, hk = cases[0]
            if va in ts.fv or va in ex.fv:
                return None
            cond = ctx.simp(bands([ex, ge0(ts), ge0(sub(sub(n, ONE), ts))]))
            if cond is not F:
                cond = ctx.simp(band(cond, ctx.child([cond]).simp(subst(hk, {va: ts}))))
        if cond is F:
            return a_read(s.inits[j], i)
        m = {va: ts}
        if any(k in v.fv for k in keys):
            if ts is not ZERO:
                return None
            for k, x in enumerate(keys):
                if x in v.fv:
                    m[x] = s.inits[k]
        c3 = ctx.child([cond])
        old = with_ctx(c3)
        try:
            vv = c3.simpP(subst(v, m))
        finally:
            with_ctx(old)
        if cond is T:
            return vv
        return ite(cond, vv, a_read(s.inits[j], i))
    finally:
        _recdepth[0] -= 1

def solve_cases(h, t, n, ctx, depth):
    """the places t at which h can hold: list of (t*, condition, h in that case), or None"""
    r = solve_binder(h, t, n, ctx)
    if r is not None:
        return [(r[0], r[1], h)]
    if depth <= 0:
        return None
    va = the_atom(t)
    for l in blits(h):
        if l.op != 'ge' or va not in l.fv:
            continue
        x, y = band(blit(l), cofactor(h, l, True)), band(bnot(blit(l)), cofactor(h, l, False))
        if x is h or y is h:
            continue
        out = []
        for z, f in ((x, blit(l)), (y, bnot(blit(l)))):
            z = ctx.simp(z)
            if z is F:
                continue
            k = ctx.child([f])
            q = solve_cases(z, t, n, k, depth - 1)
            if q is None:
                out = None
                break
            out += q
        if out is not None:
            return out
    return None

# ------------------------------------------------------------------ memory

class Reg:
    """contents of one memory region (immutable)"""
    __slots__ = ('kind', 'cells', 'stride', 'slots', 'size', 'alive', 'bg', 'heap', 'name')
    def __init__(self, kind='cells', cells=None, stride=None, slots=None, size=None, alive=T, bg=None, heap=False, name=''):
        self.kind = kind
        self.cells = cells or {}
        self.stride = stride
        self.slots = slots or {}
        self.size = size
        self.alive = alive
        self.bg = bg
        self.heap = heap
        self.name = name
    def copy(self, **kw):
        r = Reg(self.kind, self.cells, self.stride, self.slots, self.size, self.alive, self.bg, self.heap, self.name)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

class State:
    __slots__ = ('mem', 'pc', 'trace')
    def __init__(self, mem, pc, trace=()):
        self.mem = mem
        self.pc = pc
        self.trace = trace
    def copy(self, pc=None):
        return State(dict(self.mem), self.pc if pc is None else pc, self.trace)

class Outcome:
    def __init__(self, kind, state, info, loc, stack):
        self.kind, self.state, self.info, self.loc, self.stack = kind, state, info, loc, stack
        self.binders = ()
        self.caught = False

class Ob:
    """an obligation: under pc (for all binder values in range) cond must hold"""
    __slots__ = ('kind', 'pc', 'cond', 'binders', 'loc', 'stack', 'note', 'pair')
    def __init__(self, kind, pc, cond, loc, stack, note='', pair=None):
        self.kind, self.pc, self.cond, self.loc, self.stack, self.note, self.pair = kind, pc, cond, loc, stack, note, pair
        self.binders = ()

class Fn:
    pass

class Module:
    def __init__(self, js):
        self.files = js['files']
        self.fns = {}
        for f in js['functions']:
            o = Fn()
            o.__dict__.update(f)
            o.prepared = False
            self.fns[o.name] = o
        self.globals = {g['name']: g for g in js['globals']}

    def prep(self, f):
        if f.prepared:
            return
        f.prepared = True
        n = len(f.blocks)
        succ = []
        for b in f.blocks:
            t = b[-1]
            if t['op'] == 'br':
                succ.append(list(dict.fromkeys(t['succ'])))
            elif t['op'] == 'switch':
                succ.append(list(dict.fromkeys([t['def']] + [c[1] for c in t['cases']])))
            elif t['op'] == 'invoke':
                succ.append([t['succ'][0]])
            else:
                succ.append([])
        f.succ = succ
        every = [x + ([b[-1]['unwind']] if b[-1]['op'] == 'invoke' else []) for x, b in zip(succ, f.blocks)]
        # reverse postorder over all edges from entry
        seen = set()
        order = []
        st = [(0, iter(every[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(every[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        loops = f.loops
        for l in loops:
            l['set'] = set(l['blocks'])
        for l in loops:
            best = None
            for m in loops:
                if m is not l and l['set'] < m['set']:
                    if best is None or len(m['set']) < len(best['set']):
                        best = m
            l['parent'] = best['header'] if best else None
        f.loopof = {l['header']: l for l in loops}
        f.phis = [[i for i in b if i['op'] == 'phi'] for b in f.blocks]

class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'pending', 'resumed', 'extra', 'depth0', 'exc', 'main')
    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.allocas = []
        self.pending = None      # the call that is under way
        self.resumed = []        # states in which a cleanup of this frame passes the exception on
        self.extra = []          # returns after an exception was caught
        self.depth0 = 0
        self.exc = None          # the exception in flight, its clause
        self.main = self

TWO64 = 1 << 64
TWO63 = 1 << 63

class Interp:
    def __init__(self, mod, models):
        self.m = mod
        self.models = models
        self.abn = []
        self.obs = []
        self.stack = []
        self.rid = 0
        self.loopctx = Ctx()
        self.ctxcache = {}
        self.cellhint = {}
        self.steps = 0
        self.max_steps = 3000000
        self.hints = {}
        self.loopdepth = 0
        self.alloc_fail = False
        self.nfail = 0
        self.exactflags = []
        self.addr_of_region = {}
        self.funcs_seen = set()
        self.loops_seen = {}
        self.hard = set()        # what the sizes of allocations and the lengths of loops depend on
        self.deadline = None
        self.virt = {}
        self.stats = {}
        self.opaque_det = False  # determinants are taken by the driver's stand-in
        self.global0 = {}      # global object -> its first content
        self.fixed = {}        # size -> constant it is assumed to be
        self.nounroll = {}
        self.discover = 0      # inside of a loop pass whose outcomes are not kept

    # ---------------------------------------------------------- contexts
    def ctx(self, pc):
        k = (self.loopctx, pc)
        r = self.ctxcache.get(k)
        if r is None:
            r = self.loopctx.child([pc])
            self.ctxcache[k] = r
        return r

    def loc(self, ins):
        d = ins.get('d') if ins else None
        return d

    def where(self, ins):
        """(file, line, function) innermost location"""
        d = ins.get('d') if ins else None
        fr = self.stack[-1] if self.stack else None
        return (self.m.files[d[0]] if d else '?', d[1] if d else 0, fr.fn.dem if fr else '?')

    def backtrace(self):
        return tuple((s.fn.dem, s.__class__) for s in ())

    # ---------------------------------------------------------- regions
    def new_region(self, st, **kw):
        self.rid += 1
        st.mem[self.rid] = Reg(**kw)
        return self.rid

    def baseptr(self, rid, idx=()):
        return ap(atom('base', rid, idx, nn=True))

    def global_region(self, name, st):
        key = '@' + name
        if key not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                st.mem[key] = Reg(size=num(1 << 20), name=name)
            else:
                cells = {}
                if 'init' in g:
                    self.init_cells(cells, 0, g['init'], g['type'])
                    if not g.get('const') and g['type'] in ('double', 'float', ['f', 64], ['f', 32]) and '_ZGV' not in name:
                        # the program may have changed it: any non-negative number
                        kd = 'd' if g['size'] == 8 else 'f'
                        cells[0] = (g['size'], absr(a_read(a_in('setting ' + (g.get('dem') or name) + '#' + kd), ZERO)))
                st.mem[key] = Reg(cells=cells, size=num(g['size']), name=name, bg='zero' if 'init' in g and g['init'][0] == 'z' else None)
            self.global0.setdefault(key, st.mem[key])
        return key

    def init_cells(self, cells, off, c, ty):
        if c[0] == 'agg':
            t = c[1]
            if t[0] == 's':
                for (o, et), e in zip(t[2], c[2]):
                    self.init_cells(cells, off + o, e, et)
            else:
                for k, e in enumerate(c[2]):
                    self.init_cells(cells, off + k * t[2], e, t[3])
        elif c[0] == 'z':
            t = c[1]
            if t[0] == 's':
                for o, et in t[2]:
                    self.init_cells(cells, off + o, ['z', et], et)
            elif t[0] in ('a', 'v'):
                if t[1] <= 256:
                    for k in range(t[1]):
                        self.init_cells(cells, off + k * t[2], ['z', t[3]], t[3])
            else:
                cells[off] = (tsize(t), ZERO)
        elif c[0] in ('u', 'x'):
            pass
        else:
            cells[off] = (tsize(ty), ('lazy', c))

    # ---------------------------------------------------------- operands
    def op(self, fr, o, st):
        k = o[0]
        if k == 'v':
            return fr.regs[o[1]]
        if k == 'i':
            if o[1] == 1:
                return T if o[2] not in ('0',) else F
            return num(int(o[2]))
        if k == 'd':
            x = float(o[1])
            if x != x or x in (float('inf'), float('-inf')):
                return ap(atom('app', 'fp_' + o[1], ONE, int_=False))
            return num(Fraction(x))
        if k == 'n':
            return ZERO
        if k == 'g':
            f = self.m.fns.get(o[1])
            if f is not None:
                return ap(atom('fn', o[1], nn=True))
            return self.baseptr(self.global_region(o[1], st))
        if k == 'cgep':
            return add(self.op(fr, o[1], st), num(o[2]))
        if k == 'u':
            return UNDEF
        if k == 'z':
            return self.zero_of(o[1])
        if k == 'agg':
            return ('agg', tuple(self.op(fr, e, st) for e in o[2]))
        raise Unsupported('operand ' + str(o)[:60])

    def zero_of(self, t):
        if t == 'i1':
            return F
        if isinstance(t, str):
            return ZERO
        if t[0] == 's':
            return ('agg', tuple(self.zero_of(e) for _, e in t[2]))
        return ('agg', tuple(self.zero_of(t[3]) for _ in range(t[1])))

    # ---------------------------------------------------------- machine integers
    def wrapu(self, p, bits, ctx):
        """value of p modulo 2^bits as an unsigned number"""
        M = 1 << bits
        if is_const(p):
            return num(int(cval(p)) % M)
        if nonneg_syn(p) and (abs(cval(p)) < (M >> 1)):
            return p
        c = cval(p)
        if c >= (M >> 1):
            # e.g. x + (2^64 - 1)
            q = sub(p, num(M))
            e = ctx.simp(ge0(q))
            if e is T:
                return q
            if e is F:
                return p
            return ite(e, q, p)
        e = ctx.simp(ge0(p))
        if e is T:
            return p
        if e is F:
            return add(p, num(M))
        a = find_ite(p)
        if a is not None:
            d = ctx.simp(a.a[0])
            x, y = split_ite(p, a)
            if d is T:
                return self.wrapu(x, bits, ctx)
            if d is F:
                return self.wrapu(y, bits, ctx)
            return ite(d, self.wrapu(x, bits, ctx), self.wrapu(y, bits, ctx))
        return ite(e, p, add(p, num(M)))

    def asu(self, p, bits, ctx):
        """reinterpret a signed representation as unsigned"""
        if is_const(p):
            return num(int(cval(p)) % (1 << bits))
        return p

    def ass(self, p, bits, ctx=None):
        M = 1 << bits
        if is_const(p):
            v = int(cval(p)) % M
            return num(v - M if v >= M >> 1 else v)
        a = find_ite(p)
        if a is not None:
            x, y = split_ite(p, a)
            if any(abs(cval(z)) >= M >> 1 for z in (x, y)):
                return ite(a.a[0], self.ass(x, bits), self.ass(y, bits))
        if cval(p) >= M >> 1:
            return sub(p, num(M))
        return p

    # ---------------------------------------------------------- addresses
    def resolve(self, p, st, ctx, ins, what='access', probe=False):
        """list of (cond, region key, idx tuple, offset P) covering the address p"""
        out = []
        def go(p, c):
            p = ctx.simpP(p) if c is T else p
            a = None
            for m in p.t:
                for x, e in m:
                    if x.op == 'ite' and (bases(x.a[1]) or bases(x.a[2]) or is_const(p) or self.is_ptr_ite(x)):
                        a = x
                        break
                if a:
                    break
            if a is not None:
                d = ctx.simp(a.a[0])
                x, y = split_ite(p, a)
                if d is T:
                    return go(x, c)
                if d is F:
                    return go(y, c)
                if band(c, d) is not F:
                    go(x, band(c, d))
                if band(c, bnot(d)) is not F:
                    go(y, band(c, bnot(d)))
                return
            bs = [b for b in bases(p) if b[0].op == 'base']
            if len(bs) == 1 and bs[0][1] == 1:
                b = bs[0][0]
                out.append((c, b.a[0], b.a[1], sub(p, ap(b))))
            else:
                out.append((c, None, None, p))
        go(p, T)
        return out

    def is_ptr_ite(self, x):
        return any(self.has_base(y) for y in x.a[1:])

    def has_base(self, p):
        for m in p.t:
            for a, e in m:
                if a.op == 'base':
                    return True
                if a.op == 'ite' and self.is_ptr_ite(a):
                    return True
        return False

    def oblige(self, kind, st, cond, ins, note='', pair=None):
        if cond is T:
            cond = T
        self.obs.append(Ob(kind, st.pc, cond, self.where(ins), self.callchain(), note, pair))

    def callchain(self):
        return tuple(f.fn.name for f in self.stack)

    def check_access(self, st, c, rid, off, size, ins, ctx, what):
        if rid is None:
            self.oblige('null', st, bnot(c), ins, '%s through a null or unknown pointer' % what)
            return False
        r = st.mem.get(rid)
        if r is None:
            self.oblige('lifetime', st, bnot(c), ins, '%s of an object whose lifetime has ended' % what)
            return False
        if r.alive is not T:
            self.oblige('uaf', st, bor(bnot(c), r.alive), ins, '%s of released memory' % what)
        if r.size is not None:
            cond = band(ge0(off), ge0(sub(sub(r.size, num(size)), off)))
            self.oblige('bounds', st, bor(bnot(c), cond), ins, '%s of %d byte(s) at offset %r of %s (%r bytes)' % (what, size, off, r.name or 'an object', r.size))
        return True

    def region_arr(self, st, rid, r, off, size, ctx):
        """switch a region to array mode suitable for an access at off"""
        if r.kind == 'arr' and r.stride is not None:
            return r
        g = 0
        for m, c in off.t.items():
            if m:
                for a, e in m:
                    pass
                import math
                g = math.gcd(g, int(abs(c))) if not isinstance(c, Fraction) else 0
        h = self.hints.get(rid)
        if r.kind == 'arr':
            stride = h or g
            if not stride:
                cg = 0
                import math
                if r.size is not None:
                    for m, c in r.size.t.items():
                        cg = math.gcd(cg, int(c))
                stride = cg or size
            if g and g % stride:
                stride = g
            if stride < size:
                stride = size
            return r.copy(stride=stride)
        # cells -> array
        stride = h if h and g and g % h == 0 else g
        if not stride:
            raise Unsupported('cells to array')
        slots = {}
        for o, (sz, v) in sorted(r.cells.items()):
            v = self.force(v, st)
            q, sb = divmod(o, stride)
            A = slots.get(sb)
            if A is None:
                A = (sz, arr('undef', self.rid_num(rid)) if r.bg is None else arr('zero'))
            slots[sb] = (sz, a_st(A[1], T, num(q), v))
        return r.copy(kind='arr', stride=stride, slots=slots, cells={})

    def rid_num(self, rid):
        return rid if isinstance(rid, int) else 0

    def force(self, v, st):
        if type(v) is tuple and v[0] == 'lazy':
            return self.op(None, v[1], st)
        return v

    def split_off(self, r, off, ctx):
        """off = stride*idx + sub"""
        s = r.stride
        sb = cval(off)
        if isinstance(sb, Fraction):
            raise Unsupported('offset')
        sb = sb % s
        o = sub(off, num(sb))
        d = {}
        for m, c in o.t.items():
            if isinstance(c, Fraction) or c % s:
                raise Unsupported('offset not a multiple of the element size: %r by %d' % (off, s))
            d[m] = c // s
        return TM._mk(d), sb

    def load1(self, st, rid, idx, off, size, ctx, ins):
        r = st.mem[rid]
        if r.kind == 'fam':
            return self.models.fam_load(self, st, r, idx, off, size)
        if r.kind == 'cells':
            if is_const(off):
                o = int(cval(off))
                c = r.cells.get(o)
                if c is not None:
                    if c[0] != size and not (c[0] == 1 and size == 1):
                        return self.load_pun(r, o, size, st)
                    return self.force(c[1], st)
                # inside a larger cell or nothing
                for oo, (sz, v) in r.cells.items():
                    if oo < o + size and o < oo + sz:
                        raise Unsupported('partial load')
                if r.bg == 'zero':
                    return ZERO
                return ap(atom('app', 'undef', num(self.rid_num(rid)), int_=True))
            r = self.region_arr(st, rid, r, off, size, ctx)
            st.mem[rid] = r
        if r.stride is None:
            r = self.region_arr(st, rid, r, off, size, ctx)
            st.mem[rid] = r
        i, sb = self.split_off(r, off, ctx)
        s = r.slots.get(sb)
        if s is None:
            if r.bg == 'zero':
                return ZERO
            return ap(atom('app', 'undef', num(self.rid_num(rid)), int_=True))
        return a_read(s[1], i)

    def load_pun(self, r, o, size, st):
        # a zero constant read with another width
        if all(self.force(v, st) is ZERO for oo, (sz, v) in r.cells.items() if oo < o + size and o < oo + sz):
            return ZERO
        raise Unsupported('load with another width')

    def store1(self, st, rid, idx, off, size, val, cond, ctx, ins):
        r = st.mem[rid]
        if r.kind == 'cells':
            if is_const(off):
                o = int(cval(off))
                cells = r.cells
                if o not in cells or cells[o][0] != size:
                    cells = {oo: c for oo, c in cells.items() if not (oo < o + size and o < oo + c[0])}
                    old = ap(atom('app', 'undef', num(self.rid_num(rid)), int_=True))
                    if cond is not T and r.bg == 'zero':
                        old = ZERO
                else:
                    cells = dict(cells)
                    old = self.force(cells[o][1], st) if cond is not T else None
                cells[o] = (size, val if cond is T else ite(cond, val, old))
                st.mem[rid] = r.copy(cells=cells)
                return
            r = self.region_arr(st, rid, r, off, size, ctx)
        if r.stride is None:
            r = self.region_arr(st, rid, r, off, size, ctx)
        i, sb = self.split_off(r, off, ctx)
        slots = dict(r.slots)
        s = slots.get(sb)
        if s is None:
            s = (size, arr('zero') if r.bg == 'zero' else arr('undef', self.rid_num(rid)))
        elif s[0] != size:
            raise Unsupported('store with another width')
        slots[sb] = (size, a_st(s[1], cond, i, val))
        st.mem[rid] = r.copy(kind='arr', slots=slots)

    def load(self, st, p, size, ins):
        ctx = self.ctx(st.pc)
        AN.ctx = ctx
        parts = self.resolve(p, st, ctx, ins)
        res = None
        for c, rid, idx, off in reversed(parts):
            if not self.check_access(st, c, rid, off, size, ins, ctx, 'read'):
                v = UNDEF
                if len(parts) == 1:
                    # the path cannot continue in a meaningful way
                    res = UNDEF
                continue
            v = self.load1(st, rid, idx, off, size, ctx, ins)
            res = v if res is None else ite(c, v, res)
        return UNDEF if res is None else res

    def store(self, st, p, size, val, ins):
        ctx = self.ctx(st.pc)
        AN.ctx = ctx
        for c, rid, idx, off in self.resolve(p, st, ctx, ins):
            if not self.check_access(st, c, rid, off, size, ins, ctx, 'write'):
                continue
            self.store1(st, rid, idx, off, size, val, c, ctx, ins)

    # typed
    def load_t(self, st, p, t, ins):
        if isinstance(t, str):
            if t == 'i1':
                return bnot(eq0(self.load(st, p, 1, ins)))
            return self.load(st, p, tsize(t), ins)
        if t[0] == 's':
            return ('agg', tuple(self.load_t(st, add(p, num(o)), et, ins) for o, et in t[2]))
        return ('agg', tuple(self.load_t(st, add(p, num(k * t[2])), t[3], ins) for k in range(t[1])))

    def store_t(self, st, p, t, v, ins):
        if isinstance(t, str):
            if t == 'i1':
                v = b2p(v)
            return self.store(st, p, tsize(t), v, ins)
        if type(v) is not tuple:
            v = ('agg', tuple(v for _ in range(64)))
        if t[0] == 's':
            for (o, et), x in zip(t[2], v[1]):
                self.store_t(st, add(p, num(o)), et, x, ins)
        else:
            for k in range(t[1]):
                self.store_t(st, add(p, num(k * t[2])), t[3], v[1][k], ins)

    # bulk
    def memcpy(self, st, d, s, n, ins):
        ctx = self.ctx(st.pc)
        AN.ctx = ctx
        n = ctx.simpP(n)
        if is_const(n) and cval(n) == 0:
            return
        sp = self.resolve(s, st, ctx, ins)
        dp = self.resolve(d, st, ctx, ins)
        sp = [x for x in sp if ctx.simp(x[0]) is not F]
        dp = [x for x in dp if ctx.simp(x[0]) is not F]
        if not is_const(n) and len(sp) > 1:
            # drop null alternatives guarded by an empty size
            sp = [x for x in sp if x[1] is not None]
        if not is_const(n) and len(dp) > 1:
            dp = [x for x in dp if x[1] is not None]
        if len(sp) != 1 or len(dp) != 1 or sp[0][1] is None or dp[0][1] is None:
            if is_const(n) and len(dp) >= 1:
                return self.memcpy_small(st, d, s, int(cval(n)), ins)
            raise Unsupported('memcpy between several objects')
        _, sr, si, so = sp[0]
        _, dr, di, do = dp[0]
        if is_const(n):
            return self.memcpy_small(st, d, s, int(cval(n)), ins)
        R = st.mem[sr]
        if R.kind == 'fam':
            raise Unsupported('memcpy from a family')
        for rid, off in ((sr, so), (dr, do)):
            r = st.mem[rid]
            if r.size is not None:
                self.oblige('bounds', st, bor(eq0(n), band(ge0(off), ge0(sub(sub(r.size, n), off)))), ins, 'bulk copy')
        if R.kind != 'arr' or R.stride is None:
            R = self.region_arr(st, sr, R, n, 1, ctx)
            st.mem[sr] = R
        D = st.mem[dr]
        if D.kind == 'arr' and D.stride is None:
            D = D.copy(stride=R.stride)
        elif D.kind == 'cells' and not D.cells:
            D = D.copy(kind='arr', stride=R.stride)
        elif D.kind == 'cells':
            D = self.region_arr(st, dr, D, n, 1, ctx)
        if D.stride != R.stride:
            raise Unsupported('memcpy between arrays of different element sizes')
        si_, ss = self.split_off(R, so, ctx)
        di_, ds = self.split_off(D, do, ctx)
        cnt = {}
        for m, c in n.t.items():
            if isinstance(c, Fraction) or c % R.stride:
                raise Unsupported('memcpy size')
            cnt[m] = c // R.stride
        cnt = TM._mk(cnt)
        if ss != ds or ss != 0:
            raise Unsupported('memcpy alignment')
        slots = dict(D.slots)
        for sb, (sz, A) in R.slots.items():
            base = slots.get(sb, (sz, arr('undef', self.rid_num(dr))))[1]
            if base.op == 'undef' and is_const(si_) and is_const(di_) and si_ is di_ is ZERO:
                slots[sb] = (sz, A)
                continue
            t = fresh()
            TM._fresh[0] += 1
            ph = arr('ph', TM._fresh[0])
            old = AN.ctx
            AN.ctx = ctx.child([ge0(sub(sub(cnt, ONE), t))])
            v = a_read(A, add(si_, t))
            AN.ctx = old
            slots[sb] = (sz, a_fold(base, t, cnt, ph, a_st(ph, T, add(di_, t), v)))
        st.mem[dr] = D.copy(slots=slots)

    def memcpy_small(self, st, d, s, n, ins):
        ctx = self.ctx(st.pc)
        sp = self.resolve(s, st, ctx, ins)
        pieces = None
        for c, rid, idx, off in sp:
            if rid is None or rid not in st.mem:
                continue
            r = st.mem[rid]
            if r.kind == 'cells' and is_const(off):
                o = int(cval(off))
                ps = [(oo - o, sz) for oo, (sz, v) in r.cells.items() if o <= oo and oo + sz <= o + n]
                if r.bg == 'zero' and not ps:
                    ps = [(k, 8) for k in range(0, n - 7, 8)]
            elif r.kind == 'arr' and r.stride is not None or r.kind == 'cells' and not is_const(off) and r.cells:
                if r.kind == 'cells':
                    r = self.region_arr(st, rid, r, off, n, ctx)
                    st.mem[rid] = r
                i, sb = self.split_off(r, off, ctx)
                ps = []
                for b, (sz, A) in r.slots.items():
                    k = b - sb
                    while k < 0:
                        k += r.stride
                    while k + sz <= n:
                        ps.append((k, sz))
                        k += -(-sz // r.stride) * r.stride
            elif r.kind == 'fam':
                ps = [(k, 8) for k in range(0, n, 8)]
            else:
                ps = []
            if pieces is None:
                pieces = set(ps)
            else:
                pieces |= set(ps)
        if not pieces:
            # copying uninitialised storage
            self.load(st, s, n, ins) if False else None
            for c, rid, idx, off in sp:
                self.check_access(st, c, rid, off, n, ins, ctx, 'read')
            for c, rid, idx, off in self.resolve(d, st, ctx, ins):
                self.check_access(st, c, rid, off, n, ins, ctx, 'write')
                r = st.mem.get(rid)
                if n > 1 and r is not None and (r.cells if r.kind == 'cells' else r.slots):
                    raise Unsupported('copy of storage that was never written')
            return
        vals = [(o, sz, self.load(st, add(s, num(o)), sz, ins)) for o, sz in sorted(pieces)]
        for o, sz, v in vals:
            self.store(st, add(d, num(o)), sz, v, ins)

    def memset(self, st, d, v, n, ins):
        ctx = self.ctx(st.pc)
        if not (is_const(v) and cval(v) == 0):
            raise Unsupported('memset with a non-zero byte')
        if is_const(n) and cval(n) == 0:
            return
        for c, rid, idx, off in self.resolve(d, st, ctx, ins):
            if rid is None:
                if ctx.simp(band(c, ge0(sub(n, ONE)))) is F:
                    continue
                self.oblige('null', st, bnot(c), ins, 'memset of a null pointer')
                continue
            if c is not T:
                raise Unsupported('conditional memset')
            r = st.mem[rid]
            if r.size is not None:
                self.oblige('bounds', st, bor(eq0(n), band(ge0(off), ge0(sub(sub(r.size, n), off)))), ins, 'memset')
            if r.size is n and off is ZERO and not r.slots and not r.cells:
                st.mem[rid] = r.copy(bg='zero')
            elif is_const(n) and is_const(off) and r.kind == 'cells':
                o = int(cval(off))
                N = int(cval(n))
                cells = dict(r.cells)
                hit = False
                for oo in list(cells):
                    sz = cells[oo][0]
                    if o <= oo and oo + sz <= o + N:
                        cells[oo] = (sz, ZERO)
                        hit = True
                if not hit or True:
                    k = o
                    while k + 8 <= o + N:
                        if not any(oo < k + 8 and k < oo + c[0] for oo, c in cells.items()):
                            cells[k] = (8, ZERO)
                        k += 8
                st.mem[rid] = r.copy(cells=cells)
            elif r.kind == 'arr':
                if r.stride is None:
                    r = self.region_arr(st, rid, r, off, 8, ctx)
                if not r.slots:
                    r = r.copy(slots={0: (r.stride if r.stride <= 8 else 8, arr('undef', self.rid_num(rid)))})
                    if r.stride == 16:
                        r.slots[8] = (8, arr('undef', self.rid_num(rid)))
                i, sb = self.split_off(r, off, ctx)
                cnt = idiv(n, num(r.stride), ctx.dec)
                slots = {}
                for b, (sz, A) in r.slots.items():
                    t = fresh()
                    TM._fresh[0] += 1
                    ph = arr('ph', TM._fresh[0])
                    slots[b] = (sz, a_fold(A, t, cnt, ph, a_st(ph, T, add(i, t), ZERO)))
                st.mem[rid] = r.copy(slots=slots)
            else:
                raise Unsupported('memset')

    # ---------------------------------------------------------- instructions
    def exec_block(self, fr, b, st):
        """runs the non-phi instructions; returns ('edges', [(succ, state)]) or ('ret', value, state) or None"""
        fn = fr.fn
        regs = fr.regs
        for ins in fn.blocks[b]:
            o = ins['op']
            if o == 'phi':
                continue
            if o == 'resume':
                fr.resumed.append(st)
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step budget')
            if o == 'br':
                s = ins['succ']
                if len(s) == 1:
                    return ('edges', [(s[0], st)])
                c = self.op(fr, ins['cond'], st)
                if s[0] == s[1]:
                    return ('edges', [(s[0], st)])
                if not isinstance(c, B):
                    raise Unsupported('undefined branch condition')
                c = self.ctx(st.pc).simp(c)
                out = []
                pt = band(st.pc, c)
                pf = band(st.pc, bnot(c))
                if c is not F and pt is not F:
                    out.append((s[0], st.copy(pt)))
                if c is not T and pf is not F:
                    out.append((s[1], st.copy(pf)))
                return ('edges', out)
            if o == 'switch':
                v = self.op(fr, ins['cond'], st)
                out = []
                pc = st.pc
                ctx = self.ctx(st.pc)
                for cv, tgt in ins['cases']:
                    c = ctx.simp(eq0(sub(v, num(int(cv[2])))))
                    p = band(pc, c)
                    if p is not F:
                        out.append((tgt, st.copy(p)))
                    pc = band(pc, bnot(c))
                if pc is not F:
                    out.append((ins['def'], st.copy(pc)))
                return ('edges', out)
            if o == 'ret':
                v = self.op(fr, ins['o'][0], st) if ins['o'] else None
                return ('ret', v, st)
            if o == 'unreachable':
                return None
            if o == 'call' or o == 'invoke':
                fr.pending = (ins, b)
                v, st = self.do_call(fr, ins, st)
                if st is None:
                    return None
                if 'id' in ins:
                    regs[ins['id']] = v
                if o == 'invoke':
                    return ('edges', [(ins['succ'][0], st)])
                continue
            if o == 'store':
                v = self.op(fr, ins['o'][0], st)
                p = self.op(fr, ins['o'][1], st)
                self.store_t(st, p, ins['st'], v, ins)
                continue
            regs[ins['id']] = self.exec_ins(fr, ins, st, o)
        return None

    def exec_ins(self, fr, ins, st, o):
        if o == 'alloca':
            r = self.new_region(st, size=num(ins['size']), name='local')
            fr.allocas.append(r)
            return self.baseptr(r)
        if o == 'load':
            return self.load_t(st, self.op(fr, ins['o'][0], st), ins['t'], ins)
        if o == 'getelementptr':
            if ins.get('bad'):
                raise Unsupported('gep')
            p = self.op(fr, ins['base'], st)
            off = num(ins['off'])
            for v, sc in ins['var']:
                x = self.op(fr, v, st)
                x = self.ass(x, 64)
                off = add(off, scale(x, sc))
            if 'hint' in ins and ins['hint'] > 1:
                bs = [x for x in self.hintbases(p)]
                for b in bs:
                    self.hints.setdefault(b, ins['hint'])
            return add(p, off)
        ctx = self.ctx(st.pc)
        AN.ctx = ctx
        if o in ('icmp', 'fcmp'):
            a = self.op(fr, ins['o'][0], st)
            b = self.op(fr, ins['o'][1], st)
            return ctx.simp(self.compare(ins, a, b, ctx))
        t = ins.get('t')
        if o == 'select':
            c = self.op(fr, ins['o'][0], st)
            x = self.op(fr, ins['o'][1], st)
            y = self.op(fr, ins['o'][2], st)
            return self.vite(ctx.simp(c), x, y)
        if o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a = self.op(fr, ins['o'][0], st)
            b = self.op(fr, ins['o'][1], st)
            if t == 'i1':
                if o == 'and':
                    return band(a, b)
                if o == 'or':
                    return bor(a, b)
                if o in ('xor', 'add', 'sub'):
                    return bnot(biff(a, b))
                raise Unsupported('i1 ' + o)
            return self.intop(o, a, b, int(t[1:]), ins, ctx, st)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if not isinstance(t, str):
                raise Unsupported('vector arithmetic')
            a = self.op(fr, ins['o'][0], st)
            b = self.op(fr, ins['o'][1], st)
            if o == 'fadd':
                return add(a, b)
            if o == 'fsub':
                return sub(a, b)
            if o == 'fmul':
                return mul(a, b)
            if o == 'fdiv':
                if self.models.fdiv is not None:
                    self.oblige('fdiv0', st, bnot(eq0(b, True)), ins, self.models.fdiv)
                return mul(a, inv(b))
            raise Unsupported('frem')
        if o == 'fneg':
            return neg(self.op(fr, ins['o'][0], st))
        if o in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            x = self.op(fr, ins['o'][0], st)
            return self.cast(o, x, ins['from'], t, ctx)
        if o == 'freeze':
            return self.op(fr, ins['o'][0], st)
        if o == 'landingpad':
            return ('agg', (ap(atom('app', 'exception')), num(fr.exc[1])))
        if o == 'extractvalue':
            x = self.op(fr, ins['o'][0], st)
            for k in ins['ix']:
                if type(x) is not tuple:
                    return UNDEF
                x = x[1][k]
            return x
        if o == 'insertvalue':
            x = self.op(fr, ins['o'][0], st)
            y = self.op(fr, ins['o'][1], st)
            return self.insertv(x, y, ins['ix'], t)
        if o in ('extractelement', 'insertelement'):
            x = self.op(fr, ins['o'][0], st)
            if o == 'extractelement':
                k = self.op(fr, ins['o'][1], st)
                return x[1][int(cval(k))] if type(x) is tuple else UNDEF
            y = self.op(fr, ins['o'][1], st)
            k = int(cval(self.op(fr, ins['o'][2], st)))
            l = list(x[1]) if type(x) is tuple else [UNDEF] * t[1]
            l[k] = y
            return ('agg', tuple(l))
        raise Unsupported('instruction ' + o)

    def hintbases(self, p):
        for m in p.t:
            for a, e in m:
                if a.op == 'base':
                    yield a.a[0]
                elif a.op == 'ite':
                    yield from self.hintbases(a.a[1])
                    yield from self.hintbases(a.a[2])

    def insertv(self, x, y, ix, t):
        if not ix:
            return y
        n = len(t[2]) if t[0] == 's' else t[1]
        l = list(x[1]) if type(x) is tuple else [UNDEF] * n
        et = t[2][ix[0]][1] if t[0] == 's' else t[3]
        l[ix[0]] = self.insertv(l[ix[0]], y, ix[1:], et)
        return ('agg', tuple(l))

    def vite(self, c, x, y):
        if x is y:
            return x
        if c is T:
            return x
        if c is F:
            return y
        if isinstance(x, B) or isinstance(y, B):
            if not isinstance(x, B):
                return y
            if not isinstance(y, B):
                return x
            return bite(c, x, y)
        if type(x) is tuple or type(y) is tuple:
            if type(x) is not tuple:
                return y
            if type(y) is not tuple:
                return x
            return ('agg', tuple(self.vite(c, a, b) for a, b in zip(x[1], y[1])))
        return ite(c, x, y)

    def compare(self, ins, a, b, ctx):
        p = ins['p']
        if isinstance(a, B) or isinstance(b, B):
            if not isinstance(a, B) or not isinstance(b, B):
                raise Unsupported('i1 compare')
            if p == 'eq':
                return biff(a, b)
            if p == 'ne':
                return bnot(biff(a, b))
            raise Unsupported('i1 compare')
        if ins['op'] == 'fcmp':
            if p in ('uno',):
                return F
            if p == 'ord':
                return T
            q = p[1:]
            d = sub(a, b)
            if q == 'eq':
                return eq0(d, True)
            if q == 'ne':
                return bnot(eq0(d, True))
            if q == 'gt':
                return gt0(d)
            if q == 'lt':
                return gt0(neg(d))
            if q == 'ge':
                return bnot(gt0(neg(d)))
            if q == 'le':
                return bnot(gt0(d))
            raise Unsupported('fcmp ' + p)
        if p in ('eq', 'ne'):
            # representations: bring constants to the same side
            d = sub(a, b)
            if is_const(a) != is_const(b) or True:
                for (x, y) in ((a, b), (b, a)):
                    if is_const(y) and cval(y) < 0 and not is_const(x) and self.seems_unsigned(x):
                        d = sub(x, num(int(cval(y)) % TWO64))
            e = eq0(d)
            return e if p == 'eq' else bnot(e)
        if p[0] == 'u':
            a = self.asu(a, 64, ctx)
            b = self.asu(b, 64, ctx)
            # pointers of one object: offsets
        else:
            a = self.ass(a, 64)
            b = self.ass(b, 64)
        d = sub(a, b)
        if p in ('ugt', 'sgt'):
            return gt_int(d)
        if p in ('uge', 'sge'):
            return ge0(d)
        if p in ('ult', 'slt'):
            return gt_int(neg(d))
        return ge0(neg(d))

    def seems_unsigned(self, p):
        return nonneg_syn(p) or any(cval(x) >= TWO63 for a in [find_ite(p)] if a is not None for x in split_ite(p, a))

    def intop(self, o, a, b, bits, ins, ctx, st):
        nsw = ins.get('nsw')
        if o == 'add':
            if nsw:
                return add(self.ass(a, bits), self.ass(b, bits))
            return self.wrapu(add(a, b), bits, ctx)
        if o == 'sub':
            if nsw or self.has_base(a) or self.has_base(b):
                return sub(self.ass(a, bits), self.ass(b, bits))
            return self.wrapu(sub(a, b), bits, ctx)
        if o == 'mul':
            r = mul(a, b)
            if is_const(r):
                v = int(cval(r))
                M = 1 << bits
                if v >= M or v < -(M >> 1):
                    v %= M
                return num(v)
            return r
        if o in ('udiv', 'urem'):
            a = self.asu(a, bits, ctx)
            b = self.asu(b, bits, ctx)
            self.oblige('div0', st, bnot(eq0(b)), ins, 'division by zero')
            q = idiv(a, b, ctx.dec)
            return q if o == 'udiv' else sub(a, mul(b, q))
        if o in ('sdiv', 'srem'):
            a = self.ass(a, bits)
            b = self.ass(b, bits)
            self.oblige('div0i', st, bnot(eq0(b)), ins, 'division by zero')
            q = sdiv(a, b)
            return q if o == 'sdiv' else sub(a, mul(b, q))
        if o == 'shl' and is_const(b):
            return self.intop('mul', a, num(1 << int(cval(b))), bits, ins, ctx, st)
        if o == 'lshr' and is_const(b):
            return idiv(self.asu(a, bits, ctx), num(1 << int(cval(b))), ctx.dec)
        if o == 'ashr' and is_const(b):
            a = self.ass(a, bits)
            if is_const(a):
                return num(int(cval(a)) >> int(cval(b)))
            if ctx.dec(ge0(a)) is T:
                return idiv(a, num(1 << int(cval(b))), ctx.dec)
            raise Unsupported('shift of a possibly negative value')
        if o == 'and':
            if is_const(a):
                a, b = b, a
            if is_const(b):
                v = int(cval(b)) % (1 << bits)
                if (v & (v + 1)) == 0:
                    q = num(v + 1)
                    return sub(a, mul(q, idiv(a, q, ctx.dec)))
                if v == (1 << bits) - 2:
                    return mul(num(2), idiv(a, num(2), ctx.dec))
            if self.isbool(a) and self.isbool(b):
                return b2p(band(bnot(eq0(a)), bnot(eq0(b))))
        if o == 'or' and self.isbool(a) and self.isbool(b):
            return b2p(bor(bnot(eq0(a)), bnot(eq0(b))))
        if o == 'xor':
            if is_const(b) and cval(b) == -1:
                return sub(neg(a), ONE)
            if self.isbool(a) and self.isbool(b):
                return b2p(bnot(biff(bnot(eq0(a)), bnot(eq0(b)))))
        if is_const(a) and is_const(b):
            x, y = int(cval(a)), int(cval(b))
            if o in ('and', 'or', 'xor'):
                return num({'and': x & y, 'or': x | y, 'xor': x ^ y}[o])
        raise Unsupported('integer ' + o)

    def isbool(self, p):
        if is_const(p):
            return cval(p) in (0, 1)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.op == 'ite':
                    return self.isbool(a.a[1]) and self.isbool(a.a[2])
                if a.op == 'rd' and a.a[0].op == 'in' and a.a[0].a[0].endswith('#b'):
                    return True
        a = find_ite(p)
        if a is not None:
            x, y = split_ite(p, a)
            return self.isbool(x) and self.isbool(y)
        return False

    def cast(self, o, x, frm, to, ctx):
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'sitofp'):
            if isinstance(x, B):
                return b2p(x) if o != 'sitofp' else neg(b2p(x))
            if o == 'sitofp':
                return self.ass(x, int(frm[1:]))
            return x
        if o == 'zext':
            if frm == 'i1':
                return b2p(x)
            return self.asu_cast(x, int(frm[1:]))
        if o == 'sext':
            if frm == 'i1':
                return neg(b2p(x))
            return self.ass(x, int(frm[1:]))
        if o == 'uitofp':
            if frm == 'i1':
                return b2p(x)
            return self.asu(x, int(frm[1:]), ctx)
        if o == 'trunc':
            if to == 'i1':
                if isinstance(x, B):
                    return x
                return bnot(eq0(x))
            bits = int(to[1:])
            if is_const(x):
                return self.ass(x, bits)
            if bits >= 32 and sizelike(sub(x, num(cval(x)))):
                return x
            if bits == 8 and self.isbool(x):
                return x
            y = ctx.simpP(x)
            if bits >= 32:
                if len(y.t) == 1 and all(len(m) == 1 and c == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'user_len' for m, c in y.t.items()):
                    return y
                a = find_ite(y)
                if a is not None:
                    u, v = split_ite(y, a)
                    return ite(a.a[0], self.cast(o, u, frm, to, ctx), self.cast(o, v, frm, to, ctx))
                return app('wrap%d' % bits, x, int_=True)
            return app('wrap%d' % bits, x, int_=True)
        if o in ('fptosi', 'fptoui'):
            if to == 'i1':
                return bnot(eq0(x, True))
            return app('trunc', x)
        if o == 'fptrunc':
            if frm == 'x86_fp80' and to == 'double':
                return x
            return app('f32', x)
        raise Unsupported(o)

    def asu_cast(self, x, bits):
        if is_const(x):
            return num(int(cval(x)) % (1 << bits))
        return x

    # ---------------------------------------------------------- calls
    def do_call(self, fr, ins, st):
        c = ins['callee']
        args = [self.op(fr, a, st) for a in ins['args']]
        if c[0] == 'g':
            name = c[1]
        else:
            p = self.op(fr, c, st)
            if isinstance(p, Poly):
                p = self.ctx(st.pc).simpP(p)
            if not isinstance(p, Poly) or len(p.t) != 1:
                raise Unsupported('indirect call')
            a = the_atom(p)
            if a.op == 'vslot':
                return self.models.virtual(self, st, a, args, ins)
            if a.op != 'fn':
                raise Unsupported('indirect call to %r' % p)
            name = a.a[0]
        return self.call(name, args, st, ins)

    def call(self, name, args, st, ins):
        f = self.m.fns.get(name)
        mdl = self.models.lookup(name, f)
        if mdl is not None:
            return mdl(self, st, args, ins, name)
        if f is not None and 'malg::linalg::expm<double>(' in f.dem:
            g = self.m.fns.get('vf_model_expm_d')
            if g is not None and len(g.args) <= len(f.args) and [a['type'] for a in g.args] == [a['type'] for a in f.args[:len(g.args)]]:
                f, name, args = g, 'vf_model_expm_d', args[:len(g.args)]
        if self.opaque_det and f is not None and f.dem.startswith(('auto malg::linalg::determinant<double>(', 'auto malg::linalg::determinant<double const>(')):
            g = self.m.fns.get('vf_model_det_d')
            if g is not None and [a['type'] for a in g.args] == [a['type'] for a in f.args]:
                f, name = g, 'vf_model_det_d'
        if f is None or f.decl:
            raise Unsupported('external function ' + (f.dem if f else name))
        if sum(1 for s in self.stack if s.fn is f) > 6 or len(self.stack) > 60:
            raise Unsupported('recursion in ' + f.dem)
        self.m.prep(f)
        self.funcs_seen.add(name)
        nf = Frame(f)
        nf.depth0 = self.loopdepth
        for a, v in zip(f.args, args):
            if 'byval' in a:
                r = self.new_region(st, size=num(a['byval']), name='by-value argument')
                nf.allocas.append(r)
                q = self.baseptr(r)
                self.memcpy(st, q, v, num(a['byval']), ins)
                v = q
            nf.regs[a['id']] = v
        self.stack.append(nf)
        try:
            rets, exits, latches = self.run_region(nf, None, 0, st, {})
        finally:
            self.stack.pop()
        rets = rets + nf.extra
        if not rets:
            return None, None
        v, s = self.merge_rets(rets)
        for r in nf.allocas:
            s.mem.pop(r, None)
        return v, s

    # ---------------------------------------------------------- exceptions
    def unwind(self, st, info, ins, out):
        """runs the cleanups and handlers of the frames under way for an exception thrown in state st"""
        if self.discover:
            return
        saved = self.stack
        try:
            for k in range(len(saved) - 1, -1, -1):
                fr = saved[k]
                pd = fr.pending
                if pd is None or pd[0]['op'] != 'invoke':
                    st = st.copy()
                    for r in fr.allocas:
                        st.mem.pop(r, None)
                    continue
                call, b = pd
                lp = call['unwind']
                pad = [x for x in fr.fn.blocks[lp] if x['op'] == 'landingpad'][0]
                sel = self.models.matches(info, pad['clauses'])
                if sel is None and not pad['cleanup']:
                    st = st.copy()
                    for r in fr.allocas:
                        st.mem.pop(r, None)
                    continue
                sh = Frame(fr.fn)
                sh.regs = dict(fr.regs)
                sh.allocas = list(fr.allocas)
                sh.exc = (info, sel or 0)
                sh.main = fr.main
                sh.depth0 = fr.depth0
                self.stack = saved[:k] + [sh]
                st = st.copy()
                ph = {}
                for p in fr.fn.phis[lp]:
                    for bb, o in p['in']:
                        if bb == b:
                            ph[p['id']] = self.op(sh, o, st)
                            break
                rets, exits, latches = self.run_region(sh, None, lp, st, ph)
                if rets:
                    if self.loopdepth != fr.depth0:
                        raise Unsupported('exception caught outside of a loop')
                    sh.main.extra.extend(rets)
                if sel is not None:
                    out.caught = True
                if not sh.resumed:
                    return
                st = self.merge_states(sh.resumed).copy()
                for r in sh.allocas:
                    st.mem.pop(r, None)
        finally:
            self.stack = saved
        o = Outcome('unwound', st, info, out.loc, out.stack)
        self.abn.append(o)

    def merge_rets(self, rets):
        if len(rets) == 1:
            return rets[0]
        s = self.merge_states([r[1] for r in rets])
        v = None
        if rets[0][0] is not None:
            v = self.merge_vals([(r[1].pc, r[0]) for r in rets])
        return v, s

    def merge_vals(self, cv):
        """cv: list of (pc, value), mutually exclusive"""
        v0 = cv[0][1]
        if all(v is v0 for _, v in cv):
            return v0
        tot = cv[-1][0]
        res = cv[-1][1]
        for pc, v in reversed(cv[:-1]):
            tot = bor(tot, pc)
            res = self.vite(constrain(pc, tot), v, res)
        if isinstance(res, Poly):
            res = self.ctx(tot).simpP(res)
        return res

    def merge_states(self, states):
        if len(states) == 1:
            return states[0]
        pcs = [s.pc for s in states]
        tot = bors(pcs)
        mem = {}
        keys = set(states[0].mem)
        for s in states[1:]:
            keys |= set(s.mem)
        # relative conditions
        conds = []
        acc = pcs[-1]
        for pc in reversed(pcs[:-1]):
            acc = bor(acc, pc)
            conds.append(constrain(pc, acc))
        conds = conds[::-1]
        for k in keys:
            rs = [s.mem.get(k) for s in states]
            r0 = rs[0]
            if all(r is r0 for r in rs):
                mem[k] = r0
                continue
            res = rs[-1]
            for c, r in zip(reversed(conds), reversed(rs[:-1])):
                res = self.merge_reg(c, r, res, k)
            mem[k] = res
        trace = self.models.merge_trace(conds, [s.trace for s in states])
        return State(mem, tot, trace)

    def merge_reg(self, c, x, y, rid=None):
        if x is y:
            return x
        if x is None:
            return y.copy(alive=band(bnot(c), y.alive)) if y.heap else y
        if y is None:
            return x.copy(alive=band(c, x.alive)) if x.heap else x
        if x.kind != y.kind:
            if x.kind == 'arr' and y.kind == 'cells':
                if not y.cells:
                    y = y.copy(kind='arr', stride=x.stride)
                else:
                    y = self.to_arr(y, x.stride, rid)
            elif y.kind == 'arr' and x.kind == 'cells':
                if not x.cells:
                    x = x.copy(kind='arr', stride=y.stride)
                else:
                    x = self.to_arr(x, y.stride, rid)
            else:
                raise Unsupported('merge of regions')
        r = x.copy(alive=bite(c, x.alive, y.alive))
        if x.size is not y.size:
            r.size = ite(c, x.size, y.size)
        if x.kind == 'cells':
            cells = {}
            for o in set(x.cells) | set(y.cells):
                a, b = x.cells.get(o), y.cells.get(o)
                if a is b:
                    cells[o] = a
                elif a is None or b is None:
                    z = a or b
                    other = x if a is None else y
                    if any(oo < o + z[0] and o < oo + s[0] for oo, s in other.cells.items()):
                        raise Unsupported("merge of cells")
                    if other.bg == 'zero':
                        u = ZERO
                    else:
                        u = None
                    if u is None:
                        cells[o] = z     # the other side is uninitialised
                    else:
                        cells[o] = (z[0], ite(c, a[1] if a else u, b[1] if b else u)) if not self.lazyv(z) else z
                else:
                    if a[0] != b[0]:
                        continue
                    av = a[1]
                    bv_ = b[1]
                    if type(av) is tuple and av and av[0] == 'lazy':
                        av = self.op(None, av[1], State({}, T))
                    if type(bv_) is tuple and bv_ and bv_[0] == 'lazy':
                        bv_ = self.op(None, bv_[1], State({}, T))
                    cells[o] = (a[0], ite(c, av, bv_))
            r.cells = cells
        else:
            if x.stride is None:
                r.stride = y.stride
            elif y.stride is not None and x.stride != y.stride:
                raise Unsupported('merge of strides')
            slots = {}
            for o in set(x.slots) | set(y.slots):
                a, b = x.slots.get(o), y.slots.get(o)
                sz = (a or b)[0]
                u = lambda z: arr('zero') if z.bg == 'zero' else arr('undef', 0)
                slots[o] = (sz, a_ite(c, a[1] if a else u(x), b[1] if b else u(y)))
            r.slots = slots
            if x.bg != y.bg:
                r.bg = None
        return r

    def lazyv(self, z):
        return type(z[1]) is tuple and z[1] and z[1][0] == 'lazy'

    def to_arr(self, r, stride, rid):
        slots = {}
        for o, (sz, v) in sorted(r.cells.items()):
            v = self.force(v, State({}, T))
            q, sb = divmod(o, stride)
            A = slots.get(sb) or (sz, arr('zero') if r.bg == 'zero' else arr('undef', self.rid_num(rid or 0)))
            slots[sb] = (sz, a_st(A[1], T, num(q), v))
        return r.copy(kind='arr', stride=stride, slots=slots, cells={})

    # ---------------------------------------------------------- control flow
    def run_region(self, fr, loop, entry, st, phivals):
        """loop: the loop dict whose body is run once (None: whole function).
        returns rets [(v, state)], exits [(target, state, phis)], latches [(state, phis)]"""
        fn = fr.fn
        inset = loop['set'] if loop else None
        child = {h: l for h, l in fn.loopof.items() if l['parent'] == (loop['header'] if loop else None) and l is not loop}
        pend = {entry: [(st, phivals)]}
        heap = [(fn.rpo[entry], entry)]
        rets, exits, latches = [], [], []

        def push(tgt, s, ph):
            if loop is not None and tgt == entry:
                latches.append((s, ph))
            elif inset is not None and tgt not in inset:
                exits.append((tgt, s, ph))
            else:
                if tgt not in pend:
                    pend[tgt] = []
                    heapq.heappush(heap, (fn.rpo[tgt], tgt))
                pend[tgt].append((s, ph))

        def phis_for(tgt, pred, s):
            r = {}
            for p in fn.phis[tgt]:
                for b, o in p['in']:
                    if b == pred:
                        r[p['id']] = self.op(fr, o, s)
                        break
            return r

        while heap:
            _, b = heapq.heappop(heap)
            ins = pend.pop(b)
            if len(ins) == 1:
                s, ph = ins[0]
                s = s.copy()
            else:
                s = self.merge_states([x[0] for x in ins])
                s = s.copy()
                ph = {}
                for k in ins[0][1]:
                    ph[k] = self.merge_vals([(x[0].pc, x[1][k]) for x in ins])
            if b in child:
                for tgt, s2, ph2 in self.run_loop(fr, child[b], s, ph):
                    push(tgt, s2, ph2)
                continue
            fr.regs.update(ph)
            r = self.exec_block(fr, b, s)
            if r is None:
                continue
            if r[0] == 'ret':
                rets.append((r[1], r[2]))
                continue
            for tgt, s2 in r[1]:
                push(tgt, s2, phis_for(tgt, b, s2))
        return rets, exits, latches

    # ---------------------------------------------------------- loops
    def run_loop(self, fr, loop, st0, ph0):
        from loops import summarise
        return summarise(self, fr, loop, st0, ph0)

def tsize(t):
    if t == 'ptr' or t == 'double':
        return 8
    if t == 'float':
        return 4
    if t == 'x86_fp80':
        return 16
    if isinstance(t, str) and t[0] == 'i':
        return max(1, int(t[1:]) // 8)
    if isinstance(t, list):
        if t[0] == 's':
            return t[1]
        return t[1] * t[2]
    raise Unsupported('size of ' + str(t))
