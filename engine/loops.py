"""Loop summarisation. A loop body is analysed once with its loop-carried quantities replaced by
placeholders; the recurrences obtained are solved in dependency order (invariant, induction, sum,
product, last value, array fold, in-cell accumulation) and whatever is left becomes one recurrence
system. The trip count is the first iteration at which an exit condition holds. No iteration is
executed and no loop is unrolled."""
from terms import *
import terms as TM
import interp as IP
from interp import AN, Reg, State, UNDEF, a_read, tsize

class Restart(Exception):
    pass

LOST = ap(atom('app', 'lost', ZERO, int_=True))
MAXPASS = 14

class Comp:
    __slots__ = ('key', 'kind', 'size', 'init', 'ph', 'nn', 'ptr', 'val', 'next', 'nm', 'solved', 'virt', 'unit')
    def __init__(self, key, kind, init, nm, size=8, nn=False, ptr=ZERO):
        self.key, self.kind, self.init, self.nm, self.size, self.nn, self.ptr = key, kind, init, nm, size, nn, ptr
        self.val = None
        self.next = None
        self.solved = False
        self.virt = False
        self.unit = 1
        if kind == 'a':
            self.ph = arr('ph', nm)
        elif kind == 'b':
            self.ph = bsym(('ph', nm))
        else:
            self.ph = sym(nm + ('+' if nn else '') + ('i' if kind == 'i' else 'r'), int_=(kind == 'i'), nn=nn)
    def cur(self):
        v = self.val if self.solved else self.ph
        if self.kind in ('i', 'r') and self.ptr is not ZERO:
            return add(self.ptr, scale(v, self.unit))
        return v
    def fvkey(self):
        return self.ph if self.kind == 'a' else self.ph.l if self.kind == 'b' else the_atom(self.ph)

def provable_nn(p, ctx):
    return isinstance(p, Poly) and (nonneg_syn(p) or ctx.prove(p))

def split_ptr(p):
    """pointer part (monomials carrying object addresses) and offset"""
    a, b = {}, {}
    for m, c in p.t.items():
        if any(x.op == 'base' or (x.op == 'ite' and has_base_ite(x)) for x, e in m):
            a[m] = c
        else:
            b[m] = c
    return TM._mk(a), TM._mk(b)

_hb = {}
def has_base_ite(x):
    r = _hb.get(x)
    if r is None:
        r = any(has_base(y) for y in x.a[1:])
        _hb[x] = r
    return r

def has_base(p):
    if not isinstance(p, Poly):
        return False
    for m in p.t:
        for a, e in m:
            if a.op == 'base' or (a.op == 'ite' and has_base_ite(a)):
                return True
    return False

def base_rids(p, acc=None):
    if acc is None:
        acc = set()
    for m in p.t:
        for a, e in m:
            if a.op == 'base':
                acc.add(a.a[0])
            elif a.op == 'ite':
                base_rids(a.a[1], acc)
                base_rids(a.a[2], acc)
    return acc

def rebase(p, mp):
    """replace base(r) by base(mp[r]) throughout a value"""
    if type(p) is tuple:
        return tuple(rebase(x, mp) if isinstance(x, (Poly, tuple)) else x for x in p)
    if not isinstance(p, Poly):
        return p
    if not has_base(p) or not (base_rids(p) & set(mp)):
        return p
    r = ZERO
    for m, c in p.t.items():
        y = num(c)
        for a, e in m:
            if a.op == 'base' and a.a[0] in mp:
                z = ap(atom('base', mp[a.a[0]], a.a[1], nn=True))
            elif a.op == 'ite' and has_base_ite(a):
                z = ite(a.a[0], rebase(a.a[1], mp), rebase(a.a[2], mp))
            else:
                z = ap(a)
            y = mul(y, ppow(z, e))
        r = add(r, y)
    return r

# ------------------------------------------------------------------ the summariser

class Loop:
    def __init__(self, I, fr, loop, st0, ph0):
        self.I, self.fr, self.loop, self.st0, self.ph0 = I, fr, loop, st0.copy(), dict(ph0)
        self.H = loop['header']
        self.depth = I.loopdepth
        self.id = '%d.%s.%d' % (self.depth, fr.fn.name[-24:], self.H)
        self.t = sym('t@%d' % self.depth, int_=True, nn=True)
        self.ta = the_atom(self.t)
        self.rid0 = I.rid
        self.outer = I.loopctx
        self.baseobs = I.obs
        self.baseabn = I.abn
        self.comps = {}          # key -> Comp
        self.owned = {}          # pointer comp key -> dict
        self.nncand = {}         # key -> bool  (optimistic non-negativity)
        self.kindof = {}
        self.ncomp = 0
        self.nounit = set()

    # ---------------------------------------------------------- header state
    def pctx(self):
        return self.I.ctx(self.st0.pc)

    def add_comp(self, key, init, kind=None, size=8, ptr_ok=True):
        ctx = self.pctx()
        AN.ctx = ctx
        self.ncomp += 1
        nm = 'p@%d.%d' % (self.depth, self.ncomp)
        if isinstance(init, B):
            c = Comp(key, 'b', init, nm, size)
        elif isinstance(init, Arr):
            k = TM.elem_kind(init)
            c = Comp(key, 'a', init, ('%s' % nm) + '#' + k, size)
        elif isinstance(init, Poly):
            init = ctx.simpP(init)
            ptr = ZERO
            unit = 1
            if has_base(init):
                ptr, init = split_ptr(init)
                kind = 'i'
                us = set()
                for x in base_rids(ptr):
                    r = self.st0.mem.get(x)
                    if r is not None and r.kind == 'arr' and r.stride is not None:
                        us.add(r.stride)
                    elif r is not None and (r.kind == 'arr' or r.kind == 'cells' and r.heap and not r.cells):
                        # not written yet: the element type it is accessed as
                        us.add(self.I.hints.get(x))
                if len(us) == 1 and None not in us and key not in self.nounit:
                    unit = us.pop()
                    if not all(isinstance(c, int) and c % unit == 0 for c in init.t.values()):
                        unit = 1
                    else:
                        init = scale(init, Fraction(1, unit))
            if kind is None:
                kind = self.kindof.get(key)
            if kind is None:
                kind = 'i' if (all_int(init)) else 'r'
            nn = False
            if kind == 'i':
                nn = self.nncand.get(key)
                if nn is None:
                    nn = init is UNDEF or provable_nn(init, ctx)
                    self.nncand[key] = nn
            c = Comp(key, kind, init, nm, size, bool(nn), ptr)
            c.unit = unit
        else:
            raise Unsupported('loop-carried aggregate')
        self.comps[key] = c
        return c

    def header_state(self, pc=T):
        """memory and phi values at the start of iteration t"""
        mem = dict(self.st0.mem)
        for k, o in self.owned.items():
            for r in o['r0']:
                mem.pop(r, None)
            mem[o['rho']] = o['reg']
        touched = {}
        for key, c in self.comps.items():
            if key[0] == 'phi' or c.virt:
                continue
            rid = key[1]
            if rid not in touched:
                r = mem[rid]
                touched[rid] = r.copy(cells=dict(r.cells), slots=dict(r.slots))
            r = touched[rid]
            if key[0] == 'c':
                r.cells[key[2]] = (c.size, self.val_of(key))
            elif key[0] == 's':
                r.slots[key[2]] = (c.size, c.cur())
            elif key[0] == 'l':
                r.alive = c.cur()
            elif key[0] == 'z':
                r.size = c.cur()
        mem.update(touched)
        ph = {}
        for k, v in self.ph0.items():
            ph[k] = self.val_of(('phi', k)) if ('phi', k) in self.comps else v
        return State(mem, pc, ()), ph

    def val_of(self, key):
        if key in self.owned:
            o = self.owned[key]
            b = ap(atom('base', o['rho'], (), nn=True))
            n = self.comps.get(('n', o['rho']))
            if n is not None:
                return ite(n.cur(), ZERO, b)
            return b
        c = self.comps[key]
        if c.kind == 'dead':
            return LOST
        return c.cur()

    # ---------------------------------------------------------- one pass over the body
    def run(self, facts=(), keep=False):
        I = self.I
        I.discover += not keep
        st, ph = self.header_state()
        save = (I.obs, I.abn, I.loopctx, I.loopdepth)
        I.obs, I.abn = [], []
        I.rid = self.rid0
        hints = dict(I.hints)
        self.hints0 = getattr(self, 'hints0', None) or hints
        I.hints = dict(self.hints0)
        I.loopdepth = self.depth + 1
        I.loopctx = self.outer.child([self.st0.pc] + list(facts))
        try:
            rets, exits, latches = I.run_region(self.fr, self.loop, self.H, st, dict(ph))
            self.obs, self.abn = I.obs, I.abn
            self.lastexits, self.lastabn = exits, I.abn
            if not latches:
                return st, ph, exits, None
            L = I.merge_states([s for s, _ in latches])
            L = L.copy()
            ctx = I.ctx(L.pc)
            AN.ctx = ctx
            lph = {}
            for k in self.ph0:
                v = I.merge_vals([(s.pc, p[k]) for s, p in latches])
                if isinstance(v, Poly):
                    v = ctx.simpP(v)
                elif isinstance(v, B):
                    v = ctx.simp(v)
                lph[k] = v
            self.lctx = ctx
            return st, ph, exits, (L, lph)
        finally:
            I.discover -= not keep
            I.obs, I.abn, I.loopctx, I.loopdepth = save

    # ---------------------------------------------------------- discovery
    def own(self, key, pinit, pnext, latch):
        """the pointer is redirected to an object created by the body"""
        I = self.I
        ctx = self.pctx()
        parts = I.resolve(pinit, self.st0, ctx, None)
        r0 = []
        null = F
        reg = None
        for c, rid, idx, off in parts:
            if rid is None:
                if off is ZERO:
                    null = bor(null, c)
                    continue
                raise Unsupported('loop-carried pointer')
            if off is not ZERO:
                raise Unsupported('loop-carried interior pointer')
            r = self.st0.mem.get(rid)
            if r is None or not r.heap:
                raise Unsupported('loop-carried pointer to a dead object')
            r0.append(rid)
            x = r.copy(alive=T)
            reg = x if reg is None else I.merge_reg(c, x, reg)
        lp = I.resolve(pnext, latch[0], self.lctx, None)
        stride = None
        size = None
        slots = {}
        lnull = F
        for c, rid, idx, off in lp:
            if rid is None and off is ZERO:
                lnull = bor(lnull, c)
                continue
            if rid is None or off is not ZERO:
                raise Unsupported('loop-carried pointer')
            r = latch[0].mem.get(rid)
            if r is None or not r.heap:
                raise Unsupported('loop-carried pointer to a local object')
            stride = stride or r.stride
            size = r.size
            for sb, (sz, A) in r.slots.items():
                slots[sb] = sz
        if reg is None:
            reg = Reg(kind='arr', stride=stride, slots={}, size=size, heap=True, name='allocated storage')
            size0 = ZERO
        else:
            size0 = reg.size
            if reg.kind == 'cells':
                if reg.cells:
                    reg = I.to_arr(reg, stride or 8, 0)
                else:
                    reg = reg.copy(kind='arr', stride=stride)
            if reg.stride is None:
                reg = reg.copy(stride=stride)
        # nobody else may refer to the initial objects
        for rid, r in self.st0.mem.items():
            for o, (sz, v) in r.cells.items():
                if isinstance(v, Poly) and has_base(v) and (base_rids(v) & set(r0)) and ('c', rid, o) != key:
                    if not (('c', rid, o) in self.comps):
                        raise Unsupported('aliased loop-carried object')
        n = len(self.owned)
        while ('o', self.depth, self.H, self.rid0, n) in self.st0.mem:
            n += 1
        rho = ('o', self.depth, self.H, self.rid0, n)
        self.owned[key] = {'r0': r0, 'rho': rho, 'reg': reg.copy(alive=T)}
        self.comps.pop(key, None)
        for k in [k for k in self.comps if k[0] in ('s', 'c', 'l', 'z') and k[1] in r0]:
            del self.comps[k]
        c = Comp(key, 'i', ZERO, 'own')
        c.kind = 'own'
        c.solved = True
        c.val = ZERO
        self.comps[key] = c
        for sb, sz in slots.items():
            if sb not in reg.slots:
                reg.slots = dict(reg.slots)
                reg.slots[sb] = (sz, arr('undef', 0))
        self.owned[key]['reg'] = reg.copy(alive=T)
        for sb, (sz, A) in reg.slots.items():
            self.add_comp(('s', rho, sb), A, size=sz)
        if null is not F or lnull is not F:
            self.add_comp(('n', rho), null)
            self.owned[key]['null'] = True
        self.add_comp(('z', rho), size0, kind='i')

    def normalise_latch(self, latch):
        """express the latch state in terms of the owned objects"""
        I = self.I
        L, lph = latch
        mp = {}
        for key, o in self.owned.items():
            p = lph[key[1]] if key[0] == 'phi' else I.force(L.mem[key[1]].cells[key[2]][1], L)
            p = self.lctx.simpP(p)
            null = F
            reg = None
            rids = []
            for c, rid, idx, off in I.resolve(p, L, self.lctx, None):
                if rid is None and off is ZERO:
                    null = bor(null, c)
                    continue
                if rid is None or off is not ZERO or rid not in L.mem:
                    raise Unsupported('loop-carried pointer')
                r = L.mem[rid]
                if r.kind == 'cells':
                    r = I.to_arr(r, o['reg'].stride or 8, 0) if r.cells else r.copy(kind='arr', stride=o['reg'].stride)
                if r.stride is None:
                    r = r.copy(stride=o['reg'].stride)
                x = r.copy(alive=T)
                reg = x if reg is None else I.merge_reg(c, x, reg)
                rids.append(rid)
            if null is not F and not o.get('null'):
                self.add_comp(('n', o['rho']), F)
                o['null'] = True
                raise Restart()
            o['lnull'] = null
            if reg is None:
                reg = L.mem[o['rho']]
            o['lreg'] = reg
            for r in rids:
                if r in mp and mp[r] != o['rho']:
                    raise Unsupported('aliased loop-carried objects')
                mp[r] = o['rho']
        if not self.owned:
            return latch
        mem = {}
        for rid, r in L.mem.items():
            if rid in mp or any(o['rho'] == rid for o in self.owned.values()):
                continue
            if r.cells and any(isinstance(v, Poly) and has_base(v) and base_rids(v) & set(mp) for sz, v in r.cells.values()):
                r = r.copy(cells={k: (sz, rebase(v, mp) if isinstance(v, Poly) else v) for k, (sz, v) in r.cells.items()})
            mem[rid] = r
        for o in self.owned.values():
            mem[o['rho']] = o['lreg']
        lph = {k: rebase(v, mp) for k, v in lph.items()}
        L2 = State(mem, L.pc, L.trace)
        return L2, lph

    def discover(self):
        """grow the component set until a pass confirms it; returns the last pass"""
        I = self.I
        for k, v in self.ph0.items():
            if ('phi', k) not in self.comps:
                ins = [i for i in self.fr.fn.phis[self.H] if i['id'] == k][0]
                kind = 'r' if ins['t'] in ('double', 'float', 'x86_fp80') else 'i' if isinstance(ins['t'], str) and ins['t'][0] == 'i' else None
                if type(v) is tuple:
                    raise Unsupported('loop-carried aggregate')
                self.add_comp(('phi', k), v, kind)
        for n in range(MAXPASS):
            st, ph, exits, latch = self.run()
            if latch is None:
                return st, ph, exits, None
            try:
                if self.grow(st, ph, latch):
                    continue
            except Restart:
                continue
            return st, ph, exits, self.latch
        raise Unsupported('loop discovery does not converge')

    def grow(self, st, ph, latch):
        I = self.I
        changed = False
        latch = self.normalise_latch(latch)
        L, lph = latch
        AN.ctx = self.lctx
        # pointers
        for key in [k for k in self.comps if k[0] in ('phi', 'c') and k not in self.owned]:
            c = self.comps[key]
            if c.kind not in ('i', 'r'):
                continue
            v = lph[key[1]] if key[0] == 'phi' else I.force(L.mem[key[1]].cells.get(key[2], (0, UNDEF))[1], L)
            if not isinstance(v, Poly):
                raise Unsupported('loop-carried value')
            if c.ptr is ZERO and not has_base(v):
                continue
            d = self.lctx.simpP(sub(v, c.ptr))
            if not has_base(d):
                continue
            rids = base_rids(v)
            rhos = {o['rho'] for o in self.owned.values()}
            fresh_r = {r for r in rids if r not in self.st0.mem and r not in rhos}
            dead = any(r not in L.mem or (L.mem[r].heap and L.mem[r].alive is F) for r in rids)
            heap = all(r in L.mem and L.mem[r].heap for r in rids)
            if dead or c.init is UNDEF or not fresh_r or not heap:
                c.kind = 'dead'
                c.solved = True
                changed = True
                continue
            pinit = self.ph0[key[1]] if key[0] == 'phi' else I.force(self.st0.mem[key[1]].cells[key[2]][1], self.st0)
            self.own(key, pinit, v, latch)
            changed = True
        if changed:
            return True
        # memory
        for rid, l in L.mem.items():
            h = st.mem.get(rid)
            if h is l:
                continue
            if h is None:
                if isinstance(rid, str):
                    # a global touched for the first time
                    I.global_region(rid[1:], self.st0)
                    changed = True
                continue
            if l.kind != h.kind or (l.kind == 'arr' and l.stride != h.stride):
                r0 = self.st0.mem.get(rid)
                if r0 is None:
                    for o in self.owned.values():
                        if o['rho'] == rid:
                            o['reg'] = o['reg'].copy(stride=l.stride)
                            changed = True
                    if not changed:
                        raise Unsupported('region layout')
                    continue
                if r0.kind == 'cells' and l.kind == 'arr':
                    self.st0.mem[rid] = I.to_arr(r0, l.stride, rid) if r0.cells else r0.copy(kind='arr', stride=l.stride)
                    for k in [k for k in self.comps if k[0] == 'c' and k[1] == rid]:
                        del self.comps[k]
                elif r0.kind == 'arr' and r0.stride is None:
                    self.st0.mem[rid] = r0.copy(stride=l.stride)
                else:
                    raise Unsupported('region layout')
                changed = True
                continue
            if l.bg != h.bg:
                raise Unsupported('bulk initialisation inside a loop')
            if l.alive is not h.alive and ('l', rid) not in self.comps:
                if I.ctx(L.pc).simp(biff(l.alive, h.alive)) is not T:
                    self.add_comp(('l', rid), self.base_reg(rid).alive)
                    changed = True
            if l.size is not h.size and ('z', rid) not in self.comps:
                self.add_comp(('z', rid), self.base_reg(rid).size, kind='i')
                changed = True
            if l.kind == 'cells':
                for o, (sz, v) in l.cells.items():
                    key = ('c', rid, o)
                    if key in self.comps:
                        continue
                    hv = h.cells.get(o)
                    if hv is not None and hv[1] is v and hv[0] == sz:
                        continue
                    if hv is not None and hv[0] != sz:
                        raise Unsupported('cell of varying width')
                    init = I.force(hv[1], self.st0) if hv is not None else (ZERO if h.bg == 'zero' else UNDEF)
                    v = I.force(v, L)
                    if isinstance(init, B) or isinstance(v, B):
                        raise Unsupported('boolean cell')
                    if init is v:
                        continue
                    kind = None
                    if init is UNDEF or init is LOST:
                        init = UNDEF
                        if has_base(v):
                            c = self.add_comp(key, UNDEF, 'i', sz)
                            c.kind = 'dead'
                            c.solved = True
                            changed = True
                            continue
                        kind = 'i' if all_int(v) else 'r'
                    elif all_int(init) and not all_int(v):
                        kind = 'r'
                    self.add_comp(key, init, kind, sz)
                    changed = True
            else:
                for sb, (sz, A) in l.slots.items():
                    key = ('s', rid, sb)
                    if key in self.comps:
                        continue
                    hv = h.slots.get(sb)
                    if hv is not None and hv[1] is A:
                        continue
                    init = hv[1] if hv is not None else (arr('zero') if h.bg == 'zero' else arr('undef', I.rid_num(rid)))
                    self.add_comp(key, init, size=sz)
                    changed = True
        # kinds: an integer-looking component that becomes fractional
        for key, c in list(self.comps.items()):
            if c.kind == 'i' and key[0] in ('c', 'phi'):
                v = lph[key[1]] if key[0] == 'phi' else I.force(L.mem[key[1]].cells[key[2]][1], L)
                if isinstance(v, Poly):
                    d = sub(v, c.ptr)
                    if key[0] == 'c' and not all_int(d) and d is not UNDEF:
                        self.kindof[key] = 'r'
                        init = add(scale(c.init, c.unit), c.ptr)
                        del self.comps[key]
                        self.add_comp(key, init, 'r', c.size)
                        changed = True
        if changed:
            return True
        # pointer steps that are not whole elements
        for key, c in list(self.comps.items()):
            if c.kind == 'i' and c.unit != 1 and key not in self.owned:
                v = lph[key[1]] if key[0] == 'phi' else I.force(L.mem[key[1]].cells[key[2]][1], L)
                if isinstance(v, Poly):
                    d = self.lctx.simpP(sub(v, c.ptr))
                    if not has_base(d) and d is not UNDEF and not all(isinstance(x, int) and x % c.unit == 0 for x in d.t.values()):
                        self.nounit.add(key)
                        init = add(scale(c.init, c.unit), c.ptr)
                        del self.comps[key]
                        self.add_comp(key, init, None, c.size)
                        changed = True
        if changed:
            return True
        # record the next values
        for key, c in self.comps.items():
            if c.kind in ('dead', 'own'):
                continue
            if key[0] == 'phi':
                v = lph[key[1]]
            elif key[0] == 'c':
                v = I.force(L.mem[key[1]].cells[key[2]][1], L)
            elif key[0] == 's':
                v = L.mem[key[1]].slots[key[2]][1]
            elif key[0] == 'l':
                v = L.mem[key[1]].alive
            elif key[0] == 'z':
                v = L.mem[key[1]].size
            elif key[0] == 'n':
                v = [o for o in self.owned.values() if o['rho'] == key[1]][0]['lnull']
            if isinstance(v, Poly):
                v = self.lctx.simpP(sub(v, c.ptr))
                if c.unit != 1 and v is not UNDEF and not has_base(v):
                    v = scale(v, Fraction(1, c.unit))
                if v is not UNDEF and c.kind == 'r' and isinstance(v, Poly) and has_base(v):
                    raise Unsupported('address in a value component')
            elif isinstance(v, B):
                v = self.lctx.simp(v)
            c.next = v
        self.latch = latch
        return False

    def base_reg(self, rid):
        r = self.st0.mem.get(rid)
        if r is None:
            for o in self.owned.values():
                if o['rho'] == rid:
                    return o['reg']
        return r

    # ---------------------------------------------------------- recurrences
    def live(self):
        return [c for c in self.comps.values() if c.kind in ('i', 'r', 'b', 'a') and not c.solved]

    def solve_all(self, scalars_only=False):
        """solve what can be solved from the current next values"""
        progress = False
        again = True
        while again:
            again = False
            un = self.live()
            keys = {c.fvkey(): c for c in un}
            for c in un:
                others = [k for k, d in keys.items() if d is not c and d in un and not d.solved]
                if any(k in c.next.fv for k in others):
                    continue
                v = self.solve1(c)
                if v is not None:
                    self.accept(c, v)
                    again = progress = True
                    self.propagate()
        return progress

    def accept(self, c, v):
        c.val = v
        c.solved = True

    def propagate(self):
        """substitute solved placeholders in the remaining next values"""
        I = self.I
        m = {}
        for c in self.comps.values():
            if c.kind in ('i', 'r', 'b', 'a') and c.solved:
                m[c.fvkey()] = c.val
        # values may themselves mention nothing unsolved by construction
        AN.ctx = self.sctx()
        for c in self.live():
            c.next = subst(c.next, m)
            if isinstance(c.next, Poly):
                c.next = AN.ctx.simpP(c.next)

    def sctx(self):
        """facts available inside an iteration that continues"""
        m = {}
        for c in self.comps.values():
            if c.kind in ('i', 'r', 'b', 'a') and c.solved:
                m[c.fvkey()] = c.val
        base = self.outer.child([self.st0.pc])
        pc = self.latch[0].pc
        AN.ctx = base
        if m:
            pc = subst(pc, m)
        return base.child([pc])

    def solve1(self, c):
        t = self.t
        g = c.next
        ph = c.ph
        k = c.fvkey()
        if g is ph:
            return c.init
        if c.kind == 'b':
            return self.solve_bool(c, g)
        if c.kind == 'a':
            return self.solve_array(c, g)
        if k not in g.fv:
            return self.last_value(c, g)
        a = c.init
        h = sub(g, ph)
        if k not in h.fv:
            if a is UNDEF:
                return None
            if self.ta not in h.fv:
                return add(a, mul(h, t))
            u = self.fresh_u()
            return add(a, msum(u, t, subst(h, {self.ta: u})))
        # g = q * ph
        q = ZERO
        for m, co in g.t.items():
            e = [x for x in m if x[0] is k]
            if not e or e[0][1] != 1:
                q = None
                break
            q = add(q, TM._mk({tuple(x for x in m if x[0] is not k): co}))
        if q is not None and k not in q.fv and a is not UNDEF:
            if self.ta not in q.fv:
                return mul(a, mpow(q, t))
            u = self.fresh_u()
            return mul(a, mprod(u, t, subst(q, {self.ta: u})))
        return None

    def fresh_u(self):
        return sym('u@%d' % self.depth, int_=True, nn=True)

    def last_value(self, c, g):
        t = self.t
        if self.ta not in g.fv:
            if c.init is g:
                return g
            if c.init is UNDEF:
                return ite(eq0(t), c.init, g)
            return ite(eq0(t), c.init, g)
        AN.ctx = self.pctx()
        try:
            g0 = subst(g, {self.ta: num(-1)}, raw=True) if c.init is not UNDEF else None
        except Unsupported:
            g0 = None
        AN.ctx = self.outer.child([self.st0.pc, ge0(sub(t, ONE))])
        g1 = subst(g, {self.ta: sub(t, ONE)})
        if g0 is c.init and poly_only(g):
            return g1
        return ite(eq0(t), c.init, g1)

    def solve_bool(self, c, g):
        t = self.t
        l = c.ph.l
        if l not in g.fv:
            AN.ctx = self.outer.child([self.st0.pc, ge0(sub(t, ONE))])
            g1 = subst(g, {self.ta: sub(t, ONE)})
            return bite(eq0(t), c.init, g1)
        hi = cofactor(g, l, True) if g.l is not None else g
        lo = cofactor(g, l, False)
        hi, lo = bcof(g, l, True), bcof(g, l, False)
        u = self.fresh_u()
        if l in hi.fv or l in lo.fv:
            return None
        if hi is T:
            return bor(c.init, mexists(u, t, subst(lo, {self.ta: u})))
        if lo is F:
            return band(c.init, bnot(mexists(u, t, subst(bnot(hi), {self.ta: u}))))
        return None

    # ---------------------------------------------------------- arrays
    def solve_array(self, c, g):
        ph = c.ph
        t = self.t
        if ph not in g.fv:
            AN.ctx = self.outer.child([self.st0.pc, ge0(sub(t, ONE))])
            g1 = subst(g, {self.ta: sub(t, ONE)})
            return a_ite(eq0(t), c.init, g1)
        ctx = self.sctx()
        AN.ctx = ctx
        if spine_ok(g, ph) and pure_spine(g, ph):
            return self.mkfold(c.init, g, ph)
        # B: all stores at iteration-independent places
        v = self.invariant_stores(c, g, ctx)
        if v is not None:
            return v
        # C: reads of places not written by earlier iterations
        try:
            opq = opaque_spine(g, ph)
        except NotHandled:
            return None
        u = self.fresh_u()
        W0 = arr('in', 'W0#d')
        ph2 = arr('ph', 'w@%d#d' % self.depth)
        W = a_fold(W0, u, t, ph2, subst(opq, {self.ta: u, ph: ph2}, raw=True))
        init = c.init
        def f(idx, cx):
            old = AN.ctx
            AN.ctx = cx
            try:
                r = a_read(W, idx)
                if r is rd_raw(W0, idx):
                    return a_read(init, idx)
            finally:
                AN.ctx = old
            raise NotHandled()
        try:
            g2 = rw_arr(g, ph, f, ctx)
        except NotHandled:
            return None
        AN.ctx = ctx
        if spine_ok(g2, ph) and pure_spine(g2, ph):
            return self.mkfold(c.init, g2, ph)
        return None

    def mkfold(self, init, g, ph):
        u = self.fresh_u()
        ph2 = arr('ph', 'f@%d#d' % self.depth)
        AN.ctx = self.sctx()
        b = subst(g, {self.ta: u, ph: ph2}, raw=True)
        return a_fold(init, u, self.t, ph2, b)

    def invariant_stores(self, c, g, ctx):
        idxs = []
        A = g
        while A is not c.ph:
            if A.op != 'st':
                return None
            base, gd, i, v = A.a
            if self.ta in i.fv or c.ph in i.fv:
                return None
            for j in idxs:
                if j is i:
                    break
                if ctx.dec(eq0(sub(i, j))) is not False:
                    return None
            else:
                idxs.append(i)
            A = base
        un = self.live()
        if any(d is not c and not d.solved and any(d.fvkey() in x.fv for x in idxs) for d in un):
            return None
        if any(self.keys_unsolved(i) for i in idxs):
            return None
        idxs.reverse()
        scal = []
        for i in idxs:
            self.ncomp += 1
            nm = 'v@%d.%d' % (self.depth, self.ncomp)
            AN.ctx = self.pctx()
            init = a_read(c.init, i)
            k = TM.elem_kind(c.init)
            s = Comp(('v', c.key, i), 'i' if k in 'iul' or (k == '?' and False) else 'r', init, nm, nn=False)
            s.virt = True
            scal.append(s)
        def f(idx, cx):
            for i, s in zip(idxs, scal):
                if i is idx:
                    return s.ph
                d = cx.dec(eq0(sub(i, idx)))
                if d is True:
                    return s.ph
                if d is None:
                    raise NotHandled()
            old = AN.ctx
            AN.ctx = cx
            try:
                return a_read(c.init, idx)
            finally:
                AN.ctx = old
        try:
            for i, s in zip(idxs, scal):
                AN.ctx = ctx
                q = a_read(g, i)
                s.next = rw(q, c.ph, f, ctx)
        except NotHandled:
            return None
        # solve the scalars jointly
        pend = list(scal)
        again = True
        m = {}
        while again and pend:
            again = False
            for s in list(pend):
                if any(o is not s and o.fvkey() in s.next.fv for o in pend):
                    continue
                v = self.solve1(s)
                if v is None:
                    continue
                s.val = v
                s.solved = True
                pend.remove(s)
                again = True
                for o in pend:
                    o.next = subst(o.next, {s.fvkey(): v})
        if pend:
            self.rec_solve(pend)
        R = c.init
        for i, s in zip(idxs, scal):
            R = a_st(R, T, i, s.val)
        return R

    def keys_unsolved(self, x):
        return [c for c in self.live() if c.fvkey() in x.fv]

    # ---------------------------------------------------------- recurrence systems
    def rec_solve(self, cs):
        kinds = []
        for c in cs:
            k = c.kind
            if k == 'i' and c.nn:
                k = 'n'
            kinds.append(k)
        s = mk_sys(kinds, [c.init for c in cs], [c.next for c in cs], self.t, [c.ph for c in cs])
        for j, c in enumerate(cs):
            c.val = rec_val(s, j, self.t)
            c.solved = True
        self.I.stats['recurrences'] = self.I.stats.get('recurrences', 0) + 1

    def solve_sccs(self):
        """turn one strongly connected set of unsolved components into a recurrence system"""
        un = self.live()
        dep = {c: [d for d in un if d.fvkey() in c.next.fv] for c in un}
        # transitive closure (few components)
        reach = {}
        for c in un:
            seen = set()
            todo = [c]
            while todo:
                x = todo.pop()
                for d in dep[x]:
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
            reach[c] = seen
        for c in un:
            scc = [d for d in un if d is c or (d in reach[c] and c in reach[d])]
            if all(d in scc for x in scc for d in dep[x]):
                if not self.joint_arrays(scc):
                    self.rec_solve(scc)
                self.propagate()
                return True
        raise Unsupported('recurrence structure')

    def joint_arrays(self, cs):
        """arrays updated together, each iteration reading only places which no earlier one wrote"""
        if any(c.kind != 'a' for c in cs):
            return False
        ctx = self.sctx()
        AN.ctx = ctx
        phs = [c.ph for c in cs]
        W0 = arr('in', 'W0#d')
        try:
            Ws = []
            for c in cs:
                opq = opaque_spine(blind(c.next, [p for p in phs if p is not c.ph]), c.ph)
                u = self.fresh_u()
                ph2 = arr('ph', 'w@%d#d' % self.depth)
                Ws.append(a_fold(W0, u, self.t, ph2, subst(opq, {self.ta: u, c.ph: ph2}, raw=True)))
            new = []
            for c in cs:
                g = c.next
                for d, W in zip(cs, Ws):
                    def f(idx, cx, d=d, W=W):
                        old = AN.ctx
                        AN.ctx = cx
                        try:
                            r = a_read(W, idx)
                            if r is rd_raw(W0, idx):
                                return a_read(d.init, idx)
                        finally:
                            AN.ctx = old
                        raise NotHandled()
                    g = rw_arr(g, d.ph, f, ctx)
                AN.ctx = ctx
                if any(p in g.fv for p in phs if p is not c.ph) or not (spine_ok(g, c.ph) and pure_spine(g, c.ph)):
                    return False
                new.append(g)
        except NotHandled:
            return False
        for c, g in zip(cs, new):
            c.val = self.mkfold(c.init, g, c.ph)
            c.solved = True
        return True

    # ---------------------------------------------------------- trip count
    def trip(self, E, ctx, depth=0):
        r = self.trip1(E, ctx)
        if r is not None or depth > 3:
            return r
        # a bound chosen by a condition that does not change in the loop
        for l in blits(E):
            if self.ta in l.fv or self.keys_unsolved_b(l):
                continue
            hi, lo = TM.cofactor(E, l, True), TM.cofactor(E, l, False)
            c = blit(l)
            x = self.trip(hi, ctx.child([c]), depth + 1)
            if x is None:
                return None
            y = self.trip(lo, ctx.child([bnot(c)]), depth + 1)
            if y is None:
                return None
            return ctx.simpP(ite(c, x[0], y[0])), bite(c, x[1], y[1])
        return None

    def keys_unsolved_b(self, l):
        for c in self.live():
            if c.fvkey() in l.fv:
                return True
        return False

    def trip1(self, E, ctx):
        """E(t): condition under which iteration t leaves the loop.
        returns (N, lit or None, m): t < N bound with its literal, m the other exits"""
        t, ta = self.t, self.ta
        best = None
        for l in blits(E):
            if ta not in l.fv:
                continue
            for s in (True, False):
                if l.op == 'ge':
                    p = l.a[0] if s else sub(neg(l.a[0]), ONE)       # p >= 0 exits
                    k, r = IP.coef_of(p, ta)
                    if k is None or ta in r.fv:
                        continue
                    if not ctx.prove(sub(k, ONE)):
                        continue
                elif l.op == 'eq' and s and all_int(l.a[0]):
                    k, r = IP.coef_of(l.a[0], ta)
                    if k is None:
                        continue
                    if TM.cval(k) == -1 and is_const(k):
                        k, r = neg(k), neg(r)
                    if k is not ONE:
                        continue
                    if not ctx.prove(neg(r)):
                        continue
                else:
                    continue
                lit = blit(l) if s else bnot(blit(l))
                if band(lit, bnot(E)) is not F:
                    continue
                # least t with k t + r >= 0:  ceil(-r/k)
                if k is ONE:
                    N = neg(r)
                else:
                    N = idiv(add(neg(r), sub(k, ONE)), k, ctx.dec) if ctx.prove(neg(r)) else None
                    if N is None:
                        continue
                if not ctx.prove(N):
                    N = ite(ge0(N), N, ZERO)
                    N = ctx.simpP(N)
                if self.keys_unsolved(N):
                    continue
                if best is None:
                    best = (N, lit)
                else:
                    d = ctx.dec(ge0(sub(best[0], N)))
                    if d is True:
                        best = (N, lit)
        return best

    # ---------------------------------------------------------- main
    def go(self):
        I = self.I
        nnround = 0
        while True:
            st, ph, exits, latch = self.discover()
            if latch is None:
                return self.no_latch(st, ph, exits)
            self.solve_all()
            rounds = 0
            while self.live():
                # analyse the body again with what is known, then retry
                rounds += 1
                if rounds <= 2 and any(c.solved and c.kind in 'irba' for c in self.comps.values()):
                    st, ph, exits, latch = self.rerun()
                    if latch is None:
                        return self.no_latch(st, ph, exits)
                    if self.solve_all():
                        continue
                if self.live():
                    self.solve_sccs()
                    self.solve_all()
            bad = self.check_nn()
            if not bad:
                break
            nnround += 1
            if nnround > 4:
                raise Unsupported('sign of a loop variable')
            for k in bad:
                self.nncand[k] = False
            self.reset()
        return self.finish()

    def reset(self):
        self.comps = {}
        self.owned = {}
        self.ncomp = 0

    def rerun(self):
        for n in range(MAXPASS):
            st, ph, exits, latch = self.run()
            if latch is None:
                return st, ph, exits, None
            try:
                if self.grow(st, ph, latch):
                    continue
            except Restart:
                continue
            return st, ph, exits, self.latch
        raise Unsupported('loop discovery does not converge')

    def check_nn(self):
        bad = []
        base = self.outer.child([self.st0.pc])
        # facts on t
        E = self.exit_cond_now(base)
        tb = self.trip(E, base) if E is not None else None
        cx = base
        if tb is not None:
            cx = base.child([ge0(sub(tb[0], self.t))])
        AN.ctx = cx
        for key, c in self.comps.items():
            if c.kind == 'i' and c.nn and c.init is not UNDEF:
                v = c.val
                a = the_atom(v) if len(v.t) == 1 and len(list(v.t)[0]) == 1 else None
                if a is not None and a.op == 'rec':
                    if not provable_nn(c.next, self.lctx) and not ite_nn(c.next, self.lctx):
                        bad.append(key)
                elif not (nonneg_syn(v) or ite_nn(v, cx)):
                    bad.append(key)
        return bad

    def solved_map(self):
        m = {}
        for c in self.comps.values():
            if c.kind in ('i', 'r', 'b', 'a') and c.solved:
                m[c.fvkey()] = c.val
        return m

    def exit_cond_now(self, base):
        AN.ctx = base
        E = F
        for tgt, s, p in self.lastexits:
            E = bor(E, s.pc)
        for o in self.lastabn:
            E = bor(E, o.state.pc)
        m = self.solved_map()
        return subst(E, m)

    def no_latch(self, st, ph, exits):
        """the body never comes back: the loop runs at most once"""
        I = self.I
        I.rid += 0
        save = I.loopctx
        st, ph = self.st0.copy(), dict(self.ph0)
        r = I.run_region(self.fr, self.loop, self.H, st, ph)
        return r[1]

    def finish(self):
        I = self.I
        t, ta = self.t, self.ta
        base = self.outer.child([self.st0.pc])
        E = self.exit_cond_now(base)
        tb = self.trip(E, base)
        facts = []
        if tb is not None:
            facts.append(ge0(sub(tb[0], t)))
        st, ph, exits, latch = self.run(facts, True)
        self.ltrace = latch[0].trace if latch is not None else ()
        E = F
        for tgt, s, p in exits:
            E = bor(E, s.pc)
        for o in self.abn:
            E = bor(E, o.state.pc)
        cx = base.child(facts)
        AN.ctx = base
        N = lit = None
        if tb is not None:
            tb2 = self.trip(E, base)
            if tb2 is not None:
                N, lit = tb2
        if N is None and tb is not None:
            N, lit = tb
        if lit is not None:
            mm = band(E, bnot(lit))
            m = constrain(E, bnot(lit)) if mm is not F else F
            if m is not F and m.n > mm.n:
                m = mm
            AN.ctx = cx
            m = cx.child([ge0(sub(sub(N, ONE), t))]).simp(m) if m is not F else F
        else:
            m = E
        u = self.fresh_u()
        AN.ctx = base
        if m is F:
            if N is None:
                raise Unsupported('loop without exit')
            Tr = N
            found = F
        else:
            Tr = mfirst(u, N, subst(m, {ta: u}))
            found = mexists(u, N, subst(m, {ta: u})) if N is not None else T
        out = []
        self.N, self.T, self.found = N, Tr, found
        # obligations and abnormal outcomes
        binder = (t, Tr)
        for ob in self.obs:
            ob.pc = band(self.st0.pc, ob.pc) if ta not in ob.pc.fv or True else ob.pc
            ob.binders = (binder,) + ob.binders
            self.baseobs.append(ob)
        for o in self.abn:
            for v in self.at_exit(o.state, {}, E, lit, found, N, Tr):
                from interp import Outcome
                q = Outcome(o.kind, v[0], self.sub_info(o.info, v[2], v[0].pc), o.loc, o.stack)
                q.caught = o.caught
                self.baseabn.append(q)
        for tgt, s, p in exits:
            for s2, p2, _ in self.at_exit(s, p, E, lit, found, N, Tr):
                out.append((tgt, s2, p2))
        if N is not None:
            I.hard |= N.fv
        I.loops_seen[(self.fr.fn.dem, self.H)] = I.loops_seen.get((self.fr.fn.dem, self.H), 0) + 1
        return out

    def sub_info(self, info, te, pc):
        return info

    def at_exit(self, s, p, E, lit, found, N, Tr):
        """state s left the loop at iteration t under s.pc; yields it at the actual exit iteration"""
        I = self.I
        ta = self.ta
        pieces = []
        c = s.pc
        if lit is None:
            pieces.append((c, Tr, T))
            if band(E, bnot(c)) is F:
                pieces[-1] = (T, Tr, T)
        elif found is F:
            pieces.append((c, N, T))
        else:
            early = band(c, bnot(lit))
            late = band(c, lit)
            if early is not F and constrain(c, bnot(lit)) is not F:
                pieces.append((constrain(early, bnot(lit)), Tr, found))
            if late is not F:
                pieces.append((c, N, bnot(found)))
        for cond, te, guard in pieces:
            g = band(self.st0.pc, guard)
            cx = self.outer.child([g])
            AN.ctx = cx
            k = cx.simp(subst(cond, {ta: te}))
            if te is Tr and lit is not None and guard is found and self.only_early(cond, E, lit):
                k = T
            pc = band(g, k)
            if pc is F:
                continue
            cx = self.outer.child([pc])
            AN.ctx = cx
            s2 = self.sub_state(s, {ta: te}, pc, cx)
            p2 = {}
            for kk, v in p.items():
                p2[kk] = self.sub_val(v, {ta: te}, cx)
            yield s2, p2, te

    def only_early(self, cond, E, lit):
        """this exit is the only one below the bound"""
        rest = band(band(E, bnot(lit)), bnot(cond))
        return rest is F

    def sub_val(self, v, m, cx):
        if isinstance(v, Poly):
            return cx.simpP(subst(v, m))
        if isinstance(v, B):
            return cx.simp(subst(v, m))
        if type(v) is tuple:
            if v and v[0] == 'agg':
                return ('agg', tuple(self.sub_val(x, m, cx) for x in v[1]))
            return v
        return v

    def sub_state(self, s, m, pc, cx):
        mem = {}
        memo = {}
        ta = self.ta
        for rid, r in s.mem.items():
            r2 = None
            if r.kind == 'cells':
                for o, (sz, v) in r.cells.items():
                    if isinstance(v, Poly) and ta in v.fv:
                        if r2 is None:
                            r2 = r.copy(cells=dict(r.cells))
                        r2.cells[o] = (sz, cx.simpP(subst(v, m)))
            else:
                for sb, (sz, A) in r.slots.items():
                    if ta in A.fv:
                        if r2 is None:
                            r2 = r.copy(slots=dict(r.slots))
                        r2.slots[sb] = (sz, subst(A, m))
            if ta in r.alive.fv:
                r2 = r2 or r.copy()
                r2.alive = cx.simp(subst(r.alive, m))
            if r.size is not None and ta in r.size.fv:
                r2 = r2 or r.copy()
                r2.size = cx.simpP(subst(r.size, m))
            mem[rid] = r2 or r
        tr = self.st0.trace
        if self.ltrace:
            tr = tr + (('rep', ta, m[ta], self.ltrace),)
        if s.trace:
            tr = tr + self.I.models.sub_trace(s.trace, m, cx)
        return State(mem, pc, tr)

def ite_nn(p, cx):
    if nonneg_syn(p) or cx.prove(p):
        return True
    a = find_ite(p)
    if a is None:
        return False
    x, y = split_ite(p, a)
    return ite_nn(x, cx.child([a.a[0]])) and ite_nn(y, cx.child([bnot(a.a[0])]))

def poly_only(g):
    """only sums and products of symbols: meaningful at t = -1 as well"""
    for m in g.t:
        for a, e in m:
            if a.op not in ('sym', 'bv') or e < 0:
                return False
    return True

def bcof(b, l, s):
    memo = {}
    def go(x):
        if x.l is None or x.l.id > l.id:
            return x
        r = memo.get(x)
        if r is None:
            r = (x.hi if s else x.lo) if x.l is l else TM._bn(x.l, go(x.hi), go(x.lo))
            memo[x] = r
        return r
    return go(b)

# ------------------------------------------------------------------ array bodies

class NotHandled(Exception):
    pass

def spine_ok(A, ph):
    while True:
        if A is ph:
            return True
        if A.op == 'st':
            A = A.a[0]
        elif A.op == 'ite':
            return spine_ok(A.a[1], ph) and spine_ok(A.a[2], ph)
        elif A.op == 'fold':
            A = A.a[0]
        else:
            return False

def pure_spine(A, ph):
    """nothing but the spine mentions the placeholder"""
    while A is not ph:
        if A.op == 'st':
            if ph in A.a[1].fv or ph in A.a[2].fv or ph in A.a[3].fv:
                return False
            A = A.a[0]
        elif A.op == 'ite':
            return ph not in A.a[0].fv and pure_spine(A.a[1], ph) and pure_spine(A.a[2], ph)
        elif A.op == 'fold':
            base, n, b, d = A.a
            if ph in n.fv or ph in b.fv:
                return False
            own = arr('abv', d)
            if not (spine_ok(b, own) and pure_spine(b, own)):
                return False
            A = base
        else:
            return False
    return True

_opq = [0]
def opaque_spine(A, ph):
    if A is ph:
        return A
    if A.op == 'st':
        if ph in A.a[2].fv:
            raise NotHandled()
        base = opaque_spine(A.a[0], ph)
        g = T if ph in A.a[1].fv else A.a[1]
        _opq[0] += 1
        return arr('st', base, g, A.a[2], sym('opq', int_=False))
    if A.op == 'fold':
        base, n, b, d = A.a
        if ph in n.fv:
            raise NotHandled()
        own = arr('abv', d)
        if ph in b.fv:
            # the inner body may read the outer placeholder inside stored values
            b2 = opaque_spine2(b, own, ph)
        else:
            b2 = opaque_spine2(b, own, ph)
        return arr('fold', opaque_spine(base, ph), n, b2, d)
    if A.op == 'ite':
        x = opaque_spine(A.a[1], ph)
        y = opaque_spine(A.a[2], ph)
        if ph in A.a[0].fv:
            if x is ph:
                return y
            if y is ph:
                return x
            raise NotHandled()
        return a_ite(A.a[0], x, y)
    raise NotHandled()

def blind(A, phs):
    """hides stored values and guards that depend on the placeholders phs"""
    if not any(p in A.fv for p in phs):
        return A
    if A.op == 'st':
        if any(p in A.a[2].fv for p in phs):
            raise NotHandled()
        g = T if any(p in A.a[1].fv for p in phs) else A.a[1]
        v = A.a[3]
        if any(p in v.fv for p in phs):
            v = sym('opq', int_=False)
        return arr('st', blind(A.a[0], phs), g, A.a[2], v)
    if A.op == 'fold':
        base, n, b, d = A.a
        if any(p in n.fv for p in phs):
            raise NotHandled()
        return arr('fold', blind(base, phs), n, blind(b, phs), d)
    if A.op == 'ite':
        if any(p in A.a[0].fv for p in phs):
            raise NotHandled()
        return a_ite(A.a[0], blind(A.a[1], phs), blind(A.a[2], phs))
    raise NotHandled()

def opaque_spine2(A, own, ph):
    if A is own:
        return A
    if A.op == 'st':
        if own in A.a[2].fv or ph in A.a[2].fv:
            raise NotHandled()
        g = T if (own in A.a[1].fv or ph in A.a[1].fv) else A.a[1]
        return arr('st', opaque_spine2(A.a[0], own, ph), g, A.a[2], sym('opq', int_=False))
    if A.op == 'fold':
        base, n, b, d = A.a
        if own in n.fv or ph in n.fv:
            raise NotHandled()
        return arr('fold', opaque_spine2(base, own, ph), n, opaque_spine2(b, arr('abv', d), own) if ph not in b.fv else opaque_spine3(b, arr('abv', d), (own, ph)), d)
    if A.op == 'ite':
        if own in A.a[0].fv or ph in A.a[0].fv:
            raise NotHandled()
        return a_ite(A.a[0], opaque_spine2(A.a[1], own, ph), opaque_spine2(A.a[2], own, ph))
    raise NotHandled()

def opaque_spine3(A, own, phs):
    raise NotHandled()

def rw_arr(A, ph, f, cx):
    """rewrite the reads of ph inside guards and values along the spine"""
    if A is ph or ph not in A.fv:
        return A
    if A.op == 'st':
        base, g, i, v = A.a
        g2 = rw(g, ph, f, cx)
        v2 = rw(v, ph, f, cx.child([g]))
        return a_st(rw_arr(base, ph, f, cx), g2, rw(i, ph, f, cx), v2)
    if A.op == 'ite':
        return a_ite(rw(A.a[0], ph, f, cx), rw_arr(A.a[1], ph, f, cx.child([A.a[0]])), rw_arr(A.a[2], ph, f, cx.child([bnot(A.a[0])])))
    if A.op == 'fold':
        base, n, b, d = A.a
        n2 = rw(n, ph, f, cx)
        b2 = b
        if ph in b.fv:
            base_, n_, u, ph2, body = open_fold(A)
            own = ph2
            if not (spine_ok(body, own) and self_free(body, own)):
                raise NotHandled()
            body2 = rw_in_body(body, own, ph, f, cx.child([ge0(sub(sub(n2, ONE), u))]))
            return a_fold(rw_arr(base, ph, f, cx), u, n2, own, body2)
        return arr('fold', rw_arr(base, ph, f, cx), n2, b, d)
    raise NotHandled()

def self_free(A, own):
    return pure_spine(A, own)

def rw_in_body(A, own, ph, f, cx):
    if A is own or ph not in A.fv:
        return A
    if A.op == 'st':
        base, g, i, v = A.a
        return a_st(rw_in_body(base, own, ph, f, cx), rw(g, ph, f, cx), rw(i, ph, f, cx), rw(v, ph, f, cx.child([g])))
    if A.op == 'ite':
        return a_ite(rw(A.a[0], ph, f, cx), rw_in_body(A.a[1], own, ph, f, cx.child([A.a[0]])), rw_in_body(A.a[2], own, ph, f, cx.child([bnot(A.a[0])])))
    if A.op == 'fold':
        base_, n_, u, ph2, body = open_fold(A)
        n2 = rw(n_, ph, f, cx)
        return a_fold(rw_in_body(base_, own, ph, f, cx), u, n2, ph2, rw_in_body(body, ph2, ph, f, cx.child([ge0(sub(sub(n2, ONE), u))])))
    raise NotHandled()

def rw(x, ph, f, cx):
    """rewrite reads of ph in a term, f(index, context) giving the replacement"""
    if ph not in x.fv:
        return x
    if type(x) is Poly:
        r = ZERO
        for m, c in x.t.items():
            y = num(c)
            for a, e in m:
                v = rw_atom(a, ph, f, cx)
                y = mul(y, ppow(v, e) if e > 0 else ppow(inv(v), -e))
            r = add(r, y)
        return r
    if type(x) is B:
        return bite(rw_lit(x.l, ph, f, cx), rw(x.hi, ph, f, cx), rw(x.lo, ph, f, cx))
    raise NotHandled()

def rw_lit(l, ph, f, cx):
    if ph not in l.fv:
        return blit(l)
    if l.op == 'ge':
        return ge0(rw(l.a[0], ph, f, cx))
    if l.op == 'gt':
        return gt0(rw(l.a[0], ph, f, cx))
    if l.op == 'eq':
        p = l.a[0]
        return eq0(rw(p, ph, f, cx), not all_int(p))
    if l.op == 'ex':
        n, b, d = l.a
        u = fresh()
        n2 = rw(n, ph, f, cx) if n is not None else None
        c2 = cx.child([ge0(sub(sub(n2, ONE), u))]) if n2 is not None else cx
        b2 = rw(subst(b, {the_atom(bv(d)): u}, raw=True), ph, f, c2)
        return mexists(u, n2, b2)
    raise NotHandled()

def rw_atom(a, ph, f, cx):
    if ph not in a.fv:
        return ap(a)
    op = a.op
    if op == 'rd':
        A, i = a.a
        if A is ph:
            return f(rw(i, ph, f, cx), cx)
        if ph not in A.fv:
            return rd(A, rw(i, ph, f, cx))
        raise NotHandled()
    if op == 'ite':
        c = rw(a.a[0], ph, f, cx)
        return ite(c, rw(a.a[1], ph, f, cx.child([a.a[0]])), rw(a.a[2], ph, f, cx.child([bnot(a.a[0])])))
    if op in ('sum', 'prod'):
        n, b, d = a.a
        u = fresh()
        n2 = rw(n, ph, f, cx)
        b2 = rw(subst(b, {the_atom(bv(d)): u}, raw=True), ph, f, cx.child([ge0(sub(sub(n2, ONE), u))]))
        return (msum if op == 'sum' else mprod)(u, n2, b2)
    if op == 'abs':
        return absr(rw(a.a[0], ph, f, cx))
    if op == 'inv':
        return inv(rw(a.a[0], ph, f, cx))
    if op == 'app':
        return app(a.a[0], *[rw(y, ph, f, cx) for y in a.a[1:]], int_=a.int)
    if op == 'idiv':
        return idiv(rw(a.a[0], ph, f, cx), rw(a.a[1], ph, f, cx), cx.dec)
    if op == 'sdiv':
        return sdiv(rw(a.a[0], ph, f, cx), rw(a.a[1], ph, f, cx))
    if op == 'pow':
        return mpow(rw(a.a[0], ph, f, cx), rw(a.a[1], ph, f, cx))
    raise NotHandled()

UNROLL = 17

def header_decided(I, fr, loop, st, ph):
    """the test at the head of the loop does not depend on anything unknown"""
    fn = fr.fn
    sv = (I.obs, I.abn, I.rid, I.stack[:], dict(fr.regs), I.steps)
    I.obs, I.abn = [], []
    I.discover += 1
    try:
        s = st.copy()
        fr.regs.update(ph)
        b = loop['header']
        for _ in range(12):
            if b not in loop['set'] or fn.phis[b] and b != loop['header']:
                return False
            if b in fn.loopof and b != loop['header']:
                return False
            ins = fn.blocks[b][-1]
            if ins['op'] not in ('br', 'invoke'):
                return False
            r = I.exec_block(fr, b, s)
            if r is None or r[0] != 'edges':
                return False
            if ins['op'] == 'br' and len(ins['succ']) == 2:
                if not any(x not in loop['set'] for x in ins['succ']):
                    return False
                c = I.op(fr, ins['cond'], s)
                if not isinstance(c, B):
                    return False
                if c is not T and c is not F and I.fixed:
                    m = {a: x for a, x in I.fixed.items() if a in c.fv}
                    if m:
                        c = subst(c, m)
                return c is T or c is F
            if len(r[1]) != 1:
                return False
            b, s = r[1][0]
        return False
    except (Unsupported, KeyError):
        return False
    finally:
        I.obs, I.abn, I.rid, _, regs, I.steps = sv
        I.discover -= 1
        fr.regs.clear()
        fr.regs.update(regs)

def unroll(I, fr, loop, st0, ph0):
    """a loop whose number of iterations is a small constant is a sequence: its body is analysed once
    per iteration. None: not such a loop"""
    key = (fr.fn.name, loop['header'])
    if I.nounroll.get(key, 0) >= 2:
        return None
    st, ph = st0.copy(), dict(ph0)
    no, na, rid, steps, hints = len(I.obs), len(I.abn), I.rid, I.steps, dict(I.hints)
    nob = list(I.obs), list(I.abn)
    nex = [(f.main, len(f.main.extra)) for f in I.stack]
    out = []
    for k in range(UNROLL + 1):
        if not header_decided(I, fr, loop, st, ph):
            break
        rets, exits, latches = I.run_region(fr, loop, loop['header'], st.copy(), dict(ph))
        out.extend(exits)
        if not latches:
            return out
        st = I.merge_states([s for s, _ in latches]).copy()
        nph = {}
        for i in ph:
            nph[i] = I.merge_vals([(s.pc, p[i]) for s, p in latches])
        ph = nph
    I.nounroll[key] = I.nounroll.get(key, 0) + 1
    I.obs[:], I.abn[:] = nob
    for f, n in nex:
        del f.extra[n:]
    I.rid, I.hints = rid, hints
    return None

def summarise(I, fr, loop, st0, ph0):
    r = unroll(I, fr, loop, st0, ph0)
    if r is not None:
        return r
    d = I.loopdepth
    if d > 9:
        raise Unsupported('loop nesting')
    L = Loop(I, fr, loop, st0, ph0)
    old = (I.obs, I.abn, I.loopctx, I.loopdepth)
    try:
        return L.go()
    finally:
        I.obs, I.abn, I.loopctx, I.loopdepth = old
