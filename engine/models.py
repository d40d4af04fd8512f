"""Meaning of the driver vocabulary, of the run-time library entry points and of the virtual
interface of matrices known only through MatrixBase."""
import re
from terms import *
import terms as TM
import interp as IP
from interp import AN, Reg, State, UNDEF, Outcome, Ob, a_read

KIND = {ord('d'): ('d', 8, 8), ord('f'): ('f', 4, 4), ord('i'): ('i', 4, 4), ord('u'): ('u', 4, 4), ord('l'): ('l', 8, 8),
        ord('U'): ('u', 8, 8), ord('b'): ('b', 1, 1), ord('z'): ('d', 16, 8), ord('c'): ('f', 8, 4)}

MATH1 = {'sqrt', 'exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh',
         'floor', 'ceil', 'round', 'trunc_', 'cbrt', 'expm1', 'log1p', 'exp2', 'rint', 'nearbyint'}

EXC = re.compile(r'^std::(__throw_\w+)\(')

def sq(p):
    return mul(p, p)

class Models:
    def __init__(self, mod, colmajor=False):
        self.m = mod
        self.colmajor = colmajor
        self.cache = {}
        self.slots = {}          # vtable slot -> method name
        self.read_vtables()
        self.throwspec = []      # (tag, pc, cond, iff)
        self.keeps = []
        self.notes = []
        self.asserts_ok = False
        self.guards = []
        self.typeids = {}
        self.unknown = set()
        self.fdiv = None         # what divisions of floating point numbers by zero would break
        self.warm = False        # a run that only makes the history
        self.pins = None         # sizes fixed in this run
        self.assumed = []
        self.sizes = []          # names of the sizes

    # -------------------------------------------------------------- vtables
    def read_vtables(self):
        for name, g in self.m.globals.items():
            if name.startswith('_ZTVN4malg6Matrix') and 'init' in g:
                arrs = g['init'][2] if g['init'][0] == 'agg' else []
                if not arrs or arrs[0][0] != 'agg':
                    continue
                for k, e in enumerate(arrs[0][2]):
                    if k < 2 or e[0] != 'g':
                        continue
                    f = self.m.fns.get(e[1])
                    if f is None or e[1] == '__cxa_pure_virtual':
                        continue
                    d = f.dem
                    c = d.endswith(' const')
                    b = re.sub(r'\([^()]*\)( const)?$', '', d)
                    meth = b.split('::')[-1]
                    if 'operator()' in d:
                        meth = 'operator()'
                    elif 'operator[]' in d:
                        meth = 'operator[]'
                    elif meth.startswith('~'):
                        meth = '~'
                    self.slots.setdefault(k - 2, set()).add(meth)

    def virtual(self, I, st, vs, args, ins):
        slot, name = vs.a
        ms = self.slots.get(slot, set())
        if len(ms) != 1:
            raise Unsupported('virtual call slot %d %r' % (slot, sorted(ms)))
        m = next(iter(ms))
        info = I.virt[name]
        R, C = info['rows'], info['cols']
        if m == 'rows':
            return R, st
        if m == 'cols':
            return C, st
        if m == 'size':
            return mul(R, C), st
        if m == 'empty':
            return bor(eq0(R), eq0(C)), st
        if m in ('at', 'operator()'):
            r, c = args[1], args[2]
            I.oblige('bounds', st, band(ge0(r), ge0(sub(sub(R, ONE), r))), ins, 'row %r of a matrix with %r rows' % (r, R))
            I.oblige('bounds', st, band(ge0(c), ge0(sub(sub(C, ONE), c))), ins, 'column %r of a matrix with %r columns' % (c, C))
            idx = add(mul(c, R), r) if self.colmajor else add(mul(r, C), c)
            return add(I.baseptr(info['data']), scale(idx, info['es'])), st
        if m == 'operator[]':
            i = args[1]
            I.oblige('bounds', st, band(ge0(i), ge0(sub(sub(mul(R, C), ONE), i))), ins, 'linear position %r of a matrix of %r elements' % (i, mul(R, C)))
            return add(I.baseptr(info['data']), scale(i, info['es'])), st
        if m == 'data':
            return I.baseptr(info['raw']), st
        if m == '~':
            return None, st
        raise Unsupported('virtual ' + m)

    def fam_load(self, I, st, r, idx, off, size):
        raise Unsupported('family')

    # -------------------------------------------------------------- traces
    def merge_trace(self, conds, traces):
        t0 = traces[0]
        if all(t == t0 for t in traces):
            return t0
        # longest common prefix, then a choice
        n = 0
        while all(len(t) > n and t[n] == t0[n] for t in traces):
            n += 1
        res = traces[-1][n:]
        for c, t in zip(reversed(conds), reversed(traces[:-1])):
            a = t[n:]
            if a == res:
                continue
            res = (('if', c, a, res),)
        return t0[:n] + res

    def sub_trace(self, tr, m, cx):
        out = []
        for e in tr:
            if e[0] == 'if':
                c = cx.simp(subst(e[1], m))
                a, b = self.sub_trace(e[2], m, cx), self.sub_trace(e[3], m, cx)
                if c is T:
                    out.extend(a)
                elif c is F:
                    out.extend(b)
                else:
                    out.append(('if', c, a, b))
            elif e[0] == 'rep':
                out.append(('rep', e[1], subst(e[2], m), self.sub_trace(e[3], m, cx)))
            else:
                out.append(tuple(subst(x, m) if isinstance(x, (Poly, B)) else x for x in e))
        return tuple(out)

    # -------------------------------------------------------------- helpers
    def cstr(self, I, st, p):
        bs = [a for m in p.t for a, e in m if a.op == 'base']
        if len(bs) != 1 or not isinstance(bs[0].a[0], str):
            return '?'
        g = self.m.globals.get(bs[0].a[0][1:])
        if g is None or 'init' not in g:
            return '?'
        c = g['init']
        if c[0] == 'z':
            return ''
        if c[0] != 'agg':
            return '?'
        off = int(cval(sub(p, ap(bs[0]))))
        return ''.join(chr(int(e[2]) & 255) for e in c[2][off:] if int(e[2]))

    def nstr(self, I, st, p):
        """the name of an input"""
        s = self.cstr(I, st, p)
        return 'earlier ' + s if self.warm else s

    def lookup(self, name, f):
        r = self.cache.get(name, 0)
        if r == 0:
            r = self._lookup(name, f)
            self.cache[name] = r
        return r

    def _lookup(self, name, f):
        h = getattr(self, 'f_' + name.replace('.', '_'), None)
        if h is not None:
            return h
        dem = f.dem if f is not None else name
        if name.startswith('llvm.'):
            b = name.split('.')[1]
            h = getattr(self, 'l_' + b, None)
            if h is None and name.startswith('llvm.dbg'):
                h = self.noop
            return h
        m = EXC.match(dem)
        if m:
            return self.throw_std
        if f is not None and not f.decl:
            return self.special(name, f)
        if name in MATH1 or (name[-1] in 'fl' and name[:-1] in MATH1):
            return self.math1
        # exception objects
        if re.match(r'^std::\w+(_error|_argument|_alloc|_range|exception|_length|_length)::', dem):
            return self.noop
        if dem.startswith('std::') and ('basic_string' in dem or 'to_string' in dem or 'allocator<char>' in dem):
            return self.opaque_string
        if 'operator<<' in dem or 'ostream' in dem or 'basic_ios' in dem or 'std::ios_base' in dem or 'std::setw' in dem or 'basic_stringstream' in dem or 'istream' in dem or 'ifstream' in dem or 'ofstream' in dem or 'basic_filebuf' in dem or 'std::locale' in dem or 'stringbuf' in dem:
            return self.stream
        return None

    STREAMY = re.compile(r'^(std::(basic_)?ostream|std::basic_ostream|std::operator<<|std::setw|std::setprecision|std::basic_string|std::__cxx11::basic_string|std::__cxx11::to_string|std::ios_base|std::fixed|std::left|std::right|std::endl)')

    def special(self, name, f):
        dem = f.dem
        if name.startswith('_ZStls') or name.startswith('_ZNSo') or '::basic_ostream' in dem.split('(')[0]:
            return self.stream
        if re.match(r'^std::ostream& std::|^std::basic_ostream<char', dem) and 'malg' not in dem.split('(')[0]:
            return self.stream
        if name.startswith('_ZSt5fixed') or name.startswith('_ZSt4left') or name.startswith('_ZSt5right') or name.startswith('_ZSt10scientific'):
            return self.stream
        if dem.startswith('std::__cxx11::basic_string') or dem.startswith('std::__cxx11::to_string') or 'std::operator+<char' in dem or re.match(r'^std::__cxx11::basic_string<.*> std::operator\+', dem):
            return self.opaque_string
        if '::__detail::__to_chars' in dem or dem.startswith('unsigned int std::__detail::'):
            return self.opaque_string
        return self.stdvec(name, f)

    def stdvec(self, name, f):
        return None

    # -------------------------------------------------------------- outcomes
    def abnormal(self, I, st, kind, info, ins):
        o = Outcome(kind, st, info, I.where(ins), I.callchain())
        I.abn.append(o)
        if kind in ('throw', 'rethrow'):
            I.unwind(st, info, ins, o)
        return None, None

    # what std::__throw_x throws, and the bases of the standard exceptions
    THROWN = {'__throw_length_error': 'length_error', '__throw_logic_error': 'logic_error', '__throw_out_of_range': 'out_of_range',
              '__throw_out_of_range_fmt': 'out_of_range', '__throw_bad_alloc': 'bad_alloc', '__throw_bad_array_new_length': 'bad_array_new_length',
              '__throw_invalid_argument': 'invalid_argument', '__throw_runtime_error': 'runtime_error', '__throw_bad_cast': 'bad_cast'}
    BASES = {'length_error': 'logic_error', 'out_of_range': 'logic_error', 'invalid_argument': 'logic_error', 'domain_error': 'logic_error',
             'logic_error': 'exception', 'runtime_error': 'exception', 'range_error': 'runtime_error', 'overflow_error': 'runtime_error',
             'underflow_error': 'runtime_error', 'bad_alloc': 'exception', 'bad_array_new_length': 'bad_alloc', 'bad_cast': 'exception'}

    def matches(self, info, clauses):
        """the number of the clause that catches the exception; None: no clause does"""
        m = re.search(r'__throw_\w+', str(info))
        if m:
            t = self.THROWN.get(m.group(0))
        else:
            m = re.match(r'_ZTISt\d+(\w+)$', str(info))
            t = m.group(1) if m else None
        names = []
        while t:
            names.append('_ZTISt%d%s' % (len(t), t))
            t = self.BASES.get(t)
        if not m:
            names = [str(info)]
        for c in clauses:
            if c[0] == 'n':
                return self.typeid('...')
            if c[0] == 'filter':
                raise Unsupported('exception filter')
            if c[0] == 'g' and c[1] in names:
                return self.typeid(c[1])
            if not names:
                raise Unsupported('exception of unknown type')
        return None

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def f_llvm_eh_typeid_for(self, I, st, args, ins, name):
        for m in args[0].t:
            for a, e in m:
                if a.op == 'base' and isinstance(a.a[0], str):
                    return num(self.typeid(a.a[0][1:])), st
        raise Unsupported('typeid')

    f_llvm_eh_typeid_for_p0 = f_llvm_eh_typeid_for

    def f___cxa_begin_catch(self, I, st, args, ins, name):
        return args[0], st

    def throw_std(self, I, st, args, ins, name):
        f = self.m.fns.get(name)
        return self.abnormal(I, st, 'throw', f.dem, ins)

    def f___cxa_throw(self, I, st, args, ins, name):
        ti = '?'
        for m in args[1].t:
            for a, e in m:
                if a.op == 'base' and isinstance(a.a[0], str):
                    ti = a.a[0][1:]
        return self.abnormal(I, st, 'throw', ti, ins)

    def f___cxa_rethrow(self, I, st, args, ins, name):
        for fr in reversed(I.stack):
            if fr.exc is not None:
                return self.abnormal(I, st, 'rethrow', fr.exc[0], ins)
        raise Unsupported('rethrow')

    def f__Unwind_Resume(self, I, st, args, ins, name):
        return None, None

    def f___cxa_allocate_exception(self, I, st, args, ins, name):
        r = I.new_region(st, size=args[0], name='exception')
        return I.baseptr(r), st

    def noop(self, I, st, args, ins, name):
        t = ins.get('t')
        return (self.zero(t) if t else None), st

    def zero(self, t):
        if t == 'ptr':
            return ZERO
        if t == 'i1':
            return F
        return ZERO

    f___cxa_free_exception = noop
    f___cxa_atexit = noop
    f___cxa_thread_atexit = noop
    f___cxa_end_catch = noop
    f__ZNSt8ios_base4InitC1Ev = noop
    f__ZNSt8ios_base4InitD1Ev = noop

    def f___assert_fail(self, I, st, args, ins, name):
        return self.abnormal(I, st, 'assert', self.cstr(I, st, args[0]), ins)

    def f_exit(self, I, st, args, ins, name):
        return self.abnormal(I, st, 'exit', '', ins)
    f__Exit = f_exit
    f__exit = f_exit
    f_quick_exit = f_exit

    def f_abort(self, I, st, args, ins, name):
        return self.abnormal(I, st, 'abort', '', ins)

    def f__ZSt9terminatev(self, I, st, args, ins, name):
        return self.abnormal(I, st, 'terminate', '', ins)
    f___clang_call_terminate = f__ZSt9terminatev

    def l_threadlocal(self, I, st, args, ins, name):
        # one thread is looked at
        return args[0], st

    # function-local statics: initialised on the first use
    def f___cxa_guard_acquire(self, I, st, args, ins, name):
        return ONE, st

    def f___cxa_guard_release(self, I, st, args, ins, name):
        if not I.loopdepth:
            I.store(st, args[0], 1, ONE, ins)
        return None, st

    def f___cxa_guard_abort(self, I, st, args, ins, name):
        return None, st

    # -------------------------------------------------------------- memory
    def alloc(self, I, st, n, ins, what):
        I.hard |= n.fv
        r = I.new_region(st, size=n, heap=True, kind='cells', name='allocated storage')
        p = I.baseptr(r)
        return r, p

    def f_malloc(self, I, st, args, ins, name):
        n = AN_simp(I, st, args[0])
        r, p = self.alloc(I, st, n, ins, 'malloc')
        if I.alloc_fail:
            I.nfail += 1
            ok = bsym('alloc%d' % I.nfail)
            st.mem[r].alive = ok
            return ite(ok, p, ZERO), st
        return p, st

    def f_calloc(self, I, st, args, ins, name):
        n = AN_simp(I, st, mul(args[0], args[1]))
        r, p = self.alloc(I, st, n, ins, 'calloc')
        st.mem[r].bg = 'zero'
        return p, st

    def f__Znwm(self, I, st, args, ins, name):
        if I.alloc_fail:
            I.nfail += 1
            ok = bsym('alloc%d' % I.nfail)
            bad = band(st.pc, bnot(ok))
            self.abnormal(I, st.copy(bad), 'throw', '_ZTISt9bad_alloc', ins)
            st.pc = band(st.pc, ok)
        r, p = self.alloc(I, st, AN_simp(I, st, args[0]), ins, 'new')
        return p, st
    f__Znam = f__Znwm

    def f_realloc(self, I, st, args, ins, name):
        ctx = I.ctx(st.pc)
        AN.ctx = ctx
        n = ctx.simpP(args[1])
        parts = I.resolve(args[0], st, ctx, ins)
        r, p = self.alloc(I, st, n, ins, 'realloc')
        ok = T
        if I.alloc_fail:
            I.nfail += 1
            ok = bsym('alloc%d' % I.nfail)
        new = st.mem[r].copy(alive=ok)
        res = None
        for c, rid, idx, off in parts:
            c = ctx.simp(c)
            if c is F:
                continue
            if rid is None:
                x = new
            else:
                old = st.mem.get(rid)
                if old is None or not old.heap or off is not ZERO:
                    I.oblige('free', st, bnot(c), ins, 'realloc of a pointer not obtained from malloc')
                    continue
                if old.alive is not T:
                    I.oblige('uaf', st, bor(bnot(c), old.alive), ins, 'realloc of released memory')
                keep = old.slots
                x = new.copy(kind=old.kind, stride=old.stride, slots=dict(old.slots), cells=dict(old.cells))
                if old.size is not None:
                    # what lies beyond the common part is not initialised
                    d = ctx.dec(ge0(sub(old.size, n)))
                    if d is not True and old.kind == 'arr':
                        pass
                st.mem[rid] = old.copy(alive=band(old.alive, bnot(band(c, ok))))
            res = x if res is None else I.merge_reg(c, x, res)
        if res is None:
            res = new
        st.mem[r] = res.copy(alive=ok, size=n, heap=True, name='allocated storage')
        if ok is T:
            return p, st
        return ite(ok, p, ZERO), st

    def f_free(self, I, st, args, ins, name):
        ctx = I.ctx(st.pc)
        AN.ctx = ctx
        for c, rid, idx, off in I.resolve(args[0], st, ctx, ins):
            c = ctx.simp(c)
            if c is F:
                continue
            if rid is None:
                if off is not ZERO:
                    if off is UNDEF:
                        I.oblige('free', st, bnot(c), ins, 'release of an uninitialised pointer')
                    else:
                        raise Unsupported('free of unknown pointer')
                continue
            r = st.mem.get(rid)
            if r is None or not r.heap or off is not ZERO:
                I.oblige('free', st, bnot(c), ins, 'release of a pointer not obtained from the allocator')
                continue
            I.oblige('uaf', st, bor(bnot(c), r.alive), ins, 'memory released twice')
            st.mem[rid] = r.copy(alive=band(r.alive, bnot(c)))
        return None, st
    f__ZdlPv = f_free
    f__ZdlPvm = f_free
    f__ZdaPv = f_free

    def l_memcpy(self, I, st, args, ins, name):
        I.memcpy(st, args[0], args[1], AN_simp(I, st, args[2]), ins)
        return (args[0] if ins.get('t') else None), st
    l_memmove = l_memcpy
    f_memcpy = l_memcpy
    f_memmove = l_memcpy

    def l_memset(self, I, st, args, ins, name):
        I.memset(st, args[0], args[1], AN_simp(I, st, args[2]), ins)
        return (args[0] if ins.get('t') else None), st
    f_memset = l_memset

    def l_lifetime(self, I, st, args, ins, name):
        return None, st
    l_assume = l_lifetime
    l_stackrestore = l_lifetime
    l_experimental = l_lifetime

    def l_trap(self, I, st, args, ins, name):
        return self.abnormal(I, st, 'trap', '', ins)

    def l_umul(self, I, st, args, ins, name):
        a, b = args
        return ('agg', (mul(a, b), F)), st
    def l_uadd(self, I, st, args, ins, name):
        a, b = args
        return ('agg', (add(a, b), F)), st

    def l_expect(self, I, st, args, ins, name):
        return args[0], st

    # -------------------------------------------------------------- arithmetic
    def l_fmuladd(self, I, st, args, ins, name):
        return add(mul(args[0], args[1]), args[2]), st
    l_fma = l_fmuladd

    def l_fabs(self, I, st, args, ins, name):
        return absr(args[0]), st
    def f_fabs(self, I, st, args, ins, name):
        return absr(args[0]), st
    f_fabsf = f_fabs
    f_fabsl = f_fabs

    def l_abs(self, I, st, args, ins, name):
        return absr(args[0]), st
    def f_abs(self, I, st, args, ins, name):
        return absr(args[0]), st
    f_labs = f_abs

    def l_sqrt(self, I, st, args, ins, name):
        return app('sqrt', args[0]), st

    def math1(self, I, st, args, ins, name):
        n = name
        if n not in MATH1:
            n = n[:-1]
        return app(n, args[0]), st

    def l_floor(self, I, st, args, ins, name):
        return app('floor', args[0]), st
    def l_ceil(self, I, st, args, ins, name):
        return app('ceil', args[0]), st
    def l_exp(self, I, st, args, ins, name):
        return app('exp', args[0]), st
    def l_log(self, I, st, args, ins, name):
        return app('log', args[0]), st

    def f_pow(self, I, st, args, ins, name):
        x, y = args
        if is_const(y) and cval(y) == int(cval(y)) and 0 <= cval(y) <= 8:
            return ppow(x, int(cval(y))), st
        return app('fpow', x, y), st
    f_powf = f_pow
    def l_pow(self, I, st, args, ins, name):
        return self.f_pow(I, st, args, ins, name)

    def l_powi(self, I, st, args, ins, name):
        return self.f_pow(I, st, args, ins, name)

    def f_hypot(self, I, st, args, ins, name):
        return app('sqrt', add(sq(args[0]), sq(args[1]))), st
    f_cabs = f_hypot
    f_hypotf = f_hypot

    def f_cabsf(self, I, st, args, ins, name):
        raise Unsupported('packed complex float')

    def l_copysign(self, I, st, args, ins, name):
        return app('copysign', args[0], args[1]), st
    f_copysign = l_copysign
    f_copysignf = l_copysign

    def f_atan2(self, I, st, args, ins, name):
        return app('atan2', args[0], args[1]), st
    def f_fmod(self, I, st, args, ins, name):
        return app('fmod', args[0], args[1]), st
    def f_carg(self, I, st, args, ins, name):
        return app('atan2', args[1], args[0]), st

    def f_fmax(self, I, st, args, ins, name):
        return ite(gt0(sub(args[1], args[0])), args[1], args[0]), st
    l_maxnum = f_fmax
    def f_fmin(self, I, st, args, ins, name):
        return ite(gt0(sub(args[0], args[1])), args[1], args[0]), st
    l_minnum = f_fmin

    def minmax(self, I, st, args, ins, name):
        a, b = args
        lt = I.compare({'op': 'icmp', 'p': 'slt' if 's' in name[5:6] else 'ult'}, a, b, I.ctx(st.pc))
        mx = 'max' in name
        return (ite(lt, b, a) if mx else ite(lt, a, b)), st
    l_smax = l_smin = l_umax = l_umin = minmax

    def l_is(self, I, st, args, ins, name):
        # llvm.is.fpclass: no NaN, no infinity
        return F, st

    def f_sincos(self, I, st, args, ins, name):
        raise Unsupported('sincos')

    # complex numbers
    def cplx(self, ins, re, im):
        return ('agg', (re, im))

    def f___muldc3(self, I, st, args, ins, name):
        a, b, c, d = args
        return self.cplx(ins, sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))), st

    def f___divdc3(self, I, st, args, ins, name):
        a, b, c, d = args
        if self.fdiv is not None:
            I.oblige('fdiv0', st, bnot(band(eq0(c, True), eq0(d, True))), ins, self.fdiv)
        k = inv(add(sq(c), sq(d)))
        return self.cplx(ins, mul(add(mul(a, c), mul(b, d)), k), mul(sub(mul(b, c), mul(a, d)), k)), st

    f___divsc3 = f___divdc3
    f___mulsc3 = f___muldc3

    def f_cexp(self, I, st, args, ins, name):
        e = app('exp', args[0])
        return self.cplx(ins, mul(e, app('cos', args[1])), mul(e, app('sin', args[1]))), st

    def cfun(self, I, st, args, ins, name):
        return self.cplx(ins, app(name + '_re', *args), app(name + '_im', *args)), st

    def f_csqrt(self, I, st, args, ins, name):
        if all(isinstance(x, Poly) and is_const(x) for x in args):
            # of a Gaussian rational whose root is one
            a, b = (Fraction(cval(x)) for x in args)
            m = app('sqrt', num(a * a + b * b))
            if is_const(m):
                m = Fraction(cval(m))
                re, im = app('sqrt', num((m + a) / 2)), app('sqrt', num((m - a) / 2))
                if is_const(re) and is_const(im):
                    return self.cplx(ins, re, neg(im) if b < 0 else im), st
        return self.cfun(I, st, args, ins, name)
    f_clog = f_csin = f_ccos = f_cpow = f_ctanh = f_csinh = f_ccosh = f_ctan = cfun

    # -------------------------------------------------------------- strings and streams
    def opaque_string(self, I, st, args, ins, name):
        t = ins.get('t')
        if t == 'ptr' and args:
            return args[0], st
        return (self.zero(t) if t else None), st

    def stream(self, I, st, args, ins, name):
        f = self.m.fns.get(name)
        t = ins.get('t')
        short = f.dem.split('(')[0] if f else name
        ev = ['out', name]
        for a in args:
            if isinstance(a, (Poly, B)):
                s = None
                if isinstance(a, Poly) and any(x.op == 'base' and isinstance(x.a[0], str) and x.a[0].startswith('@.str') for m in a.t for x, e in m):
                    s = self.cstr(I, st, a)
                    ev.append('"%s"' % s)
                else:
                    ev.append(a)
        st.trace = st.trace + (tuple(ev),)
        if t == 'ptr' and args:
            return args[0], st
        return (self.zero(t) if t else None), st

    # -------------------------------------------------------------- driver vocabulary
    def f_vf_n(self, I, st, args, ins, name):
        return self.size(self.nstr(I, st, args[0])), st

    def size(self, n):
        if n not in self.sizes:
            self.sizes.append(n)
        if self.pins is not None and n in self.pins:
            return num(self.pins[n])
        return sym(n, int_=True, nn=True)

    def f_vf_r(self, I, st, args, ins, name):
        return sym(self.nstr(I, st, args[0]) + '#d', int_=False), st

    def f_vf_rf(self, I, st, args, ins, name):
        return sym(self.nstr(I, st, args[0]) + '#f', int_=False), st

    def f_vf_i(self, I, st, args, ins, name):
        return sym(self.nstr(I, st, args[0]) + '#i', int_=True), st

    def f_vf_store(self, I, st, args, ins, name):
        self.nstore = getattr(self, 'nstore', 0) + 1
        rid = 'store:%d' % self.nstore
        if I.loopdepth:
            raise Unsupported('storage made in a loop')
        st.mem[rid] = Reg(cells={}, size=None, name='record', bg='zero')
        return I.baseptr(rid), st

    def f_vf_unsupported(self, I, st, args, ins, name):
        raise Unsupported('outside of the model')

    def f_vf_c(self, I, st, args, ins, name):
        return sym(self.nstr(I, st, args[0]) + '#i', int_=True), st

    def f_vf_b(self, I, st, args, ins, name):
        return bsym(self.nstr(I, st, args[0])), st

    def f_vf_absmat(self, I, st, args, ins, name):
        n = self.nstr(I, st, args[0])
        k, es, cs = KIND[int(cval(args[1]))]
        vt = 'vt:' + n
        st.mem[vt] = Reg(cells={8 * s: (8, ap(atom('vslot', s, n, nn=True))) for s in range(0, 20)}, size=num(160), name='virtual table')
        ob = 'obj:' + n
        st.mem[ob] = Reg(cells={0: (8, I.baseptr(vt))}, size=num(24), name='matrix ' + n)
        dt = 'dat:' + n
        raw = 'raw:' + n
        def reg(nm):
            if es == cs:
                sl = {0: (cs, a_in(nm + '#' + k))}
            else:
                sl = {0: (cs, a_in(nm + '.re#' + k)), cs: (cs, a_in(nm + '.im#' + k))}
            return Reg(kind='arr', stride=es, slots=sl, size=None, name='elements of ' + n)
        st.mem[dt] = reg(n)
        st.mem[raw] = reg(n + '.raw')
        I.virt[n] = {'rows': self.size(n + '.rows'), 'cols': self.size(n + '.cols'), 'data': dt, 'raw': raw, 'es': es}
        return I.baseptr(ob), st

    def f_vf_fill(self, I, st, args, ins, name):
        n = self.nstr(I, st, args[1])
        k, es, cs = KIND[int(cval(args[2]))]
        ctx = I.ctx(st.pc)
        AN.ctx = ctx
        for c, rid, idx, off in I.resolve(args[0], st, ctx, ins):
            if rid is None:
                continue
            if off is not ZERO:
                raise Unsupported('fill of part of an object')
            r = st.mem[rid]
            if es == cs:
                sl = {0: (cs, a_in(n + '#' + k))}
            else:
                sl = {0: (cs, a_in(n + '.re#' + k)), cs: (cs, a_in(n + '.im#' + k))}
            st.mem[rid] = r.copy(kind='arr', stride=es, slots=sl, cells={}, bg=None)
        return None, st

    def vin(k):
        def f(self, I, st, args, ins, name):
            v = a_read(a_in(self.nstr(I, st, args[0]) + '#' + k), args[1])
            if k == 'b':
                return bnot(eq0(v)), st
            return v, st
        return f
    f_vf_in_d = vin('d')
    f_vf_in_f = vin('f')
    f_vf_in_i = vin('i')
    f_vf_in_u = vin('u')
    f_vf_in_b = vin('b')

    def f_vf_assume(self, I, st, args, ins, name):
        c = args[0]
        if I.loopdepth == 0:
            self.assumed.append(c)
        pc = band(st.pc, I.ctx(st.pc).simp(c))
        if pc is F:
            return None, None
        st.pc = pc
        if I.loopdepth == 0:
            for l, s in TM.essential(c):
                if l.op == 'eq' and s and len(l.a[0].t) <= 2:
                    p = l.a[0]
                    k = [(m[0][0], x) for m, x in p.t.items() if len(m) == 1 and m[0][1] == 1]
                    if len(k) == 1 and k[0][0].int and all(len(m) == 0 or m[0][0] is k[0][0] for m in p.t):
                        v = scale(sub(p, scale(ap(k[0][0]), k[0][1])), Fraction(-1) / k[0][1])
                        I.fixed[k[0][0]] = v
                        for info in I.virt.values():
                            info['rows'] = subst(info['rows'], {k[0][0]: v})
                            info['cols'] = subst(info['cols'], {k[0][0]: v})
        return None, st

    def ob(self, I, st, tag, cond, ins, pair):
        o = Ob('eq', st.pc, cond, I.where(ins), I.callchain(), tag, pair)
        I.obs.append(o)

    def veq(real):
        def f(self, I, st, args, ins, name):
            tag = self.nstr(I, st, args[0])
            a, b = args[1], args[2]
            ctx = I.ctx(st.pc)
            AN.ctx = ctx
            if isinstance(a, B) or isinstance(b, B):
                self.ob(I, st, tag, ctx.simp(biff(a, b)), ins, (a, b))
                return None, st
            d = ctx.simpP(sub(a, b))
            if d is not ZERO:
                d = resubst(d, ctx)
            self.ob(I, st, tag, T if d is ZERO else ctx.simp(eq0(d, real)), ins, (a, b))
            return None, st
        return f
    f_vf_eq_d = veq(True)
    f_vf_eq_f = veq(True)
    f_vf_eq_n = veq(False)
    f_vf_eq_i = veq(False)
    f_vf_eq_b = veq(False)

    def f_vf_eq_p(self, I, st, args, ins, name):
        tag = self.nstr(I, st, args[0])
        self.ob(I, st, tag, I.ctx(st.pc).simp(eq0(sub(args[1], args[2]))), ins, None)
        return None, st

    def f_vf_true(self, I, st, args, ins, name):
        tag = self.nstr(I, st, args[0])
        self.ob(I, st, tag, I.ctx(st.pc).simp(args[1]), ins, None)
        return None, st

    def f_vf_throws_iff(self, I, st, args, ins, name):
        self.throwspec.append((self.nstr(I, st, args[0]), st.pc, args[1], True, len(I.abn), I.where(ins)))
        return None, st

    def f_vf_throws_only_if(self, I, st, args, ins, name):
        self.throwspec.append((self.nstr(I, st, args[0]), st.pc, args[1], False, len(I.abn), I.where(ins)))
        return None, st

    def f_vf_alloc_may_fail(self, I, st, args, ins, name):
        I.alloc_fail = True
        return None, st

    def f_vf_keeps(self, I, st, args, ins, name):
        self.keeps.append((self.nstr(I, st, args[0]), args[1], self.nstr(I, st, args[2]), len(I.abn)))
        return None, st

    def vinz(part):
        def f(self, I, st, args, ins, name):
            return a_read(a_in(self.nstr(I, st, args[0]) + '.' + part + '#d'), args[1]), st
        return f
    f_vf_in_re = vinz('re')
    f_vf_in_im = vinz('im')

    def f_vf_f1(self, I, st, args, ins, name):
        return app('user_f1', args[0]), st

    def f_vf_f2(self, I, st, args, ins, name):
        return app('user_f2', args[0], args[1]), st

    def f_vf_opaque_det(self, I, st, args, ins, name):
        I.opaque_det = True
        return None, st

    def f_vf_det_entry(self, I, st, args, ins, name):
        return app('user_dete', args[0], args[1], args[2]), st

    def f_vf_det(self, I, st, args, ins, name):
        return app('user_det', args[0], args[1]), st

    def f_vf_i1(self, I, st, args, ins, name):
        return app('user_i1', args[0], int_=True), st

    def f_vf_len(self, I, st, args, ins, name):
        return app('user_len', args[0], args[1], args[2], int_=True), st

    def f_vf_may_assert(self, I, st, args, ins, name):
        self.asserts_ok = True
        return None, st

    def f_vf_keeps_m(self, I, st, args, ins, name):
        n = self.nstr(I, st, args[1])
        self.keeps.append((self.nstr(I, st, args[0]), I.baseptr('dat:' + n), n, len(I.abn)))
        return None, st

    def f_vf_guard_object(self, I, st, args, ins, name):
        ctx = I.ctx(st.pc)
        AN.ctx = ctx
        for c, rid, idx, off in I.resolve(args[1], st, ctx, ins):
            r = st.mem[rid]
            if r.kind != 'cells' or off is not ZERO:
                raise Unsupported('guard of part of an object')
            self.guards.append((self.nstr(I, st, args[0]), c, rid, dict(r.cells), len(I.abn)))
        return None, st

    def f_vf_no_zero_division(self, I, st, args, ins, name):
        self.fdiv = self.nstr(I, st, args[0])
        return None, st

    def f_vf_note(self, I, st, args, ins, name):
        self.notes.append(self.nstr(I, st, args[0]))
        return None, st

def AN_simp(I, st, p):
    ctx = I.ctx(st.pc)
    AN.ctx = ctx
    return ctx.simpP(p)

def resubst(d, ctx):
    """rebuild a term so that its reads are resolved under the current facts"""
    if not d.fv:
        return d
    k = next(iter(d.fv))
    if isinstance(k, TM.Atom):
        try:
            m = {x: ap(x) for x in d.fv if isinstance(x, TM.Atom) and x.op == 'sym'}
            if m:
                return ctx.simpP(subst(d, m))
        except Unsupported:
            pass
    return d
