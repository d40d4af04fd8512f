"""Ring reasoning over the reals: denominators are cleared, squares of roots and magnitudes resolved,
and polynomials reduced by the equalities of a path."""
from fractions import Fraction
from terms import *
import terms as TM

LIMIT = 1500

class TooBig(Exception):
    pass

def has_den(p):
    for m in p.t:
        for a, e in m:
            if a.op == 'inv' or e < 0:
                return True
    return False

def resolve(p):
    """squares of roots and magnitudes"""
    for _ in range(6):
        ch = False
        r = ZERO
        for m, c in p.t.items():
            y = num(c)
            rest = []
            for a, e in m:
                if e >= 2 and a.op == 'app' and a.a[0] == 'sqrt':
                    y = mul(y, ppow(a.a[1], e // 2))
                    if e % 2:
                        rest.append((a, 1))
                    ch = True
                elif e >= 2 and a.op == 'abs':
                    y = mul(y, ppow(a.a[0], e // 2 * 2))
                    if e % 2:
                        rest.append((a, 1))
                    ch = True
                else:
                    rest.append((a, e))
            r = add(r, mul(y, TM._mk({tuple(rest): 1})))
            if len(r.t) > LIMIT:
                raise TooBig()
        p = r
        if not ch:
            break
    return p

def clear(p):
    """a polynomial without denominators which is zero exactly when p is (where p is defined)"""
    for _ in range(10):
        p = resolve(p)
        dens = {}
        for m in p.t:
            for a, e in m:
                if a.op == 'inv' and e > 0:
                    dens[a] = max(dens.get(a, 0), e)
                elif e < 0:
                    dens[a] = min(dens.get(a, 0), e)
        if not dens:
            return p
        # one denominator at a time, the outermost (newest) first
        a = max(dens, key=lambda x: x.id)
        k = dens[a]
        r = ZERO
        pw = {}
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            if k > 0:
                rest = TM._mk({tuple((b, x) for b, x in m if b is not a): c})
                n = k - max(e, 0)
                if n not in pw:
                    pw[n] = ppow(a.a[0], n)
                r = add(r, mul(rest, pw[n]))
            else:
                d = dict(m)
                d[a] = e - k
                if d[a] == 0:
                    del d[a]
                r = add(r, TM._mk({tuple(sorted(d.items(), key=lambda x: x[0].id)): c}))
            if len(r.t) > LIMIT:
                raise TooBig()
        p = r
    if has_den(p):
        raise TooBig()
    return resolve(p)

def mkey(m):
    return (sum(e for a, e in m), tuple(sorted(((a.id, e) for a, e in m), reverse=True)))

def divides(m, n):
    d = dict(n)
    for a, e in m:
        if d.get(a, 0) < e:
            return None
    for a, e in m:
        d[a] -= e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))

def pmod(p, eqs):
    """p reduced by polynomials known to be zero"""
    if not eqs:
        return p
    steps = 0
    done = ZERO
    while p.t:
        m = max(p.t, key=mkey)
        c = p.t[m]
        for q, lm, lc in eqs:
            k = divides(lm, m)
            if k is not None:
                p = sub(p, mul(TM._mk({k: Fraction(c) / lc if Fraction(c) / lc != int(Fraction(c) / lc) else int(Fraction(c) / lc)}), q))
                break
        else:
            t = TM._mk({m: c})
            done = add(done, t)
            p = sub(p, t)
        steps += 1
        if steps > 600 or len(p.t) > LIMIT:
            raise TooBig()
    return done

def lead(q):
    m = max(q.t, key=mkey)
    return (q, m, Fraction(q.t[m]))

def complete(eqs, extra=8):
    """a few steps of Buchberger's completion"""
    eqs = list(eqs)
    todo = [(i, j) for j in range(len(eqs)) for i in range(j)]
    while todo and extra:
        i, j = todo.pop(0)
        (p, m, c), (q, n, d) = eqs[i], eqs[j]
        dm, dn = dict(m), dict(n)
        if not set(dm) & set(dn):
            continue
        l = {a: max(dm.get(a, 0), dn.get(a, 0)) for a in set(dm) | set(dn)}
        u = tuple(sorted(((a, e - dm.get(a, 0)) for a, e in l.items() if e > dm.get(a, 0)), key=lambda x: x[0].id))
        v = tuple(sorted(((a, e - dn.get(a, 0)) for a, e in l.items() if e > dn.get(a, 0)), key=lambda x: x[0].id))
        s = pmod(sub(scale(mul(TM._mk({u: 1}), p), Fraction(1) / c), scale(mul(TM._mk({v: 1}), q), Fraction(1) / d)), eqs)
        extra -= 1
        if s is ZERO:
            continue
        eqs.append(lead(s))
        todo += [(k, len(eqs) - 1) for k in range(len(eqs) - 1)]
    return eqs

def zeros(p, eqs):
    """magnitudes and roots of what is zero"""
    mp = {}
    for m in p.t:
        for a, e in m:
            if a.op == 'abs' or (a.op == 'app' and a.a[0] == 'sqrt'):
                x = a.a[0] if a.op == 'abs' else a.a[1]
                if not isinstance(x, Poly):
                    continue
                y = pmod(clear(x), eqs)
                if y is ZERO:
                    mp[a] = ZERO
    if not mp:
        return p
    r = ZERO
    for m, c in p.t.items():
        if any(a in mp for a, e in m):
            if any(a in mp and e < 0 for a, e in m):
                raise TooBig()
            continue
        r = add(r, TM._mk({m: c}))
    return r

def real(p):
    return not all_int(p)

def dead(lits):
    """the literals contradict each other"""
    eqs = []
    try:
        for l, s in lits:
            if l.op == 'eq' and s and len(l.a[0].t) <= 60:
                q = clear(l.a[0])
                if q.t and not is_const(q):
                    eqs.append(lead(q))
        if 2 <= len(eqs) <= 4:
            eqs = complete(eqs)
    except (TooBig, Unsupported):
        eqs = []
    for l, s in lits:
        if l.op not in ('eq', 'gt') or not real(l.a[0]):
            continue
        p = l.a[0]
        if l.op == 'eq' and s:
            continue
        try:
            p = zeros(p, eqs)
            if l.op == 'eq':
                q = clear(p)
                if pmod(q, eqs) is ZERO:
                    return True
            elif is_const(p) and (cval(p) > 0) is not s:
                return True
        except (TooBig, Unsupported):
            continue
    return False
