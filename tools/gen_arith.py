"""writes driver/p_arith.cpp, driver/p_cmp.cpp (families of probes over operators and element types)"""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'driver')
TY = {'d': 'double', 'z': 'cplx', 'i': 'int', 'f': 'float'}
out = []
def emit(name, body):
    out.append('PROBE(%s)\n{\n    %s\n}\n' % (name, body))
PAIRS = ['dd', 'zz', 'id', 'di', 'zd', 'dz', 'ii', 'ff', 'fd']
REAL = ['dd', 'id', 'di', 'ii', 'ff', 'fd']
head = open(os.path.join(D, 'arith.inc')).read()
OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
for nm in ('add', 'sub'):
    for p in PAIRS:
        tag = 'C03_C01_C06_C07' 
        emit('%s_mm_%s_%s' % (tag, nm, p), 'mat_mat<%s, %s>(BIN(%s), BINV(%s));' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm]))
        emit('%s_vv_%s_%s' % (tag, nm, p), 'vec_vec<%s, %s>(BIN(%s), BINV(%s));' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm]))
    for p in ['dd', 'zz', 'ii', 'ff', 'di', 'zd']:
        emit('C03_C01_C06_mm_%seq_%s' % (nm, p), 'mat_mat_eq<%s, %s>([](auto &x, auto &y) -> auto & { return x %s= y; }, BINV(%s));' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm]))
        emit('C03_C01_C06_vv_%seq_%s' % (nm, p), 'vec_vec_eq<%s, %s>([](auto &x, auto &y) -> auto & { return x %s= y; }, BINV(%s));' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm]))
    emit('C03_C06_mm_%seq_self' % nm, 'mat_self([](auto &x) { x %s= x; }, BINV(%s));' % (OPS[nm], OPS[nm]))
    emit('C03_C06_vv_%seq_self' % nm, 'vec_self([](auto &x) { x %s= x; }, BINV(%s));' % (OPS[nm], OPS[nm]))
for p in PAIRS:
    emit('C03_C01_C06_vv_mul_%s' % p, 'vec_vec<%s, %s>(BIN(*), BINV(*));' % (TY[p[0]], TY[p[1]]))
for nm in OPS:
    for p in PAIRS:
        emit('C03_C06_C07_ms_%s_%s' % (nm, p), 'mat_sca<%s, %s>(BIN(%s), BINV(%s), %d);' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm], nm == 'div'))
        emit('C03_C06_C07_vs_%s_%s' % (nm, p), 'vec_sca<%s, %s>(BIN(%s), BINV(%s), %d);' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm], nm == 'div'))
    for p in ['dd', 'zz', 'ii', 'ff', 'di', 'zd']:
        emit('C03_C06_ms_%seq_%s' % (nm, p), 'mat_sca_eq<%s, %s>([](auto &x, auto y) -> auto & { return x %s= y; }, BINV(%s), %d);' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm], nm == 'div'))
        emit('C03_C06_vs_%seq_%s' % (nm, p), 'vec_sca_eq<%s, %s>([](auto &x, auto y) -> auto & { return x %s= y; }, BINV(%s), %d);' % (TY[p[0]], TY[p[1]], OPS[nm], OPS[nm], nm == 'div'))
    emit('C03_C06_ms_%seq_own_element' % nm, 'mat_own([](auto &x, auto &y) { x %s= y; }, BINV(%s), %d);' % (OPS[nm], OPS[nm], nm == 'div'))
    emit('C03_C06_vs_%seq_own_element' % nm, 'vec_own([](auto &x, auto &y) { x %s= y; }, BINV(%s), %d);' % (OPS[nm], OPS[nm], nm == 'div'))
for p in PAIRS:
    emit('C03_C06_C07_sm_mul_%s' % p, 'sca_mat<%s, %s>();' % (TY[p[0]], TY[p[1]]))
    if p[0] != 'z':
        emit('C03_C06_C07_sv_mul_%s' % p, 'sca_vec<%s, %s>();' % (TY[p[0]], TY[p[1]]))
    emit('C04_C01_C06_C07_mul_%s' % p, 'product<%s, %s>();' % (TY[p[0]], TY[p[1]]))
    emit('C04_C01_C06_C07_mulv_%s' % p, 'mat_vec<%s, %s>(0);' % (TY[p[0]], TY[p[1]]))
    emit('C04_C01_C06_C07_dotm_%s' % p, 'mat_vec<%s, %s>(1);' % (TY[p[0]], TY[p[1]]))
    emit('C04_C01_C06_C07_dot_%s' % p, 'vec_dot<%s, %s>();' % (TY[p[0]], TY[p[1]]))
for p in ['dd', 'ii', 'ff', 'zz', 'di', 'zd', 'id', 'fd']:
    emit('C04_C01_C06_C07_muleq_%s' % p, 'product_eq<%s, %s>();' % (TY[p[0]], TY[p[1]]))
emit('C04_C06_muleq_self', 'product_self();')
emit('C04_C06_muleq_view', 'product_view();')
open(os.path.join(D, 'p_arith.cpp'), 'w').write(head + '\n' + '\n'.join(out))

out = []
CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
for nm, op in CMP.items():
    eqop = nm in ('eq', 'ne')
    for p in ['dd', 'ii', 'di', 'id', 'ff', 'fd'] + (['zz'] if eqop else []):
        # the reference computes in double
        ref = '[](auto x, auto y) { return ref_%s(x, y); }' % nm
        a, b = TY[p[0]], TY[p[1]]
        if 'f' in p and eqop:
            continue
        emit('C05_C01_C06_mm_%s_%s' % (nm, p), 'mat_mat<%s, %s>(BIN(%s), %s);' % (a, b, op, ref))
        emit('C05_C06_ms_%s_%s' % (nm, p), 'mat_sca<%s, %s>(BIN(%s), %s);' % (a, b, op, ref))
        if eqop:
            emit('C05_C01_C06_vv_%s_%s' % (nm, p), 'vec_vec<%s, %s>(BIN(%s), %s);' % (a, b, op, ref))
            emit('C05_C06_vs_%s_%s' % (nm, p), 'vec_sca<%s, %s>(BIN(%s), %s);' % (a, b, op, ref))
for x, y in (('eq', 'ne'), ('lt', 'ge'), ('gt', 'le')):
    for p in ['dd', 'ii', 'ff', 'di']:
        emit('C05_opposite_%s_%s_%s' % (x, y, p), 'opposite<%s, %s>(BIN(%s), BIN(%s));' % (TY[p[0]], TY[p[1]], CMP[x], CMP[y]))
emit('C05_opposite_eq_ne_zz', 'opposite<cplx, cplx>(BIN(==), BIN(!=));')
open(os.path.join(D, 'p_cmp.cpp'), 'w').write(open(os.path.join(D, 'cmp.inc')).read() + '\n' + '\n'.join(out))
