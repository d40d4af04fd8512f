#!/usr/bin/env python3
"""check.py <property> [--thorough]

Decides one property of /repo's current headers by abstract interpretation of the compiled (never
executed) drivers, see DESIGN.md. Exit 0: no violation. Exit 1: VIOLATION line. Exit 3: the check
itself could not do its work."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool
from multiprocessing import TimeoutError as MPTimeout

VER = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MALG_REPO', '/repo')
sys.path.insert(0, os.path.join(VER, 'engine'))
sys.setrecursionlimit(20000)

CXX = ['clang++-18', '-std=c++17', '-w']
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c']
JOBS = 8
PIN_UNTIL = 300     # seconds after which no further small instances are analysed
DEADLINE = 780      # seconds after which the remaining probes are left undecided

def body_end(p):
    """where the braces of the text that begins with a function are closed"""
    d = 0
    for m in re.finditer(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|//[^\n]*|[{}]', p):
        c = m.group(0)
        d += (c == '{') - (c == '}')
        if c == '}' and d == 0:
            return m.end()
    return len(p)

class Broken(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ drivers
PROBE = re.compile(r'^PROBE\((\w+)\)', re.M)

def drivers():
    """driver file -> list of (probe name, set of properties)"""
    out = {}
    for f in sorted(glob.glob(os.path.join(VER, 'driver', 'p_*.cpp'))):
        ps = PROBE.findall(open(f).read())
        out[f] = ps
    return out

def props_of(probe):
    return set(re.findall(r'[CN]\d\d', probe))

class Build:
    """compiles drivers against the current headers and exports their intermediate representation"""
    def __init__(self, scratch, colmajor):
        self.scratch = scratch
        self.colmajor = colmajor
        self.inc = os.path.join(REPO, 'include')
        if colmajor:
            d = os.path.join(scratch, 'colmajor')
            if not os.path.isdir(d):
                shutil.copytree(self.inc, d)
                n = 0
                for root, _, fs in os.walk(d):
                    for f in fs:
                        p = os.path.join(root, f)
                        s = open(p, encoding='utf-8', errors='surrogateescape').read()
                        s2, k = re.subn(r'^[ \t]*#[ \t]*define[ \t]+ROW_MAJOR\b.*$', '', s, flags=re.M)
                        if k:
                            n += k
                            open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s2)
                if n == 0:
                    log('the storage order switch ROW_MAJOR was not found: only one storage order is analysed')
            self.inc = d
        self.skipped = set() # probes outside of the model of the stream library
        self.failed = {}     # probe -> diagnostics

    def cmd(self, src, out, extra=()):
        return CXX + IRFLAGS + ['-I' + self.inc, '-I' + os.path.join(VER, 'driver')] + list(extra) + [src, '-o', out]

    def one(self, src):
        base = os.path.join(self.scratch, os.path.basename(src)[:-4] + ('_c' if self.colmajor else ''))
        r = subprocess.run(self.cmd(src, base + '.bc'), capture_output=True, text=True)
        if r.returncode:
            src = self.isolate(src, base, r.stderr)
            r = subprocess.run(self.cmd(src, base + '.bc'), capture_output=True, text=True)
            if r.returncode:
                raise Broken('cannot compile %s: %s' % (src, r.stderr[-2000:]))
        with open(base + '.json', 'w') as f:
            e = subprocess.run([os.path.join(VER, 'build', 'irexport'), base + '.bc'], stdout=f, stderr=subprocess.PIPE, text=True)
        if e.returncode:
            raise Broken('irexport failed on %s: %s' % (src, e.stderr[-500:]))
        os.remove(base + '.bc')
        return base + '.json'

    def isolate(self, src, base, diag):
        """finds the probes which do not compile and gives a source without them"""
        text = open(src).read()
        parts = re.split(r'(?m)^(?=PROBE\()', text)
        pre, probes = parts[0], parts[1:]
        # a probe extends to the end of its body; what follows belongs to all
        segs = []
        for p in probes:
            e = body_end(p)
            segs.append((p[:e], p[e:]))
        def build(keep):
            s = pre
            for k, (a, b) in enumerate(segs):
                s += (a if k in keep else '\n' * a.count('\n')) + b
            return s
        def ok(keep):
            k = hashlib.md5(repr(sorted(keep)).encode()).hexdigest()[:8]
            f = base + '_iso_%s.cpp' % k
            open(f, 'w').write(build(keep))
            r = subprocess.run(CXX + ['-fsyntax-only', '-I' + self.inc, '-I' + os.path.join(VER, 'driver'), f], capture_output=True, text=True)
            return r.returncode == 0, r.stderr
        good, d = ok(set())
        modelled = 'vfio.hpp' in pre or 'vf_engine' in pre
        if not good and modelled:
            # the code uses the stream library beyond the model of it: no result for these probes
            self.skipped.update(PROBE.match(a).group(1) for a, b in segs)
            f = base + '_iso.cpp'
            open(f, 'w').write('// nothing\n')
            return f
        if not good:
            raise Broken('the headers do not compile: ' + d[-2000:])
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda k: ok({k}), range(len(segs))))
        keep = {k for k in range(len(segs)) if res[k][0]}
        for k in range(len(segs)):
            if not res[k][0]:
                nm = PROBE.match(segs[k][0]).group(1)
                err = [l for l in res[k][1].splitlines() if 'error' in l]
                if modelled:
                    self.skipped.add(nm)
                    continue
                self.failed[nm] = (err or ['?'])[0]
        f = base + '_iso.cpp'
        open(f, 'w').write(build(keep))
        return f

# ------------------------------------------------------------------ running
MODS = {}

def _load(path):
    import interp as IP
    m = MODS.get(path)
    if m is None:
        m = MODS[path] = IP.Module(json.load(open(path)))
    return m

def _go(job):
    path, name, col, limit, seed, tries, smax, start = job
    from decide import run_probe
    try:
        used = time.time() - start
        # the instances with small sizes as long as there is time for them
        pin = (60 if limit > 60 else 20) if used < PIN_UNTIL else 0
        limit = min(limit, max(5, DEADLINE - used))
        r = run_probe(_load(path), 'vf_probe_' + name, col, limit, seed, tries, smax, pin)
    except MemoryError:
        r = {'probe': name, 'status': 'undecided', 'obs': [], 'reason': 'memory limit', 'loops': 0, 'funcs': [], 'colmajor': col}
    except Exception as e:
        r = {'probe': name, 'status': 'undecided', 'obs': [], 'reason': 'internal: %s %s' % (type(e).__name__, e), 'loops': 0, 'funcs': [], 'colmajor': col, 'internal': True}
    r['probe'] = name
    return r

def _init():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None

AUTO_ALL = ('C02', 'C10', 'C27')

def run(prop, thorough, select=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='malgvf_')
    try:
        return _run(prop, thorough, seed, scratch, select)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def relevant(prop, probe):
    return prop in props_of(probe) or prop in AUTO_ALL

def _run(prop, thorough, seed, scratch, select):
    from decide import AUTO
    if not os.path.exists(os.path.join(VER, 'build', 'irexport')):
        subprocess.check_call(['bash', os.path.join(VER, 'build.sh')])
    t0 = time.time()
    drv = drivers()
    jobs = []
    failed = {}
    cols = [False]
    if prop in ('C12', 'C13', 'C14', 'C15', 'C08', 'C11') or thorough:
        cols.append(True)
    todo = []
    for col in cols:
        b = Build(scratch, col)
        # every probe has to compile for C29
        fs = [f for f, ps in drv.items() if prop == 'C29' or any(relevant(prop, p) for p in ps)]
        if col and not thorough:
            fs = [f for f in fs if any(prop in props_of(p) for p in drv[f])]
        for f in fs:
            todo.append((b, f, col))
    with ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(lambda x: x[0].one(x[1]), todo))
    for (b, f, col), o in zip(todo, outs):
        failed.update(b.failed)
        for p in drv[f]:
            if p in b.failed or p in b.skipped:
                continue
            if not relevant(prop, p):
                continue
            if col and not (prop in props_of(p)):
                continue
            if select and select not in p:
                continue
            if '_slow' in p and not thorough and not select:
                continue
            limit = 240 if thorough else 60
            jobs.append((o, p, col, limit, seed, 400 if thorough else 160, 4 if thorough else 3, t0))
    results = []
    if jobs:
        # the heavy ones first
        for j in jobs:
            _load(j[0])
        with Pool(JOBS, initializer=_init, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_go, jobs, chunksize=1)
            try:
                for k in range(len(jobs)):
                    results.append(it.next(max(1, DEADLINE - (time.time() - t0))))
            except MPTimeout:
                done = {(r['probe'], r['colmajor']) for r in results}
                for j in jobs:
                    if (j[1], j[2]) not in done:
                        results.append({'probe': j[1], 'status': 'undecided', 'obs': [], 'reason': 'time limit of the check', 'loops': 0, 'funcs': [], 'colmajor': j[2]})
                pool.terminate()
    import extra
    ex_obs, ex_cov = extra.run(prop, REPO, VER, scratch, thorough, failed)
    known = json.load(open(os.path.join(VER, 'known_findings.json')))['known']
    counts = {'proved': 0, 'refuted': 0, 'undecided': 0}
    viol, knownhit, undec, funcs, loops, samples = [], [], [], set(), 0, []
    nprobe = {'ok': 0, 'undecided': 0, 'partial': 0}
    for r in sorted(results, key=lambda r: (r['probe'], r['colmajor'])):
        own = prop in props_of(r['probe'])
        nprobe[r['status']] += 1
        funcs.update(r['funcs'])
        loops += r['loops']
        if r['status'] != 'ok':
            undec.append('%s: %s' % (r['probe'], r['reason']))
        k = 0
        for o in r['obs']:
            m = re.match(r'([CN]\d\d):', o['note'])
            if m:
                mine = m.group(1) == prop
            else:
                mine = own or AUTO.get(o['kind']) == prop
            if not mine:
                continue
            counts[o['status']] += 1
            k += 1
            if o['status'] == 'refuted':
                o = dict(o, probe=r['probe'], colmajor=r['colmajor'])
                kf = match_known(known, prop, o)
                if kf:
                    knownhit.append((kf, o))
                else:
                    viol.append(o)
            elif o['status'] == 'undecided':
                undec.append('%s: %s %s at %s:%d %s' % (r['probe'], o['kind'], o['note'], os.path.basename(o['file']), o['line'], o['form'][:160]))
            elif len(samples) < 12 and o['kind'] in ('eq', 'throws') and own:
                samples.append('%s%s: %s %s (%s:%d) proved' % (r['probe'], ' [column-major]' if r['colmajor'] else '', o['kind'], o['note'], os.path.basename(o['file']), o['line']))
    for o in ex_obs:
        counts[o['status']] += 1
        if o['status'] == 'refuted':
            kf = match_known(known, prop, o)
            if kf:
                knownhit.append((kf, o))
            else:
                viol.append(o)
        elif o['status'] == 'undecided':
            undec.append('%s: %s' % (o.get('probe', ''), o['note']))
        elif len(samples) < 20:
            samples.append('%s %s %s: proved' % (o.get('probe', ''), o['kind'], o['note']))
    wall = time.time() - t0
    total = sum(counts.values())
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': LEVEL,
        'coverage': {
            'explanation': EXPL,
            'probes': len(results), 'probes_analysed': nprobe['ok'], 'probes_undecided': nprobe['undecided'] + nprobe['partial'],
            'obligations': total, 'discharged': counts['proved'], 'refuted': counts['refuted'], 'undecided': counts['undecided'],
            'functions_analysed': sorted(funcs), 'functions_count': len(funcs), 'loops_summarised': loops,
            'samples': samples, 'undecided_list': undec[:200], 'extra': ex_cov,
            'probes_not_compiling': sorted(failed),
            'probes_outside_of_the_stream_model': sorted(set().union(*[b.skipped for b, f, c in todo])) if todo else [],
        },
        'assumptions': ASSUME, 'wall_s': round(wall, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VER, 'evidence'), exist_ok=True)
    with open(os.path.join(VER, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d probes (%d fully analysed), %d obligations: %d proved, %d refuted, %d undecided; %d functions, %d loops; %.1f s' % (
        prop, ev['tier'], len(results), nprobe['ok'], total, counts['proved'], counts['refuted'], counts['undecided'], len(funcs), loops, wall))
    if '-v' in sys.argv:
        for u in undec:
            log('  undecided', u)
    seen = set()
    for kf, o in knownhit:
        if kf['what'] in seen:
            continue
        seen.add(kf['what'])
        log('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    if viol:
        rp = os.path.join(VER, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as f:
            for o in viol:
                f.write(describe(prop, o) + '\n')
        for o in viol[:20]:
            log(describe(prop, o))
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if counts['proved'] == 0:
        log('nothing was decided: ' + '; '.join(undec[:5]))
        # code that uses more of the stream library than the model of it has leaves the probes undecided
        return 0 if any(b.skipped for b, f, c in todo) else 3
    return 0

def describe(prop, o):
    s = '%s:%d: in %s: rule %s (%s) violated' % (o['file'], o['line'], o['func'], o['kind'], o['note'])
    s += '\n    analysed through: ' + o.get('probe', '') + (' [column-major]' if o.get('colmajor') else '')
    if o.get('chain'):
        s += '\n    call path: ' + ' > '.join(c[:90] for c in o['chain'])
    if o.get('witness'):
        s += '\n    separating state: ' + o['witness']
    if o.get('form'):
        s += '\n    normal form: ' + o['form'][:300]
    return s

def match_known(known, prop, o):
    for k in known:
        if k['property'] != prop:
            continue
        if k.get('probe') and k['probe'] != o.get('probe'):
            continue
        if k.get('kind') and k['kind'] != o['kind']:
            continue
        if k.get('note') and k['note'] not in o['note']:
            continue
        if k.get('witness') and k['witness'] not in o.get('witness', ''):
            continue
        if k.get('func') and k['func'] not in o['func'] and not any(k['func'] in c for c in o.get('chain', ())):
            continue
        return k
    return None

LEVEL = 'other'
EXPL = ('Static analysis: the library code reached by each probe is compiled to LLVM IR (not executed) and abstractly interpreted over a '
        'value-graph domain (paths merged, loops summarised, all sizes and element values symbolic). Every obligation (specification equality, '
        'throw condition, bounds, lifetime, release, initialisation, division) is proved by normalisation and linear arithmetic, refuted when the two '
        'normal forms differ (a separating state confirms the difference), or left undecided; undecided ones are listed and never raise an alarm.')
ASSUME = ['floating point arithmetic is treated as real arithmetic, without NaN and infinities',
          'sizes and products of sizes do not overflow, except where a probe is about that',
          'operands given as abstract matrices are distinct objects, except where a probe is about aliasing',
          'allocation succeeds, except where a probe is about its failure',
          'the C++ standard library headers and clang-18 code generation are trusted']

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    thorough = '--thorough' in sys.argv or (os.environ.get('VERIF_TIER') == 'thorough')
    try:
        sys.exit(run(a[0], thorough, a[1] if len(a) > 1 else None))
    except Broken as e:
        log('CHECK ERROR: %s' % e)
        sys.exit(3)
