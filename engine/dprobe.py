"""development aid: python3 dprobe.py src.cpp [pattern] [-v]"""
import sys, json
sys.setrecursionlimit(20000)
import json, subprocess, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import interp as IP
from decide import run_probe
from multiprocessing import Pool
src = sys.argv[1]
pat = sys.argv[2] if len(sys.argv) > 2 else ''
v = '-v' in sys.argv
inc = os.environ.get('MALG_INC', '/repo/include')
ver = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cc = subprocess.run(['clang++-18', '-std=c++17', '-w', '-ferror-limit=3', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-I' + inc, '-I' + ver + '/driver', src, '-o', '/tmp/dp%d.bc' % os.getpid()], capture_output=True, text=True)
if cc.returncode:
    print('\n'.join(l for l in cc.stderr.splitlines() if 'error' in l or 'requested' in l)[:2500])
    sys.exit(1)
js = subprocess.check_output([ver + '/build/irexport', '/tmp/dp%d.bc' % os.getpid()])
os.remove('/tmp/dp%d.bc' % os.getpid())
mod = IP.Module(json.loads(js))
names = [n for n in mod.fns if n.startswith('vf_probe') and pat in n and not mod.fns[n].decl]
def go(n):
    return run_probe(mod, n, colmajor='colmajor' in os.environ.get('MALG_INC', ''))
with Pool(8, maxtasksperchild=1) as p:
    agg = {}
    for r in p.imap(go, names, chunksize=1):
        cnt = {}
        for o in r['obs']:
            cnt[o['status']] = cnt.get(o['status'], 0) + 1
        if set(cnt) == {'proved'} and r['status'] == 'ok' and not v:
            agg[0] = agg.get(0, 0) + 1; agg[1] = agg.get(1, 0) + cnt['proved']; agg[2] = max(agg.get(2, 0), r['t'])
            continue
        print('%-40s %-10s %.2fs %s %s %s' % (r['probe'][9:], r['status'], r.get('t', r['t_analysis']), cnt, r['reason'], r['stats'] or ''))
        left = 3
        for o in r['obs']:
            if (o['status'] != 'proved' or v) and left > 0:
                left -= not v
                print('    ', o['status'], o['kind'], o['note'], '%s:%d' % (o['file'].split('/')[-1], o['line']), o['func'][:60], '|', o['witness'][:130], '|', o['form'][:(int(os.environ.get('W','400')) if v else 130)])
    print('fully proved probes:', agg)
