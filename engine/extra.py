"""Rules decided from the headers themselves and from the intermediate representation of witness units
(driver/use/*.inc), without the abstract interpreter:

 C28  inclusion alone, twice and in any order; linkage of every definition; no mutable state with internal
      linkage; the same body of every definition whatever else is included
 C27  no reference to a function which ends the process, no throw that leaves a noexcept function
 C29  every witness unit and every probe compiles
 C07  every static assertion about result types in the witness units holds
"""
import glob
import hashlib
import itertools
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool

CXX = ['clang++-18', '-std=c++17', '-w', '-ferror-limit=0']
ENDS = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', '_ZSt9terminatev', '_ZSt10unexpectedv', 'raise', 'kill', 'killpg', 'tgkill',
        'pthread_kill', 'pthread_exit', 'thrd_exit', 'longjmp', '_longjmp', 'siglongjmp', '__longjmp_chk', 'execv', 'execve', 'execvp', 'execl',
        'execlp', 'execle', 'fexecve', 'syscall', 'llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap', '__assert_fail', '__assert_perror_fail', '__assert',
        '__stack_chk_fail', '__chk_fail', '__fortify_fail', 'err', 'errx', 'verr', 'verrx', 'error'}

def ob(kind, note, status, file='', line=0, func='', witness='', probe='', form='', chain=()):
    return {'kind': kind, 'note': note, 'status': status, 'file': file, 'line': line, 'func': func, 'witness': witness,
            'probe': probe, 'form': form, 'chain': list(chain)}

def headers(repo):
    """name as included -> witness file, if there is one"""
    inc = os.path.join(repo, 'include')
    out = []
    for f in sorted(glob.glob(os.path.join(inc, '**', '*.h*'), recursive=True)):
        if f.endswith(('.hpp', '.h', '.hh', '.hxx')):
            out.append(os.path.relpath(f, inc))
    return out

def witness(ver, h):
    f = os.path.join(ver, 'driver', 'use', os.path.splitext(os.path.basename(h))[0] + '.inc')
    return f if os.path.exists(f) else None

def compile_(src, repo, ver, scratch, out=None, extra=()):
    name = os.path.join(scratch, 'x_' + hashlib.md5((src + repr(out) + repr(extra)).encode()).hexdigest()[:12] + '.cpp')
    with open(name, 'w') as f:
        f.write(src)
    how = ['-fsyntax-only'] if out is None else ['-O0', '-g', '-femit-all-decls', '-fno-discard-value-names', '-S', '-emit-llvm', '-o', out]
    inc = os.path.join(repo, 'include')
    r = subprocess.run(CXX + how + list(extra) + ['-I' + inc, '-I' + os.path.join(ver, 'driver', 'use'), name], capture_output=True, text=True)
    os.remove(name)
    return r.returncode == 0, r.stderr

def diags(err, limit=6):
    """list of (file, line, message, instantiated from)"""
    out = []
    for l in err.splitlines():
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            out.append([m.group(1), int(m.group(2)), m.group(3), ''])
            continue
        m = re.match(r'(\S+?):(\d+):\d+: note: in instantiation of (.*) requested here', l)
        if m and out:
            out[-1][3] = out[-1][3] + ('' if not out[-1][3] else ' < ') + '%s (%s:%s)' % (m.group(3)[:120], os.path.basename(m.group(1)), m.group(2))
    if not out and err:
        out.append(['', 0, err.strip().splitlines()[-1][:200], ''])
    return out[:limit]

def includes(hs):
    return ''.join('#include <%s>\n' % h for h in hs)

# ------------------------------------------------------------------ the witness units
def unit_sources(repo, ver):
    """(unit, variant) -> source; variants: the header alone, after all others, before all others"""
    hs = headers(repo)
    out = {}
    for h in hs:
        w = witness(ver, h)
        if not w:
            continue
        rest = [x for x in hs if x != h]
        use = '#include "use.hpp"\n#include "%s"\n' % os.path.basename(w)
        out[(h, 'alone')] = includes([h]) + use
        out[(h, 'last')] = includes(rest) + includes([h]) + use
        out[(h, 'first')] = includes([h]) + includes(reversed(rest)) + use
    return hs, out

# ------------------------------------------------------------------ reading the representation
TOK = re.compile(r'!DISubprogram\(|!DIFile\(|!DIGlobalVariable\(|!DIGlobalVariableExpression\(')
LINK = ('private', 'internal', 'available_externally', 'linkonce_odr', 'linkonce', 'weak_odr', 'weak', 'common', 'appending', 'extern_weak', 'external')

def read_ll(args):
    path, inc = args
    files, subs, gvars, gexprs, attrs = {}, {}, {}, {}, {}
    strs = {}
    defs, globs = [], []
    cur = None
    lines = open(path, errors='replace').read().split('\n')
    for l in lines:
        if cur is not None:
            if l == '}':
                defs.append(cur)
                cur = None
            else:
                cur[1].append(l)
            continue
        if l.startswith('define'):
            cur = [l, []]
        elif l.startswith('@'):
            globs.append(l)
            m = re.match(r'@(\.str[.\d]*|"[^"]*"|\S+) = private .*constant (\[.*)', l)
            if m:
                strs[m.group(1)] = re.sub(r', (align|!dbg).*', '', m.group(2))
        elif l.startswith('attributes'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
            attrs[m.group(1)] = m.group(2)
        elif l.startswith('!') and TOK.search(l):
            n = l[:l.index(' ')]
            if '!DIFile(' in l:
                m = re.search(r'filename: "([^"]*)", directory: "([^"]*)"', l)
                files[n] = os.path.normpath(os.path.join(m.group(2), m.group(1)))
            elif '!DISubprogram(' in l:
                m = re.search(r'file: (!\d+)', l)
                k = re.search(r'line: (\d+)', l)
                nm = re.search(r'name: "([^"]*)"', l)
                subs[n] = (m.group(1) if m else None, int(k.group(1)) if k else 0, nm.group(1) if nm else '')
            elif '!DIGlobalVariableExpression(' in l:
                gexprs[n] = re.search(r'var: (!\d+)', l).group(1)
            else:
                m = re.search(r'file: (!\d+)', l)
                k = re.search(r'line: (\d+)', l)
                nm = re.search(r'name: "([^"]*)"', l)
                gvars[n] = (m.group(1) if m else None, int(k.group(1)) if k else 0, nm.group(1) if nm else '')
    inc = os.path.normpath(inc) + os.sep
    fo, go = {}, {}
    calls = {}
    for head, body in defs:
        m = re.match(r'define (.*?)@("[^"]*"|[^\s(]+)\(', head)
        name = m.group(2).strip('"')
        pre = m.group(1).split()
        link = next((t for t in pre if t in LINK), 'strong')
        d = re.search(r'!dbg (!\d+)', head)
        sub = subs.get(d.group(1)) if d else None
        f = files.get(sub[0], '') if sub else ''
        text = '\n'.join(body)
        refs = set(x.strip('"') for x in re.findall(r'@("[^"]*"|[\w.$]+)', text))
        calls[name] = refs
        if f.startswith(inc):
            a = re.search(r'\) (?:local_unnamed_addr |unnamed_addr )*(#\d+)', head)
            fo[name] = {'file': f, 'line': sub[1], 'name': sub[2], 'link': link, 'nounwind': 'nounwind' in attrs.get(a.group(1), '') if a else False,
                        'body': normal(text, strs), 'throws': escapes(body) if '@__cxa_throw' in text or '@_ZSt' in text else [], 'ret': 'ptr' in pre,
                        'tls': re.findall(r'threadlocal\.address\.p0\(ptr[^@]*@("[^"]*"|[\w.$]+)\)', text), 'refs': refs}
    for l in globs:
        m = re.match(r'@("[^"]*"|\S+) = (.*?)(global|constant) ', l)
        if not m:
            continue
        name = m.group(1).strip('"')
        pre = m.group(2).split()
        link = next((t for t in pre if t in LINK), 'strong')
        d = re.search(r'!dbg (!\d+)', l)
        gv = gvars.get(gexprs.get(d.group(1))) if d else None
        f = files.get(gv[0], '') if gv else ''
        if f.startswith(inc):
            go[name] = {'file': f, 'line': gv[1], 'name': gv[2], 'link': link, 'const': m.group(3) == 'constant', 'tls': any(t.startswith('thread_local') for t in pre),
                        'refs': set(x.strip('"') for x in re.findall(r'@("[^"]*"|[\w.$]+)', l[m.end():])), 'init': re.sub(r', comdat.*|, align.*|, !dbg.*', '', l[m.end():])}
    return fo, go, calls

def blocks_of(body):
    blocks, cur = {'entry': []}, 'entry'
    for l in body:
        m = re.match(r'("[^"]*"|[\w.$-]+):', l)
        if m:
            cur = m.group(1).strip('"')
            blocks[cur] = []
        else:
            blocks[cur].append(l)
    return blocks

def normal(text, strs):
    """what the body does on its regular paths, without what depends on the rest of the unit: names, metadata, attribute numbers, whether a
    callee is known not to throw (the exceptional paths), which of two identical constructors is called"""
    text = re.sub(r'\n\s+to label', ' to label', text)
    blocks = blocks_of(text.split('\n'))
    seen, todo = set(), ['entry']
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for l in blocks.get(b, ()):
            l = re.sub(r'unwind label %\S+', '', l)
            todo += [x.strip('"') for x in re.findall(r'label %("[^"]*"|[\w.$-]+)', l)]
    out = []
    for b, ls in blocks.items():
        if b not in seen:
            continue
        for l in ls:
            l = l.strip()
            if not l or '@llvm.dbg.' in l or ' = alloca ' in l or l.startswith('br label'):
                continue
            l = re.sub(r', !(dbg|srcloc|tbaa|llvm\.loop|heapallocsite|nosanitize) ![\d{}]*', '', l)
            l = re.sub(r' to label %.*', '', l)
            l = re.sub(r'\binvoke\b', 'call', l)
            l = re.sub(r'(?<=[\s)])#\d+', '', l)
            l = re.sub(r'; .*', '', l)
            l = re.sub(r'@(\.str[.\d]*|__PRETTY_FUNCTION__[^\s,)]*|__const[^\s,)]*)', lambda m: '@<' + ('' if 'PRETTY' in m.group(1) else strs.get(m.group(1), '')) + '>', l)
            l = re.sub(r'%(?:class|struct|union)\.[\w.:]+', '%T', l)
            l = re.sub(r'%"[^"]*"', '%T', l)
            l = re.sub(r'%[\w.$-]+', '%', l)
            l = re.sub(r'(@\w*?[CD])[123](?=E)', r'\1x', l)
            out.append(re.sub(r'\s+', ' ', l).strip())
    return '\n'.join(out)

def escapes(body):
    """blocks where an exception is thrown whose way out of the function ends the process"""
    if not any('__clang_call_terminate' in l for l in body):
        return []
    blocks = blocks_of(body)
    def succ(b):
        return [x.strip('"') for l in blocks.get(b, ()) for x in re.findall(r'label %("[^"]*"|[\w.$-]+)', l)]
    out = []
    for b, ls in blocks.items():
        t = '\n'.join(ls)
        for m in re.finditer(r'invoke [^\n]*@(__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_\w+)\([^\n]*\n?[^\n]*unwind label %("[^"]*"|[\w.$-]+)', t):
            seen, todo, term, catch = set(), [m.group(2).strip('"')], False, False
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                y = '\n'.join(blocks.get(x, ()))
                term |= '__clang_call_terminate' in y
                catch |= '@__cxa_begin_catch' in y
                todo += succ(x)
            if term and not catch:
                out.append(b)
    return out

def demangle(names):
    names = list(names)
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return dict(zip(names, r.stdout.split('\n')))
    except OSError:
        return {n: n for n in names}

def path_to(calls, target):
    """a call path from a witness function to the target"""
    rev = {}
    for f, rs in calls.items():
        for r in rs:
            rev.setdefault(r, []).append(f)
    seen = {target: None}
    todo = [target]
    last = target
    while todo:
        x = todo.pop(0)
        last = x
        if 'use_' in x and x != target:
            break
        for f in sorted(rev.get(x, ())):
            if f not in seen:
                seen[f] = x
                todo.append(f)
    out = []
    while last is not None and len(out) < 12:
        out.append(last)
        last = seen[last]
    return out

# ------------------------------------------------------------------ the rules
def run(prop, repo, ver, scratch, thorough, failed):
    if prop == 'C28':
        return c28(repo, ver, scratch, thorough)
    if prop == 'C27':
        return c27(repo, ver, scratch, thorough)
    if prop == 'C29':
        return c29(repo, ver, scratch, failed)
    if prop == 'C07':
        return c07(repo, ver, scratch)
    return [], {}

def syntax(jobs, repo, ver, scratch):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_(s, repo, ver, scratch), jobs))

def units(repo, ver, scratch, which, extra=()):
    hs, src = unit_sources(repo, ver)
    keys = [k for k in src if k[1] in which]
    outs = {k: os.path.join(scratch, 'u_%s_%s%s.ll' % (k[0].replace('/', '_'), k[1], '_n' if extra else '')) for k in keys}
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: compile_(src[k], repo, ver, scratch, outs[k], extra), keys))
    good = [k for k, r in zip(keys, res) if r[0]]
    bad = {k: r[1] for k, r in zip(keys, res) if not r[0]}
    with Pool(8) as pool:
        got = pool.map(read_ll, [(outs[k], os.path.join(repo, 'include')) for k in good], chunksize=1)
    for k in good:
        os.remove(outs[k])
    return hs, dict(zip(good, got)), bad

def is_assert(d):
    return 'static assertion failed' in d[2] or 'static_assert' in d[2]

def c29(repo, ver, scratch, failed):
    hs, src = unit_sources(repo, ver)
    keys = [k for k in src if k[1] == 'last']
    res = syntax([src[k] for k in keys], repo, ver, scratch)
    obs = []
    n = 0
    for k, (good, err) in zip(keys, res):
        text = open(witness(ver, k[0])).read()
        n += len(re.findall(r'\bsink\(|template (?:void|class) |SAME\(', text))
        ds = [d for d in diags(err, 40) if not is_assert(d)] if not good else []
        for d in ds[:6]:
            obs.append(ob('instantiation', 'the operations of %s can be used with every element type: %s' % (k[0], d[2][:200]), 'refuted', d[0], d[1], d[3].split(' (')[0] or k[0],
                          witness='instantiated from ' + d[3][:300] if d[3] else '', probe='driver/use/' + os.path.basename(witness(ver, k[0]))))
        if not ds:
            obs.append(ob('instantiation', 'all uses in the witness unit of %s compile' % k[0], 'proved', witness(ver, k[0]), 1, k[0], probe=k[0]))
    for p, e in sorted(failed.items()):
        m = re.match(r'(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', e)
        obs.append(ob('instantiation', 'the probe compiles: ' + (m.group(3) if m else e)[:200], 'refuted', m.group(1) if m else '', int(m.group(2)) if m else 0, p, probe=p))
    return obs, {'witness_units': len(keys), 'uses': n, 'probes_not_compiling': len(failed)}

def c07(repo, ver, scratch):
    hs, src = unit_sources(repo, ver)
    keys = [k for k in src if k[1] == 'last']
    res = syntax([src[k] for k in keys], repo, ver, scratch)
    obs = []
    n = 0
    for k, (good, err) in zip(keys, res):
        n += len(re.findall(r'SAME\(|static_assert', open(witness(ver, k[0])).read()))
        bad = [d for d in diags(err, 40) if is_assert(d)] if not good else []
        for d in bad[:6]:
            obs.append(ob('type', 'result type: ' + d[2][:220], 'refuted', d[0], d[1], k[0], witness=d[3][:300], probe='driver/use/' + os.path.basename(witness(ver, k[0]))))
        if not bad:
            obs.append(ob('type', 'all assertions about types in the witness unit of %s hold' % k[0], 'proved', witness(ver, k[0]), 1, k[0], probe=k[0]))
    return obs, {'witness_units': len(keys), 'type_assertions': n}

def c28(repo, ver, scratch, thorough):
    hs = headers(repo)
    obs = []
    jobs = []
    for h in hs:
        jobs.append(('alone', (h,)))
        jobs.append(('twice', (h, h)))
    jobs.append(('all', tuple(hs)))
    jobs.append(('all, reversed', tuple(reversed(hs))))
    for a, b in itertools.permutations(hs, 2):
        jobs.append(('pair', (a, b)))
    if thorough:
        for a, b, c in itertools.permutations(hs, 3):
            jobs.append(('triple', (a, b, c)))
    res = syntax([includes(j[1]) for j in jobs], repo, ver, scratch)
    for (kind, l), (good, err) in zip(jobs, res):
        if good:
            obs.append(ob('inclusion', '%s: %s' % (kind, ' '.join(l)), 'proved', probe=l[-1]))
        else:
            d = diags(err)[0]
            obs.append(ob('inclusion', '%s: %s: %s' % (kind, ' then '.join(l), d[2]), 'refuted', d[0], d[1], l[-1]))
    hs, mods, bad = units(repo, ver, scratch, ('alone', 'last', 'first'))
    for (h, v), err in bad.items():
        # uses which are broken everywhere are not about inclusion
        if all((h, x) in bad for x in ('alone', 'last', 'first')):
            obs.append(ob('unit', 'the witness unit of %s does not compile' % h, 'undecided', probe=h))
            continue
        d = diags(err)[0]
        obs.append(ob('unit', '%s does not provide what its operations need when it is included %s: %s' % (h, {'alone': 'alone', 'last': 'after all others', 'first': 'before all others'}[v], d[2][:200]),
                      'refuted', d[0], d[1], h, witness=d[3]))
    bodies, inits = {}, {}
    seen = set()
    nf = ng = 0
    for (h, v), (fo, go, calls) in sorted(mods.items()):
        unit = '%s (%s)' % (h, v)
        for n, f in fo.items():
            if n not in seen and f['link'] == 'strong':
                seen.add(n)
                obs.append(ob('linkage', 'a function defined in a header is defined once per program', 'refuted', f['file'], f['line'], f['name'], witness='a strong definition of %s is emitted by every unit that includes %s' % (n, h)))
            for g in f['tls']:
                if f['ret'] and g in go and ('tls', n) not in seen:
                    seen.add(('tls', n))
                    obs.append(ob('state', 'state handed out to the caller is one object for the whole program', 'refuted', f['file'], f['line'], f['name'], witness='%s has one instance per thread' % go[g]['name']))
            if f['link'] in ('internal', 'private'):
                continue
            nf += 1
            p = bodies.setdefault(n, (f, unit))
            if p[0]['body'] != f['body'] and ('d', n) not in seen:
                seen.add(('d', n))
                a, b = p[0]['body'].split('\n'), f['body'].split('\n')
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                obs.append(ob('divergence', 'a definition is the same in every unit', 'refuted', f['file'], f['line'], f['name'],
                              witness='in %s: %s   but in %s: %s' % (p[1], (a[k] if k < len(a) else 'end').strip()[:160], unit, (b[k] if k < len(b) else 'end').strip()[:160])))
        for n, g in go.items():
            ng += 1
            if g['link'] == 'strong' and n not in seen:
                seen.add(n)
                obs.append(ob('linkage', 'a variable defined in a header is defined once per program', 'refuted', g['file'], g['line'], g['name'], witness='a strong definition of %s is emitted by every unit that includes %s' % (n, h)))
            if g['link'] in ('internal', 'private') and not g['const'] and n not in seen:
                seen.add(n)
                obs.append(ob('state', 'mutable state of the library is one object for the whole program', 'refuted', g['file'], g['line'], g['name'], witness='every unit that includes %s has its own instance of %s' % (h, n)))
            if g['link'] not in ('internal', 'private'):
                p = inits.setdefault(n, (g, unit))
                if re.sub(r'@\S+', '@', p[0]['init']) != re.sub(r'@\S+', '@', g['init']) and ('d', n) not in seen:
                    seen.add(('d', n))
                    obs.append(ob('divergence', 'a variable has the same initial value in every unit', 'refuted', g['file'], g['line'], g['name'], witness='%s in %s, %s in %s' % (p[0]['init'][:80], p[1], g['init'][:80], unit)))
    for n, (f, unit) in bodies.items():
        if ('d', n) not in seen and n not in seen:
            obs.append(ob('definition', '%s has weak linkage and one body' % f['name'], 'proved', f['file'], f['line'], f['name']))
    return obs, {'headers': len(hs), 'inclusion_orders': len(jobs), 'witness_units': len(mods), 'function_definitions': nf, 'distinct_functions': len(bodies), 'variable_definitions': ng}

def c27(repo, ver, scratch, thorough):
    hs, mods, bad = units(repo, ver, scratch, ('last',), ('-DNDEBUG',))
    obs = []
    seen = set()
    for (h, v), (fo, go, calls) in sorted(mods.items()):
        for n, f in sorted(fo.items()):
            if n in seen:
                continue
            seen.add(n)
            # the deleting destructor of an abstract class is never called
            hit = sorted((f['refs'] - {'llvm.trap'} if 'D0Ev' in n else f['refs']) & ENDS)
            if hit:
                p = path_to(calls, n)
                dm = demangle(p)
                obs.append(ob('ends', 'no library function refers to a function that ends the process (%s)' % ', '.join(hit), 'refuted', f['file'], f['line'], f['name'], chain=[dm[x] for x in p]))
            elif f['throws']:
                obs.append(ob('noexcept', 'no exception is thrown out of a noexcept function', 'refuted', f['file'], f['line'], f['name'], witness='thrown in block %s, the way out calls std::terminate' % f['throws'][0]))
            else:
                obs.append(ob('ends', '%s refers to nothing that ends the process' % f['name'], 'proved', f['file'], f['line'], f['name']))
        for n, g in sorted(go.items()):
            hit = sorted(g['refs'] & ENDS)
            if hit and n not in seen:
                seen.add(n)
                obs.append(ob('ends', 'no library variable refers to a function that ends the process (%s)' % ', '.join(hit), 'refuted', g['file'], g['line'], g['name']))
    return obs, {'witness_units': len(mods), 'library_functions': len(seen), 'witness_units_not_compiling': len(bad)}
