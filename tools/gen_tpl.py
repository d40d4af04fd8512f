#!/usr/bin/env python3
"""writes driver/p_<x>.cpp from driver/<x>.tpl: probe templates over element types.

    //// <name> <properties> <types...>
    body (T, U: the element types)
"""
import glob, os, re
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'driver')
TY = {'d': 'double', 'z': 'cplx', 'i': 'int', 'f': 'float', 'c': 'std::complex<float>', 'u': 'unsigned', 'n': 'size_t', 'l': 'long', 'b': 'bool'}
for f in sorted(glob.glob(D + '/*.tpl')):
    parts = re.split(r'(?m)^//// *(.*)\n', open(f).read())
    out = ['// Written by tools/gen_tpl.py from %s.\n%s' % (os.path.basename(f), parts[0])]
    for head, body in zip(parts[1::2], parts[2::2]):
        h = head.split()
        name, props, types = h[0], h[1], h[2:]
        if not types:
            out.append('PROBE(%s_%s)\n{\n%s}\n' % (props, name, body))
            continue
        args = ['T', 'U', 'W'][:len(types[0])]
        out.append('template <%s> static void t_%s()\n{\n%s}\n' % (', '.join('typename ' + a for a in args), name, body.rstrip('\n') + '\n'))
        for t in types:
            out.append('PROBE(%s_%s_%s)\n{\n    t_%s<%s>();\n}\n' % (props, name, t, name, ', '.join(TY[c] for c in t)))
    open(os.path.join(D, 'p_' + os.path.basename(f)[:-4] + '.cpp'), 'w').write('\n'.join(out))
