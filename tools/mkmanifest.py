#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CLAIMED = open(V + '/tools/claimed.txt').read().split()
EXTRA = {
 'C27': 'abstract interpretation of every probe for abnormal ends, and call-graph reachability of process-ending functions',
 'C28': 'inclusion witnesses in every pairwise order, and linkage, state and divergence rules over the LLVM IR of witness units for every header',
 'C29': 'type-level witnesses: every public operation is instantiated with every admissible element type and must compile',
}
NA = {
 'N01': 'the truncation error of the series depends on the norm of a runtime matrix and on floating-point rounding; no sound static bound is in reach (exactness where the series ends is in C37)',
 'N02': 'orthogonality, residuals and convergence are statements about accumulated floating-point error and data-dependent iteration; structural facts are in C33',
 'N03': 'depends on the C++ library number formatter and parser, which are outside of the analysed source; the format agreement is in C26',
}
NOTE = ('Value-graph abstract interpretation of the compiled (not executed) library code: every obligation is proved for all sizes and element values, '
        'refuted with a normal-form difference, or reported as undecided in the evidence. Assumes real arithmetic for floating point (no NaN, no rounding), no overflow of '
        'size products, distinct operands unless the probe aliases them, allocation success unless the probe is about its failure. Trusts clang-18 code generation, the '
        'C++ standard library headers and the models of its out-of-line functions.')
m = {'version': 1, 'setup_cmd': 'bash build.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Known findings and repairs: known_findings.json. Design: DESIGN.md. No hooks are needed in /repo.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'technique': EXTRA.get(i, 'abstract interpretation over a value-graph domain (translation-validation style equivalence of loop summaries)'),
            'level': 'other', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check registered yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
