#!/usr/bin/env python3
"""Writes harness/hrt/src/table.rs: one entry per case and mode."""
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/harness/hrt/src/cases.rs').read()
def snake(n): return re.sub(r'(?<!^)(?=[A-Z])', '_', n).lower()
groups = {'CORE': [], 'ALLOC': [], 'STD': []}
for n in ('Arr0', 'Arr1', 'Arr2', 'Arr3', 'Arr4', 'Arr6', 'Arr8'): groups['CORE'].append(n)
for m in re.finditer(r'^case!\((?:\["(\w+)"\] )?(\w+),', src, re.M): groups[(m.group(1) or 'core').upper()].append(m.group(2))
for m in re.finditer(r'^hcase!\((\w+),', src, re.M): groups['STD'].append(m.group(1))
out = ['//! Entry points (generated by tools/gen_table.py).', 'use crate::cases::*;', 'use crate::drive::*;', 'use crate::spec::*;']
for g, cs in groups.items():
    if g != 'CORE': out.append('#[cfg(feature = "%s")]' % g.lower())
    out.append('mod %s { use super::*;' % g.lower())
    out.append('symrt::harnesses_part! { %s' % g)
    for c in cs:
        n = snake(c)
        z = c in ('PhantomC', 'Arr0')
        for k, f, a in (('inf', 'inf', ''), ('ovi', 'over_inf', '1' if z else '3'), ('try', 'try_', '1' if z else '3'), ('ovt', 'over_try', '1' if z else '7'),
                        ('pai', 'panic_inf', '1' if z else '3'), ('pat', 'panic_try', '1' if z else '7'), ('lawid', 'law_id', ''), ('lawidt', 'law_id_try', ''),
                        ('lawcomp', 'law_comp', ''), ('lawtry', 'law_try', '')):
            out.append('    %s_%s => %s::<%s>(%s);' % (k, n, f, c, a))
    if g == 'CORE':
        sp = open(V + '/harness/hrt/src/spec.rs').read()
        for m in re.finditer(r'^spec!\((\w+), (\d+)', sp, re.M):
            z = m.group(2) == '0'
            out.append('    spec_i_%s => spec_inf::<%s>(%s);' % (snake(m.group(1)), m.group(1), 1 if z else 3))
            out.append('    spec_t_%s => spec_try::<%s>(%s);' % (snake(m.group(1)), m.group(1), 1 if z else 7))
        for i in (0, 1, 2, 3, 5):
            for f in ('zst', 'zst_inf', 'no_result', 'no_error'): out.append('    spec_%s%d => %s::<%d>();' % (f, i, f, i))
        for i in (16, 33):
            out.append('    spec_zst%d => zst::<%d>();' % (i, i))
        out += ['    spec_empty => empty();', '    spec_niches => niches();', '    comm_result => comm_result_();', '    comm_flow => comm_flow_();']
    if g == 'ALLOC': out.append('    comm_btree => comm_btree_();')
    if g == 'STD': out.append('    comm_hash => comm_hash_();')
    out.append('} }')
    if g != 'CORE': out.append('#[cfg(feature = "%s")]' % g.lower())
    out.append('#[cfg(feature = "native")]\n%spub use %s::%s;' % ('' if g == 'CORE' else '', g.lower(), g))
open(V + '/harness/hrt/src/table.rs', 'w').write('\n'.join(out) + '\n')
print({g: len(c) for g, c in groups.items()})
