"""Writes BOUNDS.md: the scenarios of every check and their bounds."""
import glob, importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
out = ['# Bounds of the scenarios\n',
       'Sizes are bounded as listed; values are not, except where a text says '
       'so. Written by `tools/mkbounds.py`.\n']
for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))):
    p = os.path.basename(f)[:-3]
    m = importlib.import_module('checks.' + p)
    out.append('## %s: %s\n' % (p.upper(), (m.__doc__ or '').split(':', 1)[1].strip()
                                 .replace('\n', ' ')))
    for tier in ('quick', 'thorough'):
        by = {}
        for s in m.scenarios(tier):
            by.setdefault(s.bounds or '(see the scenario)', []).append(s.name)
        n = sum(map(len, by.values()))
        out.append('*%s*, %d scenarios:\n' % (tier, n))
        for b, names in list(by.items()):
            out.append('* %s — %s' % (b, ', '.join('`%s`' % x for x in names[:6]) +
                                (' and %d more' % (len(names) - 6)
                                 if len(names) > 6 else '')))
        out.append('')
open(os.path.join(HERE, 'BOUNDS.md'), 'w').write('\n'.join(out))
