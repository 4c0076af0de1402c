"""Writes EXTRACTION.md: per unit the functions under contract, every rewrite the extraction applies and everything taken on trust."""
import sys, os, importlib
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')]
import vx, verify
from registry import PROPS
UNITS = list(dict.fromkeys(n for p in PROPS.values() for n in p['units']))
def q(s): return '`' + ' '.join(s.split()).replace('|', '\\|').replace('`', "'") + '`'
def main():
    o = ['# What the extraction does, unit by unit', '', 'Written by `tools/report.py` from the unit definitions. The general rewrites G1-G8 are described in DESIGN.md.',
         'A rewrite is applied to tokens; `$x` stands for any expression or argument list, `$id…` for an identifier, `$blk…` for a block. An empty right-hand side means the text is dropped.', '']
    for n in UNITS:
        u = importlib.import_module(n).build()
        text, lmap, fns, counts = u.build(set())
        o += ['## Unit `%s`' % n, '', '%d functions under contract.' % len(fns), '', '| function | file | properties | contract clauses | loop invariants |', '|---|---|---|---|---|']
        for f in fns:
            o.append('| %s | %s | %s | %d | %d |' % (f['fn'].strip(), f['file'], ' '.join(sorted(f['props'])), len(f['clauses']), f['invariants']))
        o += ['', 'Rewrites in the whole unit:', '']
        for a, b, w in u.rules:
            o.append('* %s → %s%s' % (q(a), q(b) if b.strip() else 'dropped', ' (%s)' % w if w else ''))
        per = {}
        for p in u.parts:
            if p[0] == 'fn':
                f = p[2]
                for r in f.rules or []:
                    per.setdefault((r[0], r[1]), []).append(f.name)
                if f.sig: per.setdefault(('signature', f.sig), []).append(f.name)
        o += ['', 'Rewrites in single functions:', '']
        for (a, b), names in per.items():
            names = sorted(set(names))
            o.append('* %s → %s in %s' % (q(a) if a != 'signature' else 'signature', q(b) if b.strip() else 'dropped', ', '.join(names) if len(names) < 9 else '%d functions' % len(names)))
        o += ['', 'Taken on trust (contracts without a proved body):', '']
        o += ['* ' + q(a) for a in verify.assumptions_of(text)]
        o.append('')
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'EXTRACTION.md'), 'w').write('\n'.join(o) + '\n')
main()
