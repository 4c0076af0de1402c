"""Measures obligations and functions per property on the current tree and puts them into DESIGN.md (`**C01 … (n/m`)."""
import sys, os, re
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')]
import verify
from registry import PROPS
res = {u: verify.run_unit(u) for u in sorted(set(u for p in PROPS.values() for u in p['units']))}
s = open('/verif/DESIGN.md').read()
for pid, p in PROPS.items():
    n = k = 0
    for u in p['units']:
        r = res[u]
        assert r['status'] == 'done' and not r['failures'] and not r['lostkeys'], (u, r['reason'], r['lost'], r['failures'])
        for f in r['functions']:
            if pid in f['props']:
                n += sum(1 for t in f['clauses'] if t is None or pid in t) + f['invariants'] + 1
                k += 1
    s = re.sub(r'(\*\*%s [^(*]*\()\d+/\d+' % pid, lambda m: m.group(1) + '%d/%d' % (n, k), s)
    print(pid, n, k)
open('/verif/DESIGN.md', 'w').write(s)
