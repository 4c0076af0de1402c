"""Rewrites MANIFEST.json from the registry."""
import json, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS
NA = {
 'C28': 'The order of user callbacks is produced by several tasks scheduled concurrently by the runtime; no deductive verifier here reasons about that schedule, and a sampled run would not decide it.',
 'C29': 'Termination of a service whatever peers and handlers do is a liveness property over an asynchronous scheduler, outside contract-based verification of sequential code.',
 'C30': 'Needs reasoning about interleavings of atomics across threads in unsafe code; Verus would need the queue rewritten with its own atomics, and Kani does not support concurrency. The single-threaded histories are C21.',
 'C32': 'A cryptographic assumption about the primitives, not a property of this code. What the code must do itself is C11 to C15.',
}
def main():
    commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
    hooks = [c.split()[0] for c in commits if c.split(' ', 1)[1].startswith('verif:')]
    m = {'version': 1, 'setup_cmd': 'bin/check setup', 'hooks': {'guard': 'cfg(verif)', 'enable': 'RUSTFLAGS="--cfg verif" when building the harness crates (bin/check does this)', 'source_commits': hooks},
         'checks': [], 'not_applicable': [], 'notes': 'Each check extracts the real functions from /repo, has Verus discharge their contracts, and executes the real crate against a reference model; see DESIGN.md.'}
    ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    for i in ids:
        if i in PROPS:
            p = PROPS[i]
            c = {'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s' % i, 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
            if p['theorems'] and p['level'] == 'proof': c['theorems'] = p['theorems']
            m['checks'].append(c)
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Not built yet.')})
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
main()
