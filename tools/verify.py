"""Build a unit from /repo, run Verus on it, and say what was proved, what failed and what is out of reach."""
import sys, os, re, json, subprocess, importlib, time
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'units')]
import vx

# messages of failed proof obligations; any other error means the extracted text is not accepted
PROOF_ERR = re.compile(r'postcondition not satisfied|precondition not satisfied|precondition of|assertion failed|invariant not satisfied|possible arithmetic (?:underflow|overflow)|possible (?:division by zero|bit shift)|decreases not satisfied|rlimit|Resource limit|unreachable|index out of bounds|possible .* overflow')

BUILD = '/verif/build/verus'

def run_verus(path, extra=()):
    cmd = ['verus', '--output-json', '--time', '--rlimit', '60', '--multiple-errors', '8'] + list(extra) + [path]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600, cwd=BUILD)
    except subprocess.TimeoutExpired:
        return cmd, None, 'verus timed out', time.time() - t
    out = p.stdout
    js = None
    i = out.find('{')
    if i >= 0:
        try:
            js = json.loads(out[i:])
        except Exception:
            try:
                js = json.JSONDecoder().raw_decode(out[i:])[0]
            except Exception:
                js = None
    return cmd, js, p.stderr, time.time() - t

def diag(stderr, fname):
    """[(message, primary line, all lines, block text)]"""
    res = []
    for b in re.split(r'\n(?=(?:error|warning|note)(?:\[|:))', '\n' + stderr):
        b = b.strip('\n')
        m = re.match(r'error(?:\[\w+\])?: (.*)', b)
        if not m or m.group(1).startswith('aborting'):
            continue
        lines = [int(x) for x in re.findall(r'(?:-->|:::) \S*%s:(\d+)' % re.escape(os.path.basename(fname)), b)]
        marks = [int(x) for x in re.findall(r'^\s*(\d+) \|', b, re.M)]
        res.append((m.group(1), lines[0] if lines else None, lines + marks, b))
    return res

def assumptions_of(text):
    """names of everything taken on trust in a generated file"""
    out, cur, ext = [], '', False
    for l in text.split('\n'):
        m = re.match(r'\s*impl(?:<[^>]*>)?\s+(?:.* for )?([\w<>]+)', l)
        if m:
            cur = m.group(1) + '::'
        elif l.startswith('}'):
            cur = ''
        if '#[verifier::external_body]' in l:
            ext = True
        m = re.search(r'\b(fn|struct) (\w+)', l)
        if ext and m:
            out.append('%s %s%s' % (m.group(1), cur if m.group(1) == 'fn' else '', m.group(2)))
            ext = False
    for m in re.finditer(r'assume_specification(?:<[^\[]*>)?\s*\[([^\]]+(?:\[[^\]]*\][^\]]*)*)\]', text):
        out.append('assume_specification %s' % m.group(1).strip())
    for m in re.finditer(r'\b(assume|admit)\s*\(', text):
        out.append('explicit ' + m.group(1))
    seen, res = set(), []
    for a in out:
        if a not in seen:
            seen.add(a); res.append(a)
    return res

def run_unit(name, vac=False):
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    r = {'unit': name, 'status': 'unreachable', 'reason': '', 'functions': [], 'failures': [], 'lost': {}, 'verified': 0, 'errors': 0, 'smt_ms': 0,
         'assumptions': [], 'rules': [], 'cmd': '', 'log': ''}
    try:
        mod = importlib.import_module(name)
        stubs = set()
        for it in range(10):
            u = mod.build()
            text, lmap, fns, counts = u.build(stubs)
            path = os.path.join(BUILD, name + '.rs')
            open(path, 'w').write(text)
            cmd, js, err, _ = run_verus(path)
            r['cmd'] = ' '.join(cmd); r['log'] = err[-12000:]
            r['functions'] = fns; r['rules'] = [{'pattern': p, 'replacement': q, 'why': w, 'uses': counts.get((p, q), 0)} for p, q, w in u.rules]
            r['assumptions'] = assumptions_of(text)
            vr = (js or {}).get('verification-results', {})
            ds = diag(err, path)
            bad = [d for d in ds if not PROOF_ERR.search(d[0])]
            if js and vr and not vr.get('encountered-vir-error') and vr.get('verified', 0) > 0 and not bad:
                break
            # not a verification run: put the offending functions out of reach and try again
            new = set()
            for msg, ln, lns, b in bad:
                if ln in lmap:
                    new.add(lmap[ln][0])
            new -= stubs
            if not new:
                r['reason'] = 'the verifier rejects the extracted file: ' + '; '.join(d[0] for d in ds[:3])
                return r
            stubs |= new
        else:
            r['reason'] = 'too many unsupported functions'
            return r
        r['lost'] = {'%s:%s' % (k[0], k[2]): v for k, v in u.lost.items()}
        r['lostkeys'] = set(u.lost)
        r['verified'], r['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        try:
            r['smt_ms'] = js['times-ms']['smt']['total']
        except Exception:
            pass
        for msg, ln, lns, b in ds:
            key, tags = lmap.get(ln, (None, None))
            und = 'rlimit' in msg or 'Resource limit' in msg
            if 'postcondition' not in msg and 'invariant' not in msg:
                tags = None
            r['failures'].append({'key': key, 'fn': ('%s:%s' % (key[0], key[2])) if key else 'line %s' % ln, 'tags': tags, 'message': msg, 'undecided': und, 'text': b[:1500]})
        r['status'] = 'done'
    except vx.ShapeError as e:
        r['reason'] = 'extraction: %s' % e
    except Exception as e:   # a broken unit is out of reach, not a violation
        r['reason'] = 'extraction error: %r' % e
    r['wall_s'] = time.time() - t0
    return r

def vacuity(name):
    """every contracted function with assert(false) at its start must fail; returns (functions, names that did not fail)"""
    mod = importlib.import_module(name)
    u = mod.build()
    text, lmap, fns, _ = u.build(vac=True)
    path = os.path.join(BUILD, name + '_vac.rs')
    open(path, 'w').write(text)
    cmd, js, err, _ = run_verus(path)
    failed = set()
    for msg, ln, lns, b in diag(err, path):
        if 'assertion failed' in msg and ln in lmap:
            failed.add(lmap[ln][0])
    return len(fns), [f['fn'] for f in fns if f['key'] not in failed]

if __name__ == '__main__':
    r = run_unit(sys.argv[1])
    print(r['status'], r['reason'], r['verified'], r['errors'], r['smt_ms'], r['lost'])
    for f in r['failures']:
        print(f['fn'], f['tags'], f['message'])
    print(len(r['assumptions']), r['assumptions'][:400])
    if len(sys.argv) > 2:
        print(vacuity(sys.argv[1]))
