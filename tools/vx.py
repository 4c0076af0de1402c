"""Mechanical extraction of Rust items from /repo into a Verus file.

Works on tokens.  The text of every extracted item is the text in /repo, changed only by the
rewrites listed below and by the rules a unit declares; each unit's rules are reported in the
evidence.  Anything the extraction cannot find or place is a ShapeError ("out of reach"), never
a failed obligation.

General rewrites (always applied, G1..G6):
 G1 comments, doc comments and attributes are dropped; a statement, match arm or field under a cfg for
    wasm32, upnp, ws (unless the unit has it on), test or verif is dropped with its attribute
 G2 log macros (trace! debug! info! warn! error!) are dropped, log_enabled!(..) becomes false
 G3 pub(crate)/pub(super) become pub; fields and functions become pub
 G4 `mut self: Pin<&mut Self>` and `self: Pin<&mut Self>` become `&mut self`
 G5 Pin::new(&mut X) and .as_mut() on it become X
 G7 `mut self` by value becomes `self` with `let mut this = self;` and self -> this in the body
 G8 a capturing closure that is only called in tail position of match arms is inlined there
 G6 the return type `-> T` is written `-> (ret: T)` so that contracts can name the result
"""
import re, os

class ShapeError(Exception):
    pass

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<com>//[^\n]*|/\*.*?\*/)
|(?P<str>b?r\#*"(?:.|\n)*?"\#*|b?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')
|(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
|(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9a-zA-Z_]*)?)
|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
|(?P<op><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
''', re.X | re.S)

class Tok:
    __slots__ = ('k', 't', 'ln', 'sp')
    def __init__(s, k, t, ln, sp):
        s.k, s.t, s.ln, s.sp = k, t, ln, sp
    def __repr__(s):
        return s.t

def lex(text):
    out, pos, ln, sp = [], 0, 1, ''
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ShapeError('lex error at line %d' % ln)
        k, t = m.lastgroup, m.group()
        if k in ('ws', 'com'):
            sp += t if k == 'ws' else ' '
        else:
            # split >> so that generics match
            if t in ('>>', '<<', '&&', '||', '>>=', '<<=') and k == 'op' and t[0] == '>':
                for i, c in enumerate(t):
                    out.append(Tok('op', c, ln, sp if i == 0 else ''))
                    sp = ''
            else:
                out.append(Tok(k, t, ln, sp))
            sp = ''
        ln += t.count('\n')
        pos = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k == 'op':
            if t in OPEN:
                depth += 1
            elif t in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise ShapeError('unbalanced bracket')

def render(toks):
    """text with the original spacing"""
    s = ''
    for t in toks:
        s += t.sp + t.t
    return s

LOGS = {'trace', 'debug', 'info', 'warn', 'error'}

CFG_OFF = {'#[cfg(feature="upnp")]', '#[cfg(feature="ws")]', '#[cfg(target_arch="wasm32")]', '#[cfg(all(not(target_arch="wasm32"),feature="upnp"))]', '#[cfg(verif)]', '#[cfg(test)]'}

def cfg_off(attr):
    return attr in CFG_OFF

def skip_piece(toks, i):
    """index behind the statement, match arm or field that starts at i"""
    while i < len(toks) and toks[i].t == '#':
        i = match_close(toks, i + 1) + 1
    while i < len(toks):
        t = toks[i]
        if t.k == 'op' and t.t in CLOSE:
            return i
        if t.t in (';', ','):
            return i + 1
        if t.k == 'op' and t.t in OPEN:
            i = match_close(toks, i) + 1
            if t.t == '{':
                n = toks[i].t if i < len(toks) else ''
                if n in (';', ','):
                    return i + 1
                if n not in ('=>', 'else', '.', '?', '=', 'in', 'if'):
                    return i
            continue
        i += 1
    return i

def strip_attrs_logs(toks, cfg=None):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
            j = match_close(toks, i + 1)
            off = cfg_off(''.join(x.t for x in toks[i:j + 1]))
            i = j + 1
            if off:
                i = skip_piece(toks, i)
            continue
        if t.t == '#' and i + 2 < len(toks) and toks[i + 1].t == '!' and toks[i + 2].t == '[':
            i = match_close(toks, i + 2) + 1
            continue
        if t.t == 'log' and i + 3 < len(toks) and toks[i + 1].t == '::' and toks[i + 2].t in LOGS and toks[i + 3].t == '!':
            i += 2
            continue
        if t.k == 'id' and t.t in LOGS and i + 2 < len(toks) and toks[i + 1].t == '!' and toks[i + 2].t in '([{':
            j = match_close(toks, i + 2)
            if j + 1 < len(toks) and toks[j + 1].t == ';':
                i = j + 2
                continue
            out.append(Tok('op', '(', t.ln, t.sp)); out.append(Tok('op', ')', t.ln, ''))
            i = j + 1
            continue
        if t.k == 'id' and t.t == 'log_enabled' and toks[i + 1].t == '!':
            j = match_close(toks, i + 2)
            out.append(Tok('id', 'false', t.ln, t.sp))
            i = j + 1
            continue
        out.append(t)
        i += 1
    return out

def pub_rewrite(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == 'pub' and i + 1 < len(toks) and toks[i + 1].t == '(' and toks[i + 2].t in ('crate', 'super', 'in', 'self'):
            out.append(t)
            i = match_close(toks, i + 1) + 1
            continue
        out.append(t)
        i += 1
    return out

# ---- token patterns: "a . $x ( $args )" ; $x matches one balanced non-empty run lazily
def compile_pat(p):
    # '$name' metavariables
    p2 = re.sub(r'\$(\w+)', r' __MV_\1 ', p)
    return lex(p2)

def match_at(toks, i, pat, pi=0, env=None):
    env = dict(env or {})
    while pi < len(pat):
        p = pat[pi]
        if p.k == 'id' and p.t.startswith('__MV_'):
            name = p.t[5:]
            if name in env:
                seg = env[name]
                if [x.t for x in toks[i:i + len(seg)]] != [x.t for x in seg]:
                    return None
                i += len(seg); pi += 1
                continue
            single = name.startswith('id')
            j = i
            while j < len(toks):
                t = toks[j]
                if t.k == 'op' and t.t in CLOSE:
                    break
                if single and t.k != 'id':
                    break
                if t.t == ';' and not name.startswith(('blk', 'optblk')):
                    break
                j = match_close(toks, j) + 1 if (t.k == 'op' and t.t in OPEN) else j + 1
                e2 = dict(env); e2[name] = toks[i:j]
                r = match_at(toks, j, pat, pi + 1, e2)
                if r is not None:
                    return r
                if single:
                    break
            # allow empty match when explicitly named e_*
            if name.startswith('opt'):
                e2 = dict(env); e2[name] = []
                return match_at(toks, i, pat, pi + 1, e2)
            return None
        if i >= len(toks) or toks[i].t != p.t:
            return None
        i += 1; pi += 1
    return i, env

def apply_rule(toks, pat, repl, counter=None):
    pat = compile_pat(pat)
    rep = compile_pat(repl)
    out, i, n = [], 0, 0
    while i < len(toks):
        r = match_at(toks, i, pat)
        if r is not None and r[0] > i:
            end, env = r
            first = True
            for t in rep:
                if t.k == 'id' and t.t.startswith('__MV_'):
                    seg = env[t.t[5:]]
                    seg = apply_rule(seg, render(pat).replace('__MV_', '$') if False else pat_src(pat), repl)[0] if seg else seg
                    for q, x in enumerate(seg):
                        sp = (toks[i].sp if first else (x.sp if q else ' '))
                        out.append(Tok(x.k, x.t, x.ln, sp)); first = False
                else:
                    out.append(Tok(t.k, t.t, toks[i].ln, toks[i].sp if first else (t.sp.replace('\n', ' '))))
                    first = False
            i = end; n += 1
            continue
        out.append(toks[i]); i += 1
    return out, n

def pat_src(pat):
    return re.sub(r'__MV_(\w+)', r'$\1', render(pat))

GENERAL = [
    ('mut self : Pin < & mut Self >', '& mut self'),
    ('self : Pin < & mut Self >', '& mut self'),
    ('Pin :: new ( & mut $a ) . as_mut ( )', '$a'),
    ('Pin :: new ( & mut $a ) . $idm (', '$a . $idm ('),
]

class Source:
    def __init__(self, root, rel, off=()):
        self.rel = rel
        p = os.path.join(root, rel)
        if not os.path.exists(p):
            raise ShapeError('file missing: ' + rel)
        self.toks = lex(open(p).read())
        self.toks = self.drop_test_mods(self.toks)
        if off:
            self.toks = self.drop_features(self.toks, {'#[cfg(feature="%s")]' % f for f in off})

    @staticmethod
    def open_mods(toks):
        """what is in a module written in the file, without the module around it"""
        out, i = [], 0
        while i < len(toks):
            if toks[i].t == 'mod' and i + 2 < len(toks) and toks[i + 2].t == '{':
                e = match_close(toks, i + 2)
                out += Source.open_mods(toks[i + 3:e])
                i = e + 1
                continue
            out.append(toks[i]); i += 1
        return out

    @staticmethod
    def set_features(toks, on):
        """what is under a cfg for a feature that the unit has on loses the cfg"""
        out, i = [], 0
        while i < len(toks):
            if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
                j = match_close(toks, i + 1)
                if ''.join(t.t for t in toks[i:j + 1]) in on:
                    i = j + 1
                    continue
            out.append(toks[i]); i += 1
        return out

    @staticmethod
    def drop_features(toks, off):
        """items under a cfg for a feature that the unit leaves out"""
        out, i = [], 0
        while i < len(toks):
            if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
                j = match_close(toks, i + 1)
                if ''.join(t.t for t in toks[i:j + 1]) in off:
                    k = j + 1
                    while toks[k].t not in ('{', ';') or toks[k - 1].t == '::':
                        k = match_close(toks, k) + 1 if toks[k].t in OPEN else k + 1
                    i = (match_close(toks, k) if toks[k].t == '{' else k) + 1
                    continue
            out.append(toks[i]); i += 1
        return out

    @staticmethod
    def drop_test_mods(toks):
        out, i = [], 0
        while i < len(toks):
            if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
                j = match_close(toks, i + 1)
                if ''.join(t.t for t in toks[i:j + 1]) == '#[cfg(test)]' and toks[j + 1].t == 'mod':
                    k = j + 1
                    while toks[k].t not in ('{', ';'):
                        k += 1
                    i = (match_close(toks, k) if toks[k].t == '{' else k) + 1
                    continue
            out.append(toks[i]); i += 1
        return out

    def top_items(self, toks=None):
        return toks if toks is not None else self.toks

    def find_item(self, kind, name):
        """struct/enum/const/type at any depth 0 position of the file"""
        T = self.toks
        depth, i = 0, 0
        while i < len(T):
            t = T[i]
            if t.k == 'op' and t.t in OPEN:
                i = match_close(T, i) + 1
                continue
            if t.t == kind and i + 1 < len(T) and T[i + 1].t == name:
                j = i
                while T[j].t not in ('{', ';', '('):
                    if T[j].t == '=':
                        while T[j].t != ';':
                            j = match_close(T, j) + 1 if T[j].t in OPEN else j + 1
                        break
                    j += 1
                if T[j].t == '{':
                    end = match_close(T, j)
                elif T[j].t == '(':
                    end = match_close(T, j) + 1   # tuple struct;
                else:
                    end = j
                return T[i:end + 1]
            i += 1
        raise ShapeError('%s %s not found in %s' % (kind, name, self.rel))

    def impls(self, header_match):
        """all impl blocks whose header (tokens joined by one space) satisfies the predicate"""
        T = self.toks
        i, res = 0, []
        while i < len(T):
            t = T[i]
            if t.t == 'impl' and t.k == 'id':
                j = i
                while T[j].t != '{':
                    j = match_close(T, j) + 1 if T[j].t in ('(', '[') else j + 1
                end = match_close(T, j)
                hdr = ' '.join(x.t for x in T[i:j])
                if header_match(hdr):
                    res.append((hdr, T[j + 1:end]))
                i = end + 1
                continue
            if t.k == 'op' and t.t in OPEN:
                i = match_close(T, i) + 1
                continue
            i += 1
        return res

    def find_fn_in(self, T, name):
        i = 0
        while i < len(T):
            t = T[i]
            if t.t == 'fn' and i + 1 < len(T) and T[i + 1].t == name:
                st = i
                while st > 0 and T[st - 1].t in ('pub', 'const', 'async', 'unsafe', ')', 'crate', 'super', '(', 'in'):
                    st -= 1
                j = i + 2
                while T[j].t not in ('{', ';'):
                    j = match_close(T, j) + 1 if T[j].t in ('(', '[') else j + 1
                if T[j].t == ';':
                    i = j + 1; continue
                end = match_close(T, j)
                return T[st:j], T[j:end + 1]
            if t.k == 'op' and t.t in OPEN:
                i = match_close(T, i) + 1
                continue
            i += 1
        return None

    def find_fn(self, impl_hdr, name):
        """impl_hdr: None for a free function, else regex searched in the impl header"""
        if impl_hdr is None:
            r = self.find_fn_in(self.toks, name)
            if r:
                return r
            # a function nested in another one
            for i in range(len(self.toks) - 1):
                if self.toks[i].t == 'fn' and self.toks[i + 1].t == name:
                    r = self.find_fn_in(self.toks[i:], name)
                    if r:
                        return r
        else:
            for hdr, body in self.impls(lambda h: re.fullmatch(impl_hdr, h) is not None):
                r = self.find_fn_in(body, name)
                if r:
                    return r
        raise ShapeError('fn %s (impl %s) not found in %s' % (name, impl_hdr, self.rel))

    def fn_names(self, impl_hdr):
        names = []
        for hdr, T in self.impls(lambda h: re.fullmatch(impl_hdr, h) is not None):
            i = 0
            while i < len(T):
                if T[i].t == 'fn':
                    names.append(T[i + 1].t)
                if T[i].k == 'op' and T[i].t in OPEN:
                    i = match_close(T, i) + 1
                    continue
                i += 1
        return names

def find_loops(body):
    """[(start index of loop keyword (or label), index of its '{')] in source order"""
    res, i = [], 0
    while i < len(body):
        t = body[i]
        if t.k == 'id' and t.t in ('while', 'loop', 'for'):
            if t.t == 'for' and i + 1 < len(body) and body[i + 1].t == '<':
                i += 1; continue
            j = i + 1
            while body[j].t != '{':
                j = match_close(body, j) + 1 if body[j].t in ('(', '[') else j + 1
            res.append((i, j))
        i += 1
    return res

def inline_closure(name):
    """G8: `let mut NAME = || -> T { B };` is removed and every call `NAME()` in arm-tail position becomes `{ B }`"""
    def go(body):
        pat = compile_pat('let mut %s = || -> $optt { $blkb } ;' % name)
        for i in range(len(body)):
            r = match_at(body, i, pat)
            if r:
                blk = r[1]['blkb']
                rest = body[:i] + body[r[0]:]
                break
        else:
            raise ShapeError('closure %s not found' % name)
        out, j = [], 0
        while j < len(rest):
            if rest[j].t == name and [t.t for t in rest[j + 1:j + 3]] == ['(', ')']:
                if rest[j + 3].t not in (',', '}'):
                    raise ShapeError('closure %s called outside tail position' % name)
                out += [Tok('op', '{', rest[j].ln, ' ')] + [Tok(t.k, t.t, t.ln, t.sp) for t in blk] + [Tok('op', '}', rest[j].ln, ' ')]
                j += 3
                continue
            out.append(rest[j]); j += 1
        return out
    return go

class Fn:
    """contract for one extracted function"""
    def __init__(self, impl, name, src=None, requires=(), ensures=(), loops=(), proof='', tail='', props=(),
                 rules=(), sig=None, rename=None, opts='', decreases=None, ret='ret', params=None, mode='', generics=None,
                 as_trait=False, at=(), pre=()):
        self.impl, self.name, self.src = impl, name, src
        self.requires, self.ensures, self.loops = list(requires), list(ensures), list(loops)
        self.proof, self.tail, self.props, self.rules = proof, tail, list(props), list(rules)
        self.sig, self.rename, self.opts, self.decreases, self.ret = sig, rename, opts, decreases, ret
        self.mode, self.as_trait, self.at, self.pre = mode, as_trait, list(at), list(pre)

class Loop:
    def __init__(self, header=None, invariant=(), decreases=None, start='', end='', after='', iso=True, ensures=(), except_break=(), itername=None, before=''):
        self.header, self.invariant, self.decreases = header, list(invariant), decreases
        self.start, self.end, self.after, self.ensures = start, end, after, list(ensures)
        self.except_break, self.itername, self.before = list(except_break), itername, before

def clause_lines(kw, clauses, tagmap, out):
    if not clauses:
        return
    out.append('    %s' % kw)
    for c in clauses:
        tags = None
        if isinstance(c, tuple):
            tags, c = c
        out.append(('CLAUSE', tags, '        %s,' % c.strip().rstrip(',')))

def desugar_ret(sig, ret):
    # find '->' at depth 0
    i, depth = 0, 0
    while i < len(sig):
        if sig[i].t in ('(', '['):
            i = match_close(sig, i) + 1
            continue
        if sig[i].t == '->':
            j = i + 1
            while j < len(sig) and sig[j].t != 'where':
                j += 1
            ty = sig[i + 1:j]
            pre = render(sig[:i]); post = render(sig[j:])
            return '%s -> (%s:%s)%s' % (pre, ret, render(ty), post)
        i += 1
    return render(sig)

def emit_fn(source, f, unit_rules, counts, stub=False, vac=False):
    sig, body = source.find_fn(f.impl, f.name)
    sig = pub_rewrite(strip_attrs_logs(sig)); body = strip_attrs_logs(body)
    for rule in f.pre:
        body = rule(body)
    for pat, rep in list(f.rules) + GENERAL + list(unit_rules):
        sig, n1 = apply_rule(sig, pat, rep)
        body, n2 = apply_rule(body, pat, rep)
        counts[(pat, rep)] = counts.get((pat, rep), 0) + n1 + n2
    if f.sig:
        sigtxt = f.sig
    else:
        if f.rename:
            for t in sig:
                if t.t == f.name and t.k == 'id':
                    t.t = f.rename; break
        sigtxt = desugar_ret(sig, f.ret).strip()
        if not f.as_trait and not sigtxt.startswith('pub'):
            sigtxt = 'pub ' + sigtxt
    if 'mut self' in sigtxt and '& mut self' not in sigtxt and '&mut self' not in sigtxt:
        # G7: `mut self` by value -> `self` plus `let mut this = self;`
        sigtxt = sigtxt.replace('mut self', 'self', 1)
        for t in body:
            if t.k == 'id' and t.t == 'self':
                t.t = 'this'
        if not f.proof.startswith('let mut this'):
            f.proof = 'let mut this = self; ' + f.proof
    if stub:
        out = ['#[verifier::external_body]', sigtxt]
        clause_lines('requires', f.requires, None, out)
        clause_lines('ensures', f.ensures, None, out)
        return out + ['{ unimplemented!() }']
    loops = find_loops(body)
    if len(loops) != len(f.loops):
        raise ShapeError('%s::%s has %d loops, contracts for %d' % (source.rel, f.name, len(loops), len(f.loops)))
    # anchors for loop headers
    for (st, br), L in zip(loops, f.loops):
        hdr = ' '.join(t.t for t in body[st:br])
        if L.header is not None:
            want = ' '.join(t.t for t in lex(L.header))
            if hdr != want:
                raise ShapeError('%s: loop header is `%s`, contract is for `%s`' % (f.name, hdr, want))
    # build output lines with markers
    out = []
    if f.opts:
        out.append(f.opts)
    out.append(sigtxt)
    clause_lines('requires', f.requires, None, out)
    clause_lines('ensures', f.ensures, None, out)
    if f.decreases:
        out.append('    decreases %s' % f.decreases)
    # insert loop contracts into body text
    ins_before, ins_after, ins_pre = {}, {}, {}
    for (st, br), L in zip(loops, f.loops):
        ins_before[br] = L
        ins_after[match_close(body, br)] = L
        ins_pre[st] = L
    txt = ['']
    def push(s): txt[-1] += s
    for i, t in enumerate(body):
        if i in ins_pre and ins_pre[i].before:
            push('\n' + ins_pre[i].before + '\n')
        if i in ins_before:
            L = ins_before[i]
            lines = []
            if L.except_break: clause_lines('invariant_except_break', L.except_break, None, lines)
            if L.invariant: clause_lines('invariant', L.invariant, None, lines)
            if L.ensures: clause_lines('ensures', L.ensures, None, lines)
            if L.decreases: lines.append('    decreases %s,' % L.decreases)
            txt.append(None); txt[-1] = ''
            for l in lines:
                txt.append(l)
            txt.append('')
            push(t.sp + t.t)
            if L.start: push('\n' + L.start + '\n')
            continue
        if i in ins_after:
            L = ins_after[i]
            if L.end: push('\n' + L.end + '\n')
            push(t.sp + t.t)
            if L.after: push('\n' + L.after + '\n')
            continue
        if i == len(body) - 1 and f.tail:
            push('\n' + f.tail + '\n')
        push(t.sp + t.t)
        if i == 0 and f.proof:
            push('\n' + f.proof + '\n')
        if i == 0 and vac:
            push('\nassert(false);\n')
        for pat, text in f.at:
            pass
        # for-loop iterator name
        if t.t == 'in':
            for (st, br), L in zip(loops, f.loops):
                if L.itername and st < i < br and body[st].t == 'for':
                    # first `in` after the for keyword at this nesting
                    if not any(x.t == 'in' for x in body[st:i]):
                        push(' %s:' % L.itername)
    out.extend(txt)
    return out

class Unit:
    def __init__(self, name, root='/repo'):
        self.name, self.root = name, root
        self.parts = []        # ('text', str) | ('item', ...) | ('fn', Fn) | ('open', text) | ('close', text)
        self.rules = []        # (pattern, replacement, why)
        self.srcs = {}
        self.dropped = []
        self.lost = {}
        self.off = ()          # features left out
        self.on = ()           # features that are on in this unit and off in the others
        self.inner = ()        # files whose inline modules are looked into
    def src(self, rel):
        if rel not in self.srcs:
            self.srcs[rel] = Source(self.root, rel, self.off)
            if self.on:
                self.srcs[rel].toks = Source.set_features(self.srcs[rel].toks, {'#[cfg(feature="%s")]' % f for f in self.on})
            if rel in self.inner:
                self.srcs[rel].toks = Source.open_mods(self.srcs[rel].toks)
        return self.srcs[rel]
    def rule(self, pat, rep, why=''):
        self.rules.append((pat, rep, why))
    def text(self, s):
        self.parts.append(('text', s))
    def item(self, rel, kind, name, derive='', post=None, fields_pub=True, rules=()):
        self.parts.append(('item', rel, kind, name, derive, post, rules))
    def fn(self, rel, f):
        self.parts.append(('fn', rel, f))
    def impl(self, header, rel, fns):
        self.parts.append(('text', header + ' {'))
        for f in fns:
            self.parts.append(('fn', rel, f))
        self.parts.append(('text', '}'))

    def build(self, stubs=(), vac=False):
        """returns (text, linemap) ; linemap: line -> (function key, tags or None)"""
        lines, lmap, fnlist, counts = [], {}, [], {}
        def add(s, key=None, tags=None):
            for l in s.split('\n'):
                lines.append(l)
                if key:
                    lmap[len(lines)] = (key, tags)
        rules = [(p, r) for p, r, _ in self.rules]
        self.lost = {}
        for part in self.parts:
            if part[0] == 'text':
                add(part[1])
            elif part[0] == 'item':
                _, rel, kind, name, derive, post, irules = part
                toks = self.src(rel).find_item(kind, name)
                toks = pub_rewrite(strip_attrs_logs(toks))
                for pat, rep in list(irules) + GENERAL + rules:
                    toks, n = apply_rule(toks, pat, rep)
                    counts[(pat, rep)] = counts.get((pat, rep), 0) + n
                if kind == 'struct':
                    toks = fields_pub(toks)
                t = (derive + '\n' if derive else '') + 'pub ' + render(toks).strip()
                if post:
                    t = post(t)
                add(t)
            else:
                _, rel, f = part
                key = (rel, f.impl or '', f.name)
                start = len(lines) + 1
                try:
                    outl = emit_fn(self.src(rel), f, rules, counts, key in stubs, vac)
                except ShapeError as e:
                    self.lost[key] = str(e)
                    try:
                        outl = emit_fn(self.src(rel), f, rules, counts, True)
                    except ShapeError as e2:
                        self.lost[key] = str(e2)
                        outl = []
                if key in stubs:
                    self.lost.setdefault(key, 'uses a construct the verifier does not support')
                for l in outl:
                    if isinstance(l, tuple):
                        add(l[2], key, l[1])
                    else:
                        add(l, key)
                fnlist.append({'fn': (re.sub(r'\s+', ' ', f.impl) + ' / ' if f.impl else '') + f.name, 'file': rel,
                               'key': key, 'start': start, 'end': len(lines), 'props': f.props,
                               'requires': len(f.requires), 'clauses': [(c[0] if isinstance(c, tuple) else None) for c in f.ensures], 'loops': len(f.loops), 'invariants': sum(len(l.invariant) + len(l.ensures) + len(l.except_break) + 1 for l in f.loops)})
        return '\n'.join(lines) + '\n', lmap, fnlist, counts

def fields_pub(toks):
    # make struct fields pub
    for i, t in enumerate(toks):
        if t.t in ('{', '('):
            end = match_close(toks, i)
            kind = t.t
            inner = toks[i + 1:end]
            out, j, depth, start = [], 0, 0, True
            while j < len(inner):
                x = inner[j]
                if start:
                    if x.t != 'pub':
                        out.append(Tok('id', 'pub', x.ln, x.sp)); out.append(Tok(x.k, x.t, x.ln, ' '))
                    else:
                        out.append(x)
                    start = False
                    j += 1
                    if x.t in OPEN:
                        e = match_close(inner, j - 1)
                        out.extend(inner[j:e + 1]); j = e + 1
                    continue
                if x.t in OPEN:
                    e = match_close(inner, j)
                    out.extend(inner[j:e + 1]); j = e + 1
                    continue
                if x.t == '<': depth += 1
                if x.t == '>': depth -= 1
                out.append(x)
                if x.t == ',' and depth == 0:
                    start = True
                j += 1
            return toks[:i + 1] + out + toks[end:]
    return toks
