"""Mechanical extraction of Rust functions from /repo's working tree into a single Verus file.

What the extraction does, and nothing else:
  * locates `fn NAME` (inside the `impl`/`trait` whose header matches, when one is given) and takes its
    parameter list, return type and body from the current source text;
  * drops comments, attributes, visibility and generic parameters/where clauses listed by the unit;
  * rewrites panicking macros to a call with precondition `false`
        assert!(c)            -> if !(c) { vpanic(); }
        debug_assert!(c)      -> if !(c) { vpanic(); }      (so a debug assertion is an obligation)
        assert_eq!(a,b)       -> if !((a) == (b)) { vpanic(); }
        panic!/unreachable!() -> vpanic()
  * rewrites `T::from(e)` for primitive integer T to `((e) as T)` (only widening `From`s exist in Rust);
  * applies the unit's own substitutions (each printed in the evidence);
  * inserts the contract (requires/ensures), a proof block at function entry, and loop invariants by loop number.
Anything it cannot find raises Lost, which the driver treats as "contract not applicable", never as an alarm.
"""
import re, os

class Lost(Exception):
    pass

def strip_comments(src):
    out = []
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            if j < 0: j = n
            i = j
        elif src.startswith('/*', i):
            d = 1; i += 2
            while i < n and d:
                if src.startswith('/*', i): d += 1; i += 2
                elif src.startswith('*/', i): d -= 1; i += 2
                else: i += 1
            out.append(' ')
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                if src[j] == '\\': j += 1
                j += 1
            out.append(src[i:j+1]); i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m:
                out.append(m.group(0)); i += len(m.group(0))
            else:
                out.append(c); i += 1
        else:
            out.append(c); i += 1
    return ''.join(out)

PAIRS = {'(': ')', '{': '}', '[': ']'}

def match(src, i):
    """index just after the bracket closing src[i]"""
    st = []
    n = len(src)
    while i < n:
        c = src[i]
        if c == '"':
            i += 1
            while src[i] != '"':
                if src[i] == '\\': i += 1
                i += 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", src[i:])
            if m: i += len(m.group(0)) - 1
        elif c in PAIRS:
            st.append(PAIRS[c])
        elif c in ')}]':
            if not st or st[-1] != c: raise Lost('unbalanced')
            st.pop()
            if not st: return i + 1
        i += 1
    raise Lost('unbalanced')

def split_top(s, sep=','):
    parts = []; depth = 0; cur = ''; ang = 0
    for ch in s:
        if ch in '([{': depth += 1
        elif ch in ')]}': depth -= 1
        elif ch == '<': ang += 1
        elif ch == '>' and ang > 0 and not cur.endswith('-'): ang -= 1
        if ch == sep and depth == 0 and ang == 0:
            parts.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): parts.append(cur)
    return parts

def split_args(s):
    parts = []; depth = 0; cur = ''
    for ch in s:
        if ch in '([{': depth += 1
        elif ch in ')]}': depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): parts.append(cur)
    return parts

def norm(s):
    return re.sub(r'\s+', ' ', s).strip()

def find_impl(src, header):
    """header: regex matched (search) against the whitespace-normalised text between `impl`/`trait` and `{`"""
    res = []
    for m in re.finditer(r'\b(impl|trait)\b', src):
        j = m.end()
        # header end: first '{' at bracket depth 0
        k = j; depth = 0
        while k < len(src) and not (src[k] == '{' and depth == 0):
            if src[k] in '([': depth += 1
            if src[k] in ')]': depth -= 1
            if src[k] == ';' and depth == 0: break
            k += 1
        if k >= len(src) or src[k] != '{': continue
        if re.search(header, norm(src[m.start():k])):
            res.append((k, match(src, k)))
    return res

class Src:
    cache = {}
    def __init__(self, root):
        self.root = root
        self.c = {}
    def get(self, f):
        if f not in self.c:
            p = os.path.join(self.root, f)
            if not os.path.exists(p): raise Lost('no file ' + f)
            self.c[f] = strip_comments(open(p, encoding='utf-8', errors='replace').read())
        return self.c[f]

def rewrite_macros(body):
    changed = True
    pat = re.compile(r'\b(debug_assert_eq|assert_eq|debug_assert_ne|assert_ne|debug_assert|assert|panic|unreachable)!\s*\(')
    while True:
        m = pat.search(body)
        if not m: return body
        op = m.end() - 1
        cl = match(body, op)
        args = split_args(body[op+1:cl-1])
        end = cl
        name = m.group(1)
        if name in ('panic', 'unreachable'):
            rep = 'vpanic()'
        elif name.endswith('assert'):
            rep = 'if !(%s) { vpanic(); }' % args[0].strip()
        elif name.endswith('_eq'):
            rep = 'if !((%s) == (%s)) { vpanic(); }' % (args[0].strip(), args[1].strip())
        else:
            rep = 'if (%s) == (%s) { vpanic(); }' % (args[0].strip(), args[1].strip())
        if name not in ('panic', 'unreachable'):
            k = end
            while k < len(body) and body[k] in ' \t\n': k += 1
            if k < len(body) and body[k] == ';': end = k + 1
        body = body[:m.start()] + rep + body[end:]

INT = r'(?:i8|u8|i16|u16|i32|u32|i64|u64|usize|isize|u128|i128|Prob)'
def rewrite_from(body):
    pat = re.compile(r'(?<![\w:])(%s)::from\s*\(' % INT)
    while True:
        m = pat.search(body)
        if not m: return body
        op = m.end() - 1
        cl = match(body, op)
        body = body[:m.start()] + '((%s) as %s)' % (body[op+1:cl-1], m.group(1)) + body[cl:]

def ext_posts(spec):
    """equalities in postconditions are compared extensionally (the same meaning, but the proof does not hinge on how a value was put together)"""
    a, e, b = spec.partition('ensures')
    return a + e + re.sub(r'(@|\bkb\(\*final\(self\)\)) ==(?![=>])', r'\1 =~~=', b)

class Fn:
    def __init__(self, file, name, impl=None, spec='', start='', loops=(), subs=(), ret='r', rename=None,
                 before=(), attrs='', selfty=None, nth=0, ghost='', drop_generics=True, psubs=(), split=None, extra=''):
        self.__dict__.update(locals())

    def emit(self, src, log):
        if not self.split: return self.emit1(src, log)
        # mechanical case split: the same text once per case, each with the case assumed at the top of loop number k; one more copy
        # assumes that no case holds. Every path through the loop body is in one of the copies. Callers see a body-less stub.
        k, cases = self.split; out = []; loops = list(self.loops); log2 = []
        for i, c in enumerate(list(cases) + [' && '.join('!(%s)' % x for x in cases)]):
            it = loops[k] if not isinstance(loops[k], str) else (loops[k], '')
            lp = loops[:k] + [(it[0], 'proof { assume(%s); } ' % c + it[1])] + loops[k+1:]
            g = Fn(**{**{x: y for x, y in self.__dict__.items() if x not in ('self', '__class__')}, 'split': None, 'loops': lp, 'rename': '%s_case_%d' % (self.name, i)})
            out.append(g.emit1(src, log if i == 0 else log2)); sig = g.sig
        out.append('#[verifier::external_body] fn %s%s { unimplemented!() }' % (self.rename or self.name, sig))
        return '\n'.join(out)
    def emit1(self, src, log):
        text = src.get(self.file)
        ranges = find_impl(text, self.impl) if self.impl else [(0, len(text))]
        if not ranges: raise Lost('impl %s not found in %s' % (self.impl, self.file))
        hits = []
        for (a, b) in ranges:
            for m in re.finditer(r'\bfn\s+%s\b' % re.escape(self.name), text[a:b]):
                i = a + m.end()
                # generics
                while text[i].isspace(): i += 1
                if text[i] == '<':
                    d = 0
                    while True:
                        if text[i] == '<': d += 1
                        if text[i] == '>' and text[i-1] != '-':
                            d -= 1
                            if d == 0: i += 1; break
                        i += 1
                while text[i].isspace(): i += 1
                if text[i] != '(': continue
                pe = match(text, i)
                params = text[i+1:pe-1]
                k = pe
                depth = 0
                while not (text[k] in '{;' and depth == 0):
                    if text[k] in '([': depth += 1
                    if text[k] in ')]': depth -= 1
                    k += 1
                if text[k] == ';': continue   # declaration only
                hdr = text[pe:k]
                be = match(text, k)
                # skip test / cfg'd out variants
                pre = text[max(0, a + m.start() - 200):a + m.start()]
                attrs = re.findall(r'#\[[^\]]*\]', pre.rsplit('}', 1)[-1].rsplit(';', 1)[-1])
                hits.append((params, hdr, text[k:be], attrs))
        want = [h for h in hits if not any(('feature="simd"' in a or 'feature="avoid-divide"' in a) and 'not(' not in a
                                           for a in h[3])]
        if len(want) <= self.nth: raise Lost('fn %s not found in %s' % (self.name, self.file))
        params, hdr, body, _ = want[self.nth]
        hdr = hdr.split('where')[0].strip()
        rt = hdr[2:].strip() if hdr.startswith('->') else ''
        ps = [norm(p) for p in split_top(params) if norm(p)]
        pnames = []
        for p in ps:
            if re.match(r"^(&\s*('\w+\s+)?)?(mut\s+)?self$", p): continue
            mm = re.match(r'^(mut\s+)?(\w+)\s*:', p)
            if not mm: raise Lost('parameter pattern %s' % p)
            pnames.append(mm.group(2))
        mutparams = [mm.group(1) for p in ps for mm in [re.match(r'^mut\s+(\w+)\s*:', p)] if mm]
        body = re.sub(r'#\[[^\]]*\]', '', body)
        body = rewrite_macros(body)
        body = rewrite_from(body)
        sig = ', '.join(re.sub(r'^mut\s+(\w+\s*:)', r'\1', p) for p in ps)
        for (r, t) in list(self.subs):
            nb = re.sub(r, t, body)
            if nb != body: log.append('%s: s/%s/%s/' % (self.name, r, t))
            body = nb
        for (r, t) in list(self.subs) + list(self.psubs):
            sig = re.sub(r, t, sig); rt = re.sub(r, t, rt)
        body = rewrite_from(body)
        if self.extra:   # ghost-state parameter threaded through by the unit (after the receiver, before the source's own)
            mm = re.match(r"^((?:&\s*(?:'\w+\s+)?)?(?:mut\s+)?self)\b\s*,?\s*", sig)
            sig = ', '.join(x for x in ([mm.group(1), self.extra, sig[mm.end():]] if mm else [self.extra, sig]) if x.strip())
        if re.match(r'^mut\s+self\b', sig):   # by-value mutable receiver: `let mut this = self`
            sig = re.sub(r'^mut\s+self', 'self', sig)
            body = '{ let mut this = self;' + re.sub(r'\bself\b', 'this', body[1:])
        if mutparams:
            body = '{' + ''.join(' let ghost %s_0 = %s; let mut %s = %s;' % (x, x, x, x) for x in mutparams) + body[1:]
        def pos(t, loopvars=()):
            t = re.sub(r'\$(\d+)', lambda mm: pnames[int(mm.group(1)) - 1] if int(mm.group(1)) <= len(pnames) else self._lost(), t)
            return t
        # proof blocks before matched statements
        for (rx, t) in self.before:
            ms = list(re.finditer(rx, body))
            if not ms: raise Lost('%s: anchor /%s/ lost' % (self.name, rx))
            for m in reversed(ms):
                tt = m.expand(t) if '\\' in t else t
                body = body[:m.start()] + ' ' + pos(tt) + ' ' + body[m.start():]
        # loops
        if self.loops:
            outb = ''; i = 0; n = 0
            lp = re.compile(r'\b(while|for|loop)\b')
            idx = 0
            while True:
                m = lp.search(body, idx)
                if not m: break
                k = m.end(); depth = 0
                while not (body[k] == '{' and depth == 0):
                    if body[k] in '([': depth += 1
                    if body[k] in ')]': depth -= 1
                    k += 1
                if n >= len(self.loops): raise Lost('%s: more loops than contracted' % self.name)
                item = self.loops[n]
                if isinstance(item, str): item = (item, '')
                inv = pos(item[0]); lstart = pos(item[1])
                head = norm(body[m.start():k])
                mv = re.match(r'for\s+(\w+)\s+in', head)
                if '$i' in inv:
                    if not mv: raise Lost('%s: loop %d shape' % (self.name, n))
                    inv = inv.replace('$i', mv.group(1))
                if mv: lstart = lstart.replace('$i', mv.group(1))
                ins = '\n' + inv + '\n'
                # lstart: ghost code at the top of the loop body
                body = body[:k] + ins + '{' + (' ' + lstart if lstart else '') + body[k+1:]
                idx = k + len(ins) + 1 + (len(lstart) + 1 if lstart else 0)
                n += 1
            if n != len(self.loops): raise Lost('%s: %d loops, %d contracted' % (self.name, n, len(self.loops)))
        elif re.search(r'\b(while|for|loop)\b', body):
            raise Lost('%s: loop without contract' % self.name)
        start = pos(self.start)
        if start: body = '{\n proof { %s }\n' % start + body[1:]
        if self.ghost: body = '{ ' + pos(self.ghost) + body[1:]
        rets = '' if not rt else ' -> (%s: %s)' % (self.ret, rt)
        spec = ext_posts(pos(self.spec))
        self.sig = '(%s)%s\n%s\n' % (sig, rets, spec)
        return '%s fn %s(%s)%s\n%s\n%s\n' % (self.attrs, self.rename or self.name, sig, rets, spec, body)

    def _lost(self):
        raise Lost('%s: parameter count changed' % self.name)

HEAD = '''// GENERATED on every run from %s by /verif/tools/vextract.py -- do not edit
#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type Prob = i16;
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
'''

def build(unit, root='/repo'):
    """unit: list of str | Fn. returns (text, log, fnames)"""
    src = Src(root)
    log = []; fns = []
    out = [HEAD % root]
    for u in unit:
        if isinstance(u, str): out.append(u)
        elif isinstance(u, Fn):
            out.append('// --- extracted from %s: fn %s' % (u.file, u.name))
            out.append(u.emit(src, log)); fns.append('%s::%s' % (u.file, u.name))
        else:
            out.append(u(src))
    out.append('} // verus!\nfn main() {}\n')
    return '\n'.join(out), log, fns
