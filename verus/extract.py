"""Turns functions of /repo into the dialect of Verus, mechanically, on every run.

What the translation drops or rewrites (nothing else is touched):
 * comments, attributes, `use` declarations, generic parameters and where clauses; `T`/`Self::Num` becomes the opaque
   scalar `R`, `Self::OutputPolyline` becomes `Polyline`, `&P` becomes `&Src` (a source known by its contract only),
   `Self` is instantiated with the type the function is emitted for;
 * `for PAT in EXPR { .. }` becomes a while loop over a counter and the item sequence of EXPR (or over the bounds of a range);
 * `EXPR.fold(init, |acc, PAT| e)` becomes the loop that `fold` is;
 * `opt.get_or_insert_with(|| e)` becomes `if opt.is_none() { opt = Some(e) }` and a borrow of the content;
 * `debug_assert!`, `assert!`, `panic!`, `unreachable!` become obligations that they never fire;
 * a visitor closure given to `visit_query_with_stack` becomes the body of a loop over the indexes the query visits, `return
   Control::Continue` its `continue` and `Control::Break(())` its `break`;
 * a closure that changes what it captures becomes a function with its captures as parameters; `try_cf!(e)` its expansion;
 * `self[i]` of Polyline becomes the extracted `Index::index`.
"""
import re


class Lost(Exception):
    """The text of the function is not one the translation knows."""


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith('/*', i):
                    d, i = d + 1, i + 2
                elif s.startswith('*/', i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


OPEN, CLOSE = '([{', ')]}'


def match(s, i):
    """index of the bracket closing the one at i"""
    d = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and re.match(r"'(\\.|[^\\'])'", s[i:]):
            i += len(re.match(r"'(\\.|[^\\'])'", s[i:]).group(0)) - 1
        elif c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Lost('unbalanced brackets')


def block(src, head):
    m = re.search(head + r'[^{;]*\{', src)
    if not m:
        raise Lost('no block ' + head)
    e = match(src, m.end() - 1)
    return src[m.end():e]


def func(blk, name):
    """(signature, body) of a function"""
    for m in re.finditer(r'\bfn\s+%s\b' % re.escape(name), blk):
        i = m.end()
        # past generics and the parameter list to the body
        d = 0
        while i < len(blk):
            if blk[i] in '([':
                i = match(blk, i)
            elif blk[i] == ';':
                break
            elif blk[i] == '{':
                e = match(blk, i)
                return blk[m.start():i], blk[i + 1:e]
            i += 1
    raise Lost('no function ' + name)


TYPES = 'PlineIntersectsCollection|FindIntersectsOptions|PlineBasicIntersect|PlineOverlappingIntersect|StaticAABB2DIndex|OverlappingSlice|PlineVertex|Vector2|AABB|ClosestPointResult|SplitResult|Polyline|PlineViewData|PlineView'


def types(s):
    s = re.sub(r'<Self::Num as \w+>::', 'R::', s)
    s = re.sub(r'Self::OutputPolyline', 'Polyline', s)
    s = re.sub(r'\b(%s)(::)?<\s*(Self::Num|T|P::Num)\s*>' % TYPES, r'\1', s)
    s = re.sub(r'\bSelf::Num\b|\bP::Num\b', 'R', s)
    s = re.sub(r'(num_traits::)?(real::)?\bReal::', 'R::', s)
    s = re.sub(r'\bT::', 'R::', s)
    s = re.sub(r'(?<![A-Za-z0-9_])T(?![A-Za-z0-9_])', 'R', s)
    s = re.sub(r'&\s*P\b', '&Src', s)
    s = re.sub(r"&'a\s+", '&', s)
    return s


def split_args(s):
    out, d, cur, bar = [], 0, '', 0
    quoted = False
    for c in s:
        if c == '"':
            quoted = not quoted
        if quoted:
            cur += c
            continue
        if c in OPEN:
            d += 1
        elif c in CLOSE:
            d -= 1
        elif c == '|' and d == 0:
            bar += 1
        if c == ',' and d == 0 and bar % 2 == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [a.strip() for a in out]


def asserts(s):
    while True:
        m = re.search(r'\b(debug_assert|assert|debug_assert_eq|assert_eq|debug_assert_ne|assert_ne|panic|unreachable)!\s*\(', s)
        if not m:
            return s
        e = match(s, m.end() - 1)
        a = split_args(s[m.end():e])
        k = m.group(1)
        if k in ('panic', 'unreachable'):
            r = 'unreached()'
        elif k.endswith('_eq'):
            r = 'if !(%s == %s) { unreached() }' % (a[0], a[1])
        elif k.endswith('_ne'):
            r = 'if !(%s != %s) { unreached() }' % (a[0], a[1])
        else:
            r = 'if !(%s) { unreached() }' % a[0]
        j = e + 1
        if k not in ('panic', 'unreachable') and s[j:j + 1] == ';':
            j += 1
        s = s[:m.start()] + r + s[j:]


def chain_start(s, i):
    """start of the method chain that ends at i (exclusive)"""
    while i > 0:
        j = i - 1
        while j >= 0 and s[j].isspace():
            j -= 1
        if j < 0:
            return 0
        if s[j] in CLOSE:
            d, k = 0, j
            while k >= 0:
                if s[k] in CLOSE:
                    d += 1
                elif s[k] in OPEN:
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            i = k
        elif s[j] == '.':
            i = j
        elif re.match(r'[A-Za-z0-9_:]', s[j]):
            k = j
            while k >= 0 and re.match(r'[A-Za-z0-9_:]', s[k]):
                k -= 1
            word = s[k + 1:j + 1]
            if word in ('return', 'in', 'let', 'mut', '='):
                return i
            i = k + 1
        else:
            return i
    return 0


def folds(s):
    while True:
        m = re.search(r'\.\s*fold\s*\(', s)
        if not m:
            return s
        e = match(s, m.end() - 1)
        st = chain_start(s, m.start())
        while s[st].isspace():
            st += 1
        a = split_args(s[m.end():e])
        c = re.match(r'\|\s*(\w+)\s*,\s*(.*?)\|\s*(.*)$', a[1] if len(a) == 2 else '', re.S)
        if not c:
            raise Lost('fold')
        recv = s[st:m.start()]
        s = s[:st] + '{ let mut %s = %s; for %s in %s { %s = %s; } %s }' % (
            c.group(1), a[0], c.group(2).strip(), recv, c.group(1), c.group(3), c.group(1)) + s[e + 1:]


def inserts(s):
    while True:
        m = re.search(r'(\w+)\s*\.\s*get_or_insert_with\s*\(', s)
        if not m:
            return s
        e = match(s, m.end() - 1)
        a = s[m.end():e].strip().rstrip(',').strip()
        v = m.group(1)
        if a.startswith('||'):
            a = a[2:].strip()
        elif re.fullmatch(r'\w+', a):
            a = a + '()'
        else:
            raise Lost('get_or_insert_with')
        s = s[:m.start()] + '{ if %s.is_none() { %s = Some(%s); } opt_mut(&mut %s) }' % (v, v, a, v) + s[e + 1:]


def loops(s, spec, info):
    """desugars for loops and adds the invariants"""
    out, i, k = '', 0, 0
    rx = re.compile(r'\b(for|while|loop)\b')
    while True:
        m = rx.search(s, i)
        if not m:
            return out + s[i:]
        # the body's opening brace
        j = m.end()
        while s[j] != '{':
            if s[j] in '([':
                j = match(s, j)
            j += 1
        e = match(s, j)
        k += 1
        lp = spec.get(k, {})
        head, body = s[m.end():j], s[j + 1:e]
        n = info['n'] = info.get('n', 0) + 1
        ci, cn, cs = 'i__%d' % n, 'n__%d' % n, 'it__%d' % n

        def sub(t):
            t = t.replace('$i', ci).replace('$n', cn).replace('$s', cs + '.sq()')
            for q, w in enumerate(info['mut']):
                t = t.replace('$m%d' % q, w)
            if re.search(r'\$m\d', t):
                raise Lost('an accumulator of the loop')
            return t
        inv = [sub(x) for x in lp.get('inv', [])]
        xinv = ' invariant_except_break %s,\n' % ',\n   '.join(sub(x) for x in lp['xinv']) if lp.get('xinv') else ''
        ens = ' ensures %s,\n' % ',\n   '.join(sub(x) for x in lp['ens']) if lp.get('ens') else ''
        top, bot = sub(lp.get('top', '')), sub(lp.get('bottom', ''))
        body = loops(body, {a - k: b for a, b in spec.items() if a > k}, info)
        inner = len(rx.findall(s[j + 1:e]))
        k += inner
        out += s[i:m.start()]
        if m.group(1) == 'for':
            f = re.match(r'\s*(.*?)\s+in\s+(.*?)\s*$', head, re.S)
            pat, ex = f.group(1), f.group(2)
            rg = re.match(r'(.*?)\.\.(=?)(.*)$', ex, re.S)
            if rg and '(' not in rg.group(1):
                out += 'let mut %s: usize = %s; let %s: usize = %s%s;\n' % (ci, rg.group(1), cn, rg.group(3), ' + 1' if rg.group(2) else '')
                inv = ['%s <= %s || %s == (%s)' % (ci, cn, ci, rg.group(1))] + inv
                take = 'let %s = %s;' % (pat, ci)
            else:
                out += 'let %s = %s; let mut %s: usize = 0; let %s: usize = %s.item_count();\n' % (cs, ex, ci, cn, cs)
                inv = ['%s <= %s' % (ci, cn), '%s == %s.sq().len()' % (cn, cs)] + inv
                take = 'let %s = %s.item(%s);' % (pat, cs, ci)
            out += '%s while %s < %s\n%s invariant %s,\n%s decreases %s - %s\n { %s %s %s += 1; %s %s }' % (
                sub(lp.get('before', '')), ci, cn, xinv, ',\n   '.join(inv), ens, cn, ci, top, take, ci, body, bot)
        else:
            if not inv:
                raise Lost('a loop without invariant')
            out += '%s %s %s\n%s invariant %s,\n%s decreases %s\n { %s %s %s }' % (
                sub(lp.get('before', '')), m.group(1), head, xinv, ',\n   '.join(inv), ens, sub(lp['dec']), top, body, bot)
        i = e + 1


def closures(s, spec):
    """adds the contracts of the closures, by name"""
    for name, c in spec.items():
        m = re.search(r'let\s+%s\s*=\s*\|' % name, s)
        if not m:
            raise Lost('no closure ' + name)
        st = m.end() - 1
        e = s.index('|', st + 1)
        if c.get('drop'):
            # the closure is replaced by an assumed function of the prelude
            t = s.index(';', closure_end(s, e + 1))
            s = s[:m.start()] + s[t + 1:]
            s = re.sub(r'\b%s\(' % name, c['drop'] + '(', s)
            continue
        ce = closure_end(s, e + 1)
        body = s[e + 1:ce].strip()
        q = re.match(r'->\s*([^{]*)\{', body)
        if q:
            body = body[q.end() - 1:]
        if not body.startswith('{'):
            body = '{ ' + body + ' }'
        s = s[:st] + s[st:e + 1] + ' -> ' + c['ret'] + ' ' + c['spec'] + ' ' + body + s[ce:]
    return s


def visitors(s, names):
    """a visitor given to the query of the spatial index becomes a loop over the indexes that the query visits"""
    for name in names:
        m = re.search(r'let\s+mut\s+%s\s*=\s*(?:move\s*)?\|\s*(\w+)\s*(?::\s*\w+\s*)?\|' % name, s)
        if not m:
            raise Lost('no visitor ' + name)
        e = closure_end(s, m.end())
        body = s[m.end():e].strip()
        if not body.startswith('{'):
            raise Lost('visitor ' + name)
        body = re.sub(r'\breturn\s+(\w+\s*::\s*)*Control::Continue\b', 'continue', body)
        body = re.sub(r'(\breturn\s+)?\b(\w+\s*::\s*)*Control::Break\(\(\)\)', 'break', body)
        body = re.sub(r'(\w+\s*::\s*)*\bControl::Continue\b', '()', body)
        body = re.sub(r'\breturn\s*;', 'continue;', body)
        s = s[:m.start()] + s[e + 1:]
        c = None
        for c in re.finditer(r'([\w.]+?)\s*\.\s*visit_query(?:_with_stack)?\s*\(', s):
            f = match(s, c.end() - 1)
            a = split_args(s[c.end():f])
            if len(a) >= 5 and re.fullmatch(r'&mut\s+%s' % name, a[4]):
                break
        else:
            raise Lost('no query with ' + name)
        j = f + 1
        if s[j:j + 1] == ';':
            j += 1
        s = s[:c.start()] + 'for %s in %s.hits_iter(%s) %s' % (m.group(1), c.group(1), ', '.join(a[:4]), body) + s[j:]
    return s


def lift(s, name, c):
    """a closure becomes a function with its captures as parameters; (text, the function's text)"""
    m = re.search(r'let\s+(?:mut\s+)?%s\s*=\s*(?:move\s*)?\|' % name, s)
    if not m:
        raise Lost('no closure ' + name)
    b = s.index('|', m.end())
    e = closure_end(s, b + 1)
    params, body = s[m.end():b].strip().rstrip(','), s[b + 1:e].strip()
    r = re.match(r'->\s*([^{]*)\{', body)
    if r:
        body = body[r.end() - 1:]
    if body.startswith('{') and match(body, 0) == len(body) - 1:
        body = body[1:-1]
    params = c.get('params', params)
    sig = 'fn %s__x(%s%s)%s' % (name, params + ', ' if params else '', c['caps'], ' -> ' + c['ret'] if c.get('ret') else '')
    t = translate(sig, body, {k: v for k, v in c.items() if k not in ('caps', 'args', 'ret', 'params')}, '')
    s = s[:m.start()] + s[e + 1:]
    out, i = '', 0
    for q in re.finditer(r'\b%s\s*\(' % name, s):
        f = match(s, q.end() - 1)
        a = s[q.end():f].strip().rstrip(',')
        out += s[i:q.start()] + '%s__x(%s%s)' % (name, a + ', ' if a else '', c['args'])
        i = f + 1
        if re.search(r'\b%s\s*\(' % name, a):
            raise Lost('nested calls of ' + name)
    return out + s[i:], t


def try_cf(s):
    while True:
        m = re.search(r'\btry_cf!\s*\(', s)
        if not m:
            return s
        e = match(s, m.end() - 1)
        s = s[:m.start()] + '{ let x__ = %s; if x__.should_break() { return x__; } }' % s[m.end():e] + s[e + 1:]


def closure_end(s, i):
    while i < len(s):
        if s[i] in OPEN:
            i = match(s, i)
        elif s[i] in ';':
            return i
        i += 1
    raise Lost('closure')


def translate(sig, body, spec, self_ty):
    for a, b in spec.get('gen', {}).items():
        sig, body = (re.sub(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % a, b, x) for x in (sig, body))
    sig, body = types(sig), types(body)
    sig = re.sub(r'\bwhere\b.*$', '', sig, flags=re.S)
    sig = re.sub(r"(fn\s+\w+)\s*<[^>(]*>", r'\1', sig)
    for a, b in spec.get('sig', []):
        sig = re.sub(a, b, sig)
    body = asserts(body)
    body = re.sub(r'\buse\s+[^;]*;', '', body)
    body = re.sub(r'#\[[^\]]*\]', '', body)
    body = re.sub(r'\bself\[([^\]]*)\]', r'*self.index(\1)', body)
    for a, b in spec.get('rewrite', []):
        body, n = re.subn(a, b, body, flags=re.S)
    body = try_cf(body)
    lifted = ''
    for a, b in spec.get('lift', {}).items():
        body, t = lift(body, a, b)
        lifted += t
    body = visitors(body, spec.get('visitors', []))
    body = folds(body)
    body = inserts(body)
    body = closures(body, spec.get('closures', {}))
    info = {'mut': re.findall(r'\blet\s+mut\s+(\w+)', body)}
    for t in spec.get('ghost', []):
        pass
    body = loops(body, spec.get('loops', {}), info)
    m = re.search(r'->\s*(.*?)\s*$', sig, re.S)
    if m and spec.get('ensures'):
        sig = sig[:m.start()] + '-> (r: %s)' % m.group(1)
    out = ''
    for a in spec.get('attrs', []):
        out += a + '\n'
    out += '#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\npub ' + sig.strip() + '\n'
    if spec.get('requires'):
        out += '    requires ' + ', '.join(spec['requires']) + ',\n'
    if spec.get('ensures'):
        out += '    ensures ' + ', '.join(spec['ensures']) + ',\n'
    if spec.get('probe'):
        # reachability of the end of the body: this assertion must fail
        if spec.get('end') is False:
            body = 'proof { assert(false); }\n' + body
        elif m:
            body = 'let out__ = {\n' + body + '\n}; proof { assert(false); } out__'
        else:
            body = body + '\n; proof { assert(false); }'
    out += '{ broadcast use {vec_lim, src_lim}; ' + spec.get('top', '') + '\n' + body + '\n}\n'
    return lifted + out
