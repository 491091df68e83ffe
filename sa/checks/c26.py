import os
import re

from .. import core, ffi

EXPLAIN = ('The exported functions of the C interface are read from the type-checked program (names, parameter and return types, status enumeration); the declarations and calls of native '
           'functions in the C#, Java, Python and Go wrappers are read from their syntax. Declarations are compared with the exports parameter by parameter, calls by the number and the names of '
           'their arguments, and the status enumeration value by value.')
RULE = ('every native function a wrapper declares or calls is exported with the same parameters in the same order with types of the same width and direction; status codes agree; every '
        'native status is handed to the routine that raises failures; a declared function is called, a method that calls one uses each of its parameters, no constant text is passed '
        'and a request field is filled with the value of that name')
ASSUME = ['rs_ffi is compiled against a stand-in for its generated flatbuffers module (see C25)',
          'the wrappers are read at the level of their syntax: their compilers are not installed']

# Rust parameter type -> C# types of the same width and direction
CS = {'text': {'string', 'IntPtr', 'nint', 'byte[]', 'byte*', 'sbyte*', 'void*'},
      'pointer': {'IntPtr', 'nint', 'byte*', 'void*', 'byte[]', 'UIntPtr', 'nuint'},
      'size': {'UIntPtr', 'nuint', 'IntPtr', 'nint'},
      'out': {'out IntPtr', 'ref IntPtr', 'IntPtr*', 'out nint', 'ref nint', 'nint*', 'void**'},
      'i8': {'sbyte'}, 'u8': {'byte'}, 'i16': {'short'}, 'u16': {'ushort'}, 'i32': {'int'}, 'u32': {'uint'}, 'i64': {'long'}, 'u64': {'ulong'}, 'bool': {'bool'}}


def kind(P, tid):
    t = P.types[tid]
    if t['k'] == 'ptr':
        if t.get('mut'):
            return 'out'
        return 'text' if P.types[t['t']]['s'] == 'i8' else 'pointer'
    if t['s'] in ('usize', 'isize'):
        return 'size'
    return t['s']


def plain(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)


def norm(s):
    s = re.sub(r'[^a-z0-9]', '', s.lower())
    return re.sub(r'^(optional|out|ffi)', '', s)


def files(d, ext):
    for r, ds, fs in os.walk(os.path.join(core.REPO, d)):
        ds[:] = sorted(x for x in ds if x not in ('bin', 'obj', 'node_modules', 'target', 'test', 'tests'))
        for f in sorted(fs):
            if f.endswith(ext):
                yield os.path.relpath(os.path.join(r, f), core.REPO), open(os.path.join(r, f), encoding='utf-8-sig', errors='replace').read()


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{<':
            d += 1
        elif ch in ')]}>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def args_at(s, i):
    """Text between the parenthesis at s[i] and the one closing it."""
    d = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0:
                return s[i + 1:j], j
    return s[i + 1:], len(s)


def run(ctx):
    P = ffi.program()
    if P is None:
        ctx.unknown('C interface', 'the interface crate does not compile against the schemas')
        return
    api = {}
    for f in ffi.exported(P):
        api[f.short.split('::')[-1]] = ([(f.locals[i][1] if len(f.locals[i]) > 1 else '', kind(P, f.locals[i][0])) for i in range(1, f.argc + 1)], kind(P, f.locals[0][0]))
    ctx.count('exported functions', len(api))
    ctx.need('exported functions', len(api), 11)
    decl = calls = 0
    for path, src in files('cs', '.cs'):
        s = plain(src)
        names = {}
        spans = []
        for m in re.finditer(r'\[DllImport\s*\(', s):
            attr, e = args_at(s, m.end() - 1)
            ep = re.search(r'EntryPoint\s*=\s*"(\w+)"', attr)
            d = re.compile(r'\s*\]\s*(?:\[[^\]]*\]\s*)*(?:(?:public|private|internal|protected|static|extern|unsafe|partial)\s+)*([\w.]+)\s+(\w+)\s*\(').match(s, e + 1)
            if not d:
                ctx.unknown('%s: declaration' % path, s[e:e + 60].strip())
                continue
            par, e2 = args_at(s, d.end() - 1)
            spans.append((m.start(), e2))
            names[d.group(2)] = ep.group(1) if ep else d.group(2)
            decl += 1
            declared(ctx, path, names[d.group(2)], d.group(1), split(par), api)
        for own, nat in names.items():
            if nat not in api:
                continue
            for m in re.finditer(r'\b%s\s*\(' % own, s):
                if any(a <= m.start() <= b for a, b in spans):
                    continue
                a, e = args_at(s, m.end() - 1)
                calls += 1
                called(ctx, path, nat, split(a), api)
                before = re.search(r'(\w+)\s*=\s*$', s[:m.start()])
                rest = s[e:e + 1500]
                use = re.search(r'ProcessStatusCode\s*\(\s*%s\b' % re.escape(before.group(1)), rest) if before else \
                    re.search(r'ProcessStatusCode\s*\(\s*$', s[:m.start()])
                if use:
                    ctx.ok('status handed on', '%s: %s' % (path, nat))
                else:
                    ctx.bad('%s: %s: status' % (path, nat), '%s: the status of %s is not handed to ProcessStatusCode, a failure goes unnoticed' % (path, nat))
        for own, nat in names.items():
            if nat in api:
                used = [m for m in re.finditer(r'\b%s\s*\(' % own, s) if not any(a <= m.start() <= b for a, b in spans)]
                if used or any(re.search(r'\b%s\s*\(' % own, plain(o)) for op, o in files('cs', '.cs') if op != path):
                    ctx.ok('declared and called', '%s: %s' % (path, nat))
                else:
                    ctx.bad('%s: %s: never called' % (path, nat), '%s declares %s but nothing of the wrapper calls it' % (path, nat))
        body_uses(ctx, path, s, set(names), spans)
        requests(ctx, path, s)
        status(ctx, P, path, s)
    for path, src in files('java', '.java'):
        for m in re.finditer(r'\bnative\s+(\w+)\s+(\w+)\s*\(([^)]*)\)', plain(src)):
            decl += 1
            if m.group(2) in api:
                n = len(split(m.group(3)))
                if n != len(api[m.group(2)][0]):
                    ctx.bad('%s: %s: parameters' % (path, m.group(2)), '%s declares %s with %d parameters instead of %d' % (path, m.group(2), n, len(api[m.group(2)][0])))
                else:
                    ctx.ok('declaration', '%s: %s' % (path, m.group(2)))
            else:
                ctx.bad('%s: %s: not exported' % (path, m.group(2)), '%s declares the native function %s, which the C interface does not export' % (path, m.group(2)))
    for d, ext, pre, line in (('python', '.py', r'draviavemal_openxml_office_ffi', '#'), ('go', '.go', r'\bC', '//')):
        for path, src in files(d, ext):
            s = plain(src) if line == '//' else re.sub(r'#[^\n]*', '', src)
            for m in re.finditer(pre + r'\.(\w+)\s*\(', s):
                if d == 'go' and re.match(r'(CString|GoString\w*|free|malloc|uint\w*|int\w*|char|size_t|uchar|bool)$', m.group(1)):
                    continue
                a, e = args_at(s, m.end() - 1)
                calls += 1
                called(ctx, path, m.group(1), split(a), api)
    ctx.count('native declarations', decl)
    ctx.count('native calls', calls)
    ctx.need('native declarations', decl, 9)


def declared(ctx, path, n, ret, params, api):
    if n not in api:
        ctx.bad('%s: %s: not exported' % (path, n), '%s declares the native function %s, which the C interface does not export' % (path, n))
        return
    want, wret = api[n]
    if ret not in CS.get(wret, {ret}):
        ctx.bad('%s: %s: status type' % (path, n), '%s declares %s to return %s, the C interface returns %s' % (path, n, ret, wret))
    else:
        ctx.ok('return type', '%s: %s' % (path, n))
    if len(params) != len(want):
        ctx.bad('%s: %s: parameters' % (path, n), '%s declares %s with %d parameters instead of %d' % (path, n, len(params), len(want)))
        return
    clean = []
    for p in params:
        p = re.sub(r'\[[A-Z][^\]]*\]', ' ', p)
        m = re.match(r'\s*((?:(?:out|ref|in)\s+)?[\w.]+(?:\[\]|\*+)?)\s+(\w+)\s*$', p)
        clean.append((re.sub(r'\s+', ' ', m.group(1)), m.group(2)) if m else None)
    for i, (c, (wn, wk)) in enumerate(zip(clean, want)):
        if c is None:
            ctx.unknown('%s: %s: parameter %d' % (path, n, i + 1), params[i][:60])
            continue
        ty = c[0].replace('System.', '')
        if ty not in CS.get(wk, {ty}):
            ctx.bad('%s: %s: parameter %s' % (path, n, wn), '%s declares parameter %d of %s (%s) as %s, the C interface takes a %s' % (path, i + 1, n, wn, ty, wk))
        else:
            ctx.ok('parameter type', '%s: %s %s' % (path, n, wn))
    order(ctx, path, n, [c[1] if c else '' for c in clean], want, 'declares')


def order(ctx, path, n, given, want, verb):
    """Names known on both sides stand at the same position."""
    pos = {norm(w): i for i, (w, k) in enumerate(want)}
    for i, g in enumerate(given):
        j = pos.get(norm(g))
        if j is not None and j != i and want[j][1] == want[i][1]:
            ctx.bad('%s: %s: order' % (path, n), '%s %s %s with %s at position %d, where the C interface takes %s' % (path, verb, n, g, i + 1, want[i][0]))
            return
    ctx.ok('order of parameters', '%s: %s' % (path, n))


def called(ctx, path, n, a, api):
    if n not in api:
        ctx.bad('%s: %s: not exported' % (path, n), '%s calls the native function %s, which the C interface does not export' % (path, n))
        return
    want = api[n][0]
    if len(a) != len(want):
        ctx.bad('%s: %s: arguments' % (path, n), '%s calls %s with %d arguments instead of %d' % (path, n, len(a), len(want)))
        return
    ctx.ok('number of arguments', '%s: %s' % (path, n))
    for x, (w, k) in zip(a, want):
        if re.match(r'\$?"', x) and k == 'text':
            ctx.bad('%s: %s: constant %s' % (path, n, w), '%s calls %s with the constant text %s for %s' % (path, n, x[:30], w))
    order(ctx, path, n, [(re.findall(r'\w+', x) or [''])[-1] for x in a], want, 'calls')


def body_uses(ctx, path, s, natives, spans):
    """A method that calls a native function makes use of each of its parameters."""
    for m in re.finditer(r'\b(?:public|private|internal|protected)\s+(?:(?:static|unsafe|override|virtual|async)\s+)*(?:[\w.<>\[\]?]+\s+)?(\w+)\s*\(', s):
        if any(a <= m.start() <= b for a, b in spans):
            continue
        par, e = args_at(s, m.end() - 1)
        i = s.find('{', e)
        if i < 0 or ';' in s[e:i] or '=>' in s[e:i]:
            continue
        d = 0
        for j in range(i, len(s)):
            d += {'{': 1, '}': -1}.get(s[j], 0)
            if d == 0:
                break
        body = s[i:j]
        if not any(re.search(r'\b%s\s*\(' % n, body) for n in natives):
            continue
        for x in split(par):
            x = x.split('=')[0].strip()
            nm = (re.findall(r'\w+', x) or [''])[-1]
            if nm and not re.search(r'\b%s\b' % nm, body):
                ctx.bad('%s: %s: %s unused' % (path, m.group(1), nm), '%s: %s never uses its parameter %s, the native call works on something else' % (path, m.group(1), nm))
            else:
                ctx.ok('parameter used', '%s: %s %s' % (path, m.group(1), nm))


def requests(ctx, path, s):
    """Builder.AddField(builder, value): the value is the one of that field."""
    every = {norm(m) for m in re.findall(r'\.Add(\w+)\s*\(\s*\w+\s*,', s)}
    for m in re.finditer(r'\.Add(\w+)\s*\(', s):
        a, e = args_at(s, m.end() - 1)
        a = split(a)
        if len(a) != 2 or not re.match(r'\w+$', a[0]):
            continue
        last = norm((re.findall(r'\w+', a[1]) or [''])[-1])
        if a[1].lstrip('( ').startswith('!') or last != norm(m.group(1)) and last in every:
            ctx.bad('%s: request field %s' % (path, m.group(1)), '%s fills the request field %s with %s' % (path, m.group(1), a[1]))
        else:
            ctx.ok('request field', '%s: %s' % (path, m.group(1)))


def members(body):
    got, nxt = {}, 0
    for x in split(body):
        y = re.match(r'(?:#\[[^\]]*\]\s*)*(\w+)\s*(?:=\s*(-?\d+))?$', x)
        if y:
            nxt = int(y.group(2)) if y.group(2) else nxt
            got[y.group(1)] = nxt
            nxt += 1
    return got


def codes():
    for path, src in files('rs_ffi/src', '.rs'):
        m = re.search(r'\benum\s+StatusCode\s*\{([^}]*)\}', plain(src))
        if m:
            return members(m.group(1))
    return {}


def status(ctx, P, path, s):
    """An enumeration of status codes agrees with the interface's, and every code but success raises."""
    m = re.search(r'\benum\s+(StatusCode\w*)\s*(?::\s*(\w+)\s*)?\{([^}]*)\}', s)
    if not m:
        return
    want = codes()
    if not want:
        ctx.unknown('status codes', 'the interface has no StatusCode enumeration')
        return
    got = members(m.group(3))
    for k, v in want.items():
        if got.get(k) == v:
            ctx.ok('status code', '%s = %d' % (k, v))
        elif k not in got:
            ctx.bad('%s: %s' % (path, k), '%s does not know the status %s (%d)' % (path, k, v))
        else:
            ctx.bad('%s: %s' % (path, k), '%s gives %s the value %d, the C interface %d' % (path, k, got[k], v))
    body = re.search(r'\bProcessStatusCode\s*\(', s)
    if body:
        i = s.find('switch', body.end())
        if i < 0:
            ctx.unknown('%s: ProcessStatusCode' % path, 'is not a switch over the status')
            return
        sw = s[s.find('{', i):]
        arms = re.findall(r'((?:(?:case\s+[\w.]+|default)\s*:\s*)+)(.*?)(?=\bcase\b|\bdefault\b|\Z)', sw, re.S)
        dflt = False
        for labels, b in arms:
            raises = bool(re.search(r'\bthrow\b', b))
            if 'default' in labels:
                dflt = raises
            for l in re.findall(r'case\s+(?:\w+\.)*(\w+)', labels):
                if l == 'Success':
                    if raises:
                        ctx.bad('%s: success raises' % path, 'ProcessStatusCode raises for success')
                    else:
                        ctx.ok('status raised', l)
                elif raises:
                    ctx.ok('status raised', l)
                else:
                    ctx.bad('%s: %s ignored' % (path, l), 'ProcessStatusCode does not raise for %s' % l)
        if not dflt:
            ctx.bad('%s: other status ignored' % path, 'ProcessStatusCode does not raise for a status without a case of its own')
        else:
            ctx.ok('status raised', 'default')
