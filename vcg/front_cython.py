"""Cython -> Python AST, mechanically: what is dropped is exactly the C type annotations (kept as the sorts of the variables),
`cimport`s, `cdef extern` declarations, the cython decorators, `nogil`/`with nogil, parallel()` and pointer casts.  Statements
and expressions are untouched."""
import ast, re

TYPES = r'(?:const\s+)?(?:unsigned\s+|signed\s+)?(?:long\s+long|long\s+double|np\.\w+|cnp\.\w+|int|long|short|char|float|double|bint|Py_ssize_t|size_t|object|list|dict|tuple|str|void|unsigned|\w+_t)'
DECL = re.compile(r'^(?:inline\s+)?(?P<ty>%s)\s*(?P<mem>\[[\s:,0-9]*\])?\s*(?P<rest>[*\w].*)$' % TYPES, re.S)


def kind(ty, mem, star):
    if mem or star:
        return None
    ty = ty.replace('const', '').strip()
    if ty in ('float', 'double', 'long double') or 'float' in ty:
        return 'float'
    if ty == 'bint':
        return 'bool'
    if ty in ('object', 'list', 'dict', 'tuple', 'str', 'void'):
        return None
    return 'int'


def logical_lines(src):
    """physical lines joined while brackets are open or a backslash ends the line; strings are respected"""
    out, buf, depth, i, n = [], '', 0, 0, len(src)
    quote = None
    while i < n:
        c = src[i]
        if quote:
            if src.startswith(quote, i) :
                buf += quote
                i += len(quote)
                quote = None
                continue
            if c == '\\':
                buf += src[i:i + 2]
                i += 2
                continue
            buf += c
            i += 1
            continue
        if c in '"\'':
            quote = src[i:i + 3] if src[i:i + 3] in ('"""', "'''") else c
            buf += quote
            i += len(quote)
            continue
        if c == '#':
            while i < n and src[i] != '\n':
                i += 1
            continue
        if c == '\\' and i + 1 < n and src[i + 1] == '\n':
            buf += ' '
            i += 2
            continue
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == '\n':
            if depth > 0:
                buf += ' '
            else:
                out.append(buf)
                buf = ''
            i += 1
            continue
        buf += c
        i += 1
    if buf:
        out.append(buf)
    return out


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def strip_casts(s):
    return re.sub(r'<\s*(?:const\s+)?(?:unsigned\s+)?[A-Za-z_][\w. ]*\s*\**\s*>\s*(?=[A-Za-z_(])', '', s)


def params(s, types):
    res = []
    for p in split_top(s):
        default = None
        parts = split_top(p, '=')
        if len(parts) == 2:
            p, default = parts
        m = DECL.match(p)
        if m and re.match(r'^\**\w+$', m.group('rest').strip()):
            nm = m.group('rest').strip()
            k = kind(m.group('ty'), m.group('mem'), nm.startswith('*'))
            nm = nm.lstrip('*')
            if k:
                types[nm] = k
            p = nm
        elif re.match(r'^[\w.]+\s+\w+$', p):
            p = p.split()[-1]
        res.append(p + ('=' + default if default is not None else ''))
    return ', '.join(res)


def cython_to_python(src):
    """-> (python source, {function name: {variable: kind}})"""
    lines = logical_lines(src)
    out, types, fn = [], {}, []
    skip = None
    for ln in lines:
        if not ln.strip():
            continue
        ind = len(ln) - len(ln.lstrip())
        s = ln.strip()
        if skip is not None:
            if ind > skip:
                continue
            skip = None
        while fn and ind <= fn[-1][0]:
            fn.pop()
        cur = types.setdefault(fn[-1][1], {}) if fn else {}
        pad = ' ' * ind
        if re.match(r'^(from\s+\S+\s+)?cimport\b', s) or s.startswith('from cython') or s == 'import cython':
            continue
        if re.match(r'^@cython\.', s):
            continue
        if re.match(r'^cdef\s+extern\b', s) or re.match(r'^ctypedef\b', s) or re.match(r'^cdef\s+(enum|struct|packed)\b', s):
            skip = ind
            continue
        m = re.match(r'^(?:def|cpdef|cdef)\s+(?:inline\s+)?(?:[^=(]*?[\s*])?(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except[^:]*|with gil|\s|->[^:]*)*:(.*)$', s, re.S)
        if m:
            t = types.setdefault(m.group(1), {})
            out.append('%sdef %s(%s):%s' % (pad, m.group(1), params(m.group(2), t), m.group(3)))
            fn.append((ind, m.group(1)))
            continue
        if s.startswith('cdef ') or s.startswith('cdef\t'):
            body = s[5:].strip().rstrip(';')
            m = DECL.match(body)
            if not m:
                raise ValueError('cython declaration: ' + s[:80])
            emitted = False
            for d in split_top(m.group('rest')):
                parts = split_top(d, '=')
                nm = parts[0].strip()
                star = nm.startswith('*')
                nm = nm.lstrip('* ')
                arr = '[' in nm
                nm = nm.split('[')[0].strip()
                k = kind(m.group('ty'), m.group('mem'), star or arr)
                if k:
                    cur[nm] = k
                if len(parts) > 1:
                    out.append('%s%s = %s' % (pad, nm, strip_casts('='.join(parts[1:]))))
                    emitted = True
            if not emitted:
                out.append(pad + 'pass')
            continue
        m = re.match(r'^with\s+(nogil|gil|parallel)\b.*:$', s)
        if m:
            out.append(pad + 'if True:')
            continue
        if re.match(r'^(for|while|if|elif|else|with|try|except|finally|def|class|return|raise|import|from|assert|pass|break|continue|yield|del|global|"""|\'\'\'|@)', s):
            out.append(pad + strip_casts(s))
            continue
        out.append(pad + strip_casts(s.rstrip(';')))
    return '\n'.join(out) + '\n', types


def attach(tree, types):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in types:
            n.ctypes = types[n.name]
