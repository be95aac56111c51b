"""Parser for the C/C++ text the generators emit (functions, tables, helper classes)."""
import re

TOKEN = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>L?"(?:[^"\\\n]|\\.)*")
 |(?P<chr>'(?:[^'\\\n]|\\.)*')
 |(?P<num>0[xX][0-9a-fA-F]+[uUlL]*|\d+\.\d*(?:[eE][-+]?\d+)?[fF]?|\d+[uUlL]*)
 |(?P<id>[A-Za-z_$][A-Za-z_0-9$]*)
 |(?P<op>->|::|\+\+|--|<<=|>>=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|&=|\|=|\^=|<<|\.\.\.|[-+*/%=<>!~&|^?:;,.(){}\[\]\#])
''', re.X | re.S)


class ParseError(Exception):
    pass


class Tok(object):
    __slots__ = ('k', 't', 'line', 'pos')

    def __init__(self, k, t, line, pos):
        self.k, self.t, self.line, self.pos = k, t, line, pos

    def __repr__(self):
        return self.t


def preprocess(text):
    """drop preprocessor lines, choosing the branches for CPython 3.12 / gcc / C++"""
    out = []
    stack = []     # [active now, some branch taken, parent active]
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        if s.startswith('#'):
            n = 1
            while s.endswith('\\') and i + n < len(lines):
                s = s[:-1] + ' ' + lines[i + n].strip()
                n += 1
            m = re.match(r'#\s*(\w+)\s*(.*)', s)
            if m:
                d, rest = m.group(1), m.group(2)
                act = all(x[0] for x in stack)
                if d in ('if', 'ifdef', 'ifndef'):
                    v = _ppcond(d, rest)
                    stack.append([v, v])
                elif d == 'elif' and stack:
                    v = (not stack[-1][1]) and _ppcond('if', rest)
                    stack[-1][0] = v
                    stack[-1][1] = stack[-1][1] or v
                elif d == 'else' and stack:
                    stack[-1][0] = not stack[-1][1]
                    stack[-1][1] = True
                elif d == 'endif' and stack:
                    stack.pop()
            out.extend([''] * n)
            i += n
            continue
        out.append(l if all(x[0] for x in stack) else '')
        i += 1
    t = '\n'.join(out)
    t = re.sub(r'__attribute__\s*\(\(.*?\)\)(?=\s|$)', '', t)
    t = re.sub(r'\bMOD_INIT\s*\(\s*(\w+)\s*\)', r'PyObject* PyInit_\1(void)', t)
    t = re.sub(r'\bMOD_RETURN\s*\(\s*(\w*)\s*\)', r'\1', t)
    t = re.sub(r'\bMOD_ERROR\b', 'NULL', t)
    t = re.sub(r'(PyVarObject_HEAD_INIT\s*\([^()]*\))', r'\1,', t)
    t = re.sub(r'\bPY_LONG_LONG\b', 'long long', t)
    t = re.sub(r'extern\s+"C"(?!\s*\{)', '', t)
    return t


def _ppcond(d, rest):
    if d == 'ifdef':
        return rest.strip() in ('__cplusplus', '__GNUC__')
    if d == 'ifndef':
        return rest.strip() not in ('__cplusplus', '__GNUC__')
    e = re.sub(r'/\*.*?\*/', '', rest)
    e = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda m: '1' if m.group(1) in ('__cplusplus', '__GNUC__') else '0', e)
    e = e.replace('PY_VERSION_HEX', '0x030C0300').replace('PY_MAJOR_VERSION', '3').replace('PY_MINOR_VERSION', '12')
    e = e.replace('__GNUC_MINOR__', '3').replace('__GNUC__', '13').replace('&&', ' and ').replace('||', ' or ')
    e = re.sub(r'!(?!=)', ' not ', e)
    try:
        return bool(eval(e, {'__builtins__': {}}, {}))
    except Exception:
        return False


def tokenize(text):
    toks = []
    pos = 0
    line = 1
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ParseError('line %d: cannot tokenize %r' % (line, text[pos:pos + 30]))
        k = m.lastgroup
        t = m.group()
        if k not in ('ws', 'lc', 'bc'):
            toks.append(Tok(k, t, line, pos))
        line += t.count('\n')
        pos = m.end()
    return toks


class N(object):
    """AST node"""
    def __init__(self, op, *a, **kw):
        self.op = op
        self.a = a
        self.line = kw.get('line', 0)

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


BUILTIN = set('''void bool char short int long float double unsigned signed wchar_t size_t ssize_t
 int8_t uint8_t int16_t uint16_t int32_t uint32_t int64_t uint64_t Py_ssize_t PyObject PyTypeObject
 PyCFunction getter setter destructor visitproc'''.split())
BASEINT = set('void bool char short int long float double unsigned signed'.split())
STMT_KW = set('return if else while for do switch case default break continue goto try catch delete throw new sizeof using'.split())


class Parser(object):
    def __init__(self, toks, types=()):
        self.toks = toks
        self.i = 0
        self.types = set(types) | BUILTIN

    # --- token helpers
    def peek(self, n=0):
        j = self.i + n
        return self.toks[j].t if j < len(self.toks) else ''

    def kind(self, n=0):
        j = self.i + n
        return self.toks[j].k if j < len(self.toks) else ''

    def line(self):
        return self.toks[min(self.i, len(self.toks) - 1)].line if self.toks else 0

    def next(self):
        if self.i >= len(self.toks):
            raise ParseError('unexpected end')
        t = self.toks[self.i].t
        self.i += 1
        return t

    def expect(self, t):
        if self.peek() != t:
            raise ParseError('line %d: expected %r, got %r (context: %s)' % (
                self.line(), t, self.peek(), ' '.join(x.t for x in self.toks[max(0, self.i - 12):self.i + 6])))
        self.i += 1

    def accept(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    # --- types
    def try_type(self, allow_stars=True):
        """parse a type at the current position; returns its text or None (position restored)"""
        save = self.i
        out = []
        base = False
        while True:
            t = self.peek()
            if t in ('const', 'volatile', 'struct', 'enum', 'static', 'inline', 'extern', 'virtual', 'typename', 'register'):
                out.append(t)
                self.i += 1
            elif t in BASEINT and (not base or base == 'int'):
                out.append(t)
                base = 'int'
                self.i += 1
            elif not base and (self.kind() == 'id' and t not in STMT_KW and t not in ('NULL', 'true', 'false', 'this') or t == '::'):
                q = self.qualname()
                if q is None:
                    self.i = save
                    return None
                out.append(q)
                base = 'name'
            else:
                break
        if not base:
            self.i = save
            return None
        if allow_stars:
            while self.peek() in ('*', '&', '&&', 'const'):
                out.append(self.next())
        return ' '.join(out)

    def qualname(self):
        """identifier with :: and template arguments, or None"""
        save = self.i
        parts = []
        if self.accept('::'):
            parts.append('::')
        while True:
            if self.accept('~'):
                parts.append('~')
            if self.kind() != 'id':
                self.i = save
                return None
            t = self.next()
            parts.append(t)
            if t == 'operator':
                while self.peek() != '(' and len(parts) < 10:
                    parts.append(self.next())
                if parts[-1] == 'operator' and self.peek() == '(' and self.peek(1) == ')':
                    parts += [self.next(), self.next()]
            if self.peek() == '<':
                ta = self.template_args()
                if ta is not None:
                    parts.append(ta)
            if self.peek() == '::' and (self.kind(1) == 'id' or self.peek(1) == '~'):
                self.i += 1
                parts.append('::')
                continue
            return ''.join(parts)

    def template_args(self):
        save = self.i
        self.expect('<')
        args = []
        while True:
            ty = self.try_type()
            if ty is None and self.kind() in ('num',):
                ty = self.next()
            if ty is None:
                self.i = save
                return None
            args.append(ty)
            if self.accept(','):
                continue
            if self.accept('>'):
                break
            self.i = save
            return None
        # a template must be followed by something that can follow a name
        return '<' + ','.join(a.replace(' ', '') if ' ' in a and not re.search(r'\w \w', a) else a for a in args) + '>'

    # --- expressions
    def expr(self):
        e = self.assign()
        while self.peek() == ',':
            ln = self.line()
            self.i += 1
            e = N('comma', e, self.assign(), line=ln)
        return e

    def assign(self):
        ln = self.line()
        if self.peek() == 'throw':
            self.i += 1
            return N('throw', self.assign() if self.peek() not in (';', ')') else None, line=ln)
        l = self.cond()
        t = self.peek()
        if t in ('=', '+=', '-=', '*=', '/=', '&=', '|=', '^=', '<<=', '>>='):
            self.i += 1
            return N('assign', t, l, self.assign() if self.peek() != '{' else self.initlist(), line=ln)
        return l

    def cond(self):
        ln = self.line()
        c = self.binary(0)
        if self.accept('?'):
            a = self.assign()
            self.expect(':')
            b = self.assign()
            return N('cond', c, a, b, line=ln)
        return c

    PREC = [['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '>', '<=', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]

    def binary(self, lvl):
        if lvl == len(self.PREC):
            return self.unary()
        a = self.binary(lvl + 1)
        while self.peek() in self.PREC[lvl] or (lvl == 7 and self.peek() == '>' and self.peek(1) == '>'):
            ln = self.line()
            op = self.next()
            if lvl == 7 and op == '>':
                self.i += 1
                op = '>>'
            a = N('bin', op, a, self.binary(lvl + 1), line=ln)
        return a

    def unary(self):
        ln = self.line()
        t = self.peek()
        if t in ('!', '-', '+', '~', '*', '&', '++', '--'):
            self.i += 1
            return N('un', t, self.unary(), line=ln)
        if t == 'sizeof':
            self.i += 1
            if self.accept('('):
                ty = self.try_type()
                if ty is None or self.peek() != ')':
                    raise ParseError('line %d: sizeof' % ln)
                self.expect(')')
                return N('sizeof', ty, line=ln)
            return N('sizeof', self.unary(), line=ln)
        if t == 'delete':
            self.i += 1
            arr = False
            if self.accept('['):
                self.expect(']')
                arr = True
            return N('delete', self.unary(), arr, line=ln)
        if t == 'new':
            self.i += 1
            place = None
            if self.peek() == '(':
                self.expect('(')
                place = self.expr()
                self.expect(')')
            ty = self.try_type(allow_stars=True)
            if ty is None:
                raise ParseError('line %d: new' % ln)
            args = []
            if self.accept('['):
                args = [self.expr()]
                self.expect(']')
                return N('newarray', ty, args, line=ln)
            if self.accept('('):
                args = self.args()
            if place is not None:
                return N('pnew', place, ty, args, line=ln)
            return N('new', ty, args, line=ln)
        if t == '(':
            c = self.try_cast()
            if c is not None:
                return c
        return self.postfix()

    def try_cast(self):
        save = self.i
        ln = self.line()
        self.expect('(')
        ty = self.try_type()
        if ty is None or self.peek() != ')':
            self.i = save
            return None
        self.i += 1
        nt, nk = self.peek(), self.kind()
        ptr = ty.endswith(('*', '&', 'const'))
        known = ty.replace('const ', '').strip() in self.types or any(w in BUILTIN for w in ty.split()) \
            or re.search(r'<', ty) is not None
        ok = False
        if nk in ('id', 'num', 'str', 'chr') and nt not in ('const',):
            ok = True
        elif nt == '(':
            ok = ptr or known
        elif nt in ('&', '*', '-', '~', '!', '+'):
            ok = ptr or known
        elif nt == '{' and (ptr or known):
            ok = True
        if nt in ('new', 'sizeof'):
            ok = True
        if not ok:
            self.i = save
            return None
        return N('cast', ty, self.unary(), line=ln)

    def args(self):
        """after '(' up to and including ')'"""
        out = []
        if self.accept(')'):
            return out
        while True:
            if self.peek() == '{':
                out.append(self.initlist())
            else:
                out.append(self.assign())
            if self.accept(','):
                continue
            self.expect(')')
            return out

    def initlist(self):
        ln = self.line()
        self.expect('{')
        items = []
        while not self.accept('}'):
            if self.peek() == '{':
                items.append(self.initlist())
            elif self.peek() == '.' and self.kind(1) == 'id':
                self.i += 2
                self.expect('=')
                items.append(self.assign())
            else:
                e = self.assign()
                # macro adjacency such as PyVarObject_HEAD_INIT(NULL, 0) (char*) ...
                items.append(e)
                if self.peek() not in (',', '}'):
                    continue
            self.accept(',')
        return N('init', items, line=ln)

    def postfix(self):
        ln = self.line()
        e = self.primary()
        while True:
            t = self.peek()
            if t == '(':
                self.i += 1
                e = N('call', e, self.args(), line=ln)
            elif t == '[':
                self.i += 1
                e = N('index', e, self.expr(), line=ln)
                self.expect(']')
            elif t in ('->', '.'):
                self.i += 1
                q = self.qualname()
                if q is None:
                    raise ParseError('line %d: member name' % ln)
                e = N('member', e, t, q, line=ln)
            elif t in ('++', '--'):
                self.i += 1
                e = N('post', t, e, line=ln)
            else:
                return e

    def primary(self):
        ln = self.line()
        t, k = self.peek(), self.kind()
        if t == '(':
            self.i += 1
            e = self.expr()
            self.expect(')')
            return N('paren', e, line=ln)
        if k == 'num':
            self.i += 1
            return N('num', t, line=ln)
        if k == 'chr':
            self.i += 1
            return N('chr', t, line=ln)
        if k == 'str':
            s = ''
            while self.kind() == 'str':
                s += self.next()
            return N('str', cstring(s), line=ln)
        if t in ('static_cast', 'dynamic_cast', 'reinterpret_cast', 'const_cast'):
            self.i += 1
            self.expect('<')
            ty = self.try_type()
            if ty is None:
                raise ParseError('line %d: %s' % (ln, t))
            self.expect('>')
            self.expect('(')
            e = self.expr()
            self.expect(')')
            return N('xcast', t, ty, e, line=ln)
        if t == 'typeid':
            self.i += 1
            self.expect('(')
            e = self.expr()
            self.expect(')')
            return N('typeid', e, line=ln)
        if t in BASEINT and self.peek(1) == '(' or t in ('unsigned',):
            ty = self.try_type(allow_stars=False)
            self.expect('(')
            a = self.args()
            return N('cast', ty, a[0], line=ln)
        if k == 'id' or t == '::':
            q = self.qualname()
            if q is not None:
                return N('name', q, line=ln)
        raise ParseError('line %d: unexpected %r (context: %s)' % (
            ln, t, ' '.join(x.t for x in self.toks[max(0, self.i - 12):self.i + 6])))

    # --- statements
    def block(self):
        ln = self.line()
        self.expect('{')
        out = []
        while not self.accept('}'):
            out.append(self.stmt())
        return N('block', out, line=ln)

    def stmt(self):
        ln = self.line()
        t = self.peek()
        if t == '{':
            return self.block()
        if t == ';':
            self.i += 1
            return N('empty', line=ln)
        if t == 'if':
            self.i += 1
            self.expect('(')
            c = self.expr()
            self.expect(')')
            a = self.stmt()
            b = None
            if self.accept('else'):
                b = self.stmt()
            return N('if', c, a, b, line=ln)
        if t == 'while':
            self.i += 1
            self.expect('(')
            c = self.expr()
            self.expect(')')
            return N('while', c, self.stmt(), line=ln)
        if t == 'do':
            self.i += 1
            b = self.stmt()
            self.expect('while')
            self.expect('(')
            c = self.expr()
            self.expect(')')
            self.expect(';')
            return N('dowhile', b, c, line=ln)
        if t == 'for':
            self.i += 1
            self.expect('(')
            init = self.decl_or_expr() if self.peek() != ';' else self._semi()
            c = self.expr() if self.peek() != ';' else None
            self.expect(';')
            u = self.expr() if self.peek() != ')' else None
            self.expect(')')
            return N('for', init, c, u, self.stmt(), line=ln)
        if t == 'switch':
            self.i += 1
            self.expect('(')
            c = self.expr()
            self.expect(')')
            return N('switch', c, self.stmt(), line=ln)
        if t == 'case':
            self.i += 1
            e = self.cond()
            self.expect(':')
            return N('case', e, line=ln)
        if t == 'default' and self.peek(1) == ':':
            self.i += 2
            return N('default', line=ln)
        if t in ('break', 'continue'):
            self.i += 1
            self.expect(';')
            return N(t, line=ln)
        if t == 'goto':
            self.i += 1
            l = self.next()
            self.expect(';')
            return N('goto', l, line=ln)
        if t == 'return':
            self.i += 1
            e = None
            if self.peek() != ';':
                e = self.expr()
            self.expect(';')
            return N('return', e, line=ln)
        if t == 'try':
            self.i += 1
            b = self.block()
            cs = []
            while self.accept('catch'):
                self.expect('(')
                if self.accept('...'):
                    ty, nm = '...', None
                else:
                    ty = self.try_type()
                    nm = self.next() if self.kind() == 'id' else None
                self.expect(')')
                cs.append((ty, nm, self.block()))
            return N('try', b, cs, line=ln)
        if self.kind() == 'id' and self.peek(1) == ':' and self.peek(2) != ':' and t not in STMT_KW:
            self.i += 2
            return N('label', t, line=ln)
        # macros used as a statement without ';'
        if t == 'Py_VISIT' or t == 'Py_CLEAR':
            e = self.expr()
            self.accept(';')
            return N('expr', e, line=ln)
        return self.decl_or_expr()

    def _semi(self):
        ln = self.line()
        self.expect(';')
        return N('empty', line=ln)

    def decl_or_expr(self):
        ln = self.line()
        if self.peek() not in STMT_KW:
            d = self.try_decl()
            if d is not None:
                return d
        e = self.expr()
        self.expect(';')
        return N('expr', e, line=ln)

    def try_decl(self):
        save = self.i
        ln = self.line()
        ty = self.try_type(allow_stars=False)
        if ty is None:
            self.i = save
            return None
        decls = []
        while True:
            stars = []
            while self.peek() in ('*', '&', 'const', '&&'):
                stars.append(self.next())
            if self.kind() != 'id' or self.peek() in STMT_KW:
                self.i = save
                return None
            if self.peek() == 'PYBINDGEN_UNUSED' and self.peek(1) == '(':
                self.i += 2
                name = self.next()
                self.expect(')')
            else:
                name = self.next()
            arr = None
            if self.peek() == '[':
                arr = ''
                while self.peek() == '[':
                    self.i += 1
                    s = []
                    while self.peek() != ']':
                        s.append(self.next())
                    self.i += 1
                    arr += '[' + ' '.join(s) + ']'
            init = None
            if self.peek() == '=':
                self.i += 1
                init = self.initlist() if self.peek() == '{' else self.assign()
            elif self.peek() == '(' and not stars:
                # T name(args);  (never a function prototype inside a body)
                self.i += 1
                try:
                    a = self.args()
                except ParseError:
                    self.i = save
                    return None
                init = N('construct', ty, a, line=ln)
            elif self.peek() not in (';', ',', '[', '='):
                self.i = save
                return None
            decls.append((' '.join([ty] + stars), name, arr, init))
            if self.accept(','):
                continue
            break
        if self.peek() != ';':
            self.i = save
            return None
        self.i += 1
        return N('decl', decls, line=ln)


def cstring(s):
    """list of string-literal tokens -> value"""
    out = []
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
        b = m.group(1)
        b = re.sub(r'\\(.)', lambda q: {'n': '\n', 't': '\t', '0': '\0'}.get(q.group(1), q.group(1)), b)
        out.append(b)
    return ''.join(out)


# --- top level ----------------------------------------------------------------
class Func(object):
    def __init__(self, name, ret, params, body_toks, line, quals, cls=None):
        self.name, self.ret, self.params, self.toks, self.line = name, ret, params, body_toks, line
        self.quals = quals
        self.cls = cls
        self._body = None

    def body(self, types=()):
        if self._body is None:
            p = Parser(self.toks, types)
            self._body = p.block()
        return self._body

    def __repr__(self):
        return 'Func(%s)' % self.name


class Var(object):
    def __init__(self, name, type_, arr, init, line, static, extern):
        self.name, self.type, self.arr, self.init, self.line = name, type_, arr, init, line
        self.static, self.extern = static, extern

    def __repr__(self):
        return 'Var(%s %s%s)' % (self.type, self.name, self.arr or '')


class Unit(object):
    """one translation unit"""
    def __init__(self, text):
        self.text = text
        self.funcs = []
        self.protos = []
        self.vars = []
        self.classes = []     # (name, kind, toks, line)
        self.types = set()
        self.events = []      # every top-level item in order
        self.problems = []
        self.parse(tokenize(preprocess(text)))

    def func(self, name):
        for f in self.funcs:
            if f.name == name:
                return f
        return None

    def var(self, name):
        for v in self.vars:
            if v.name == name and v.init is not None:
                return v
        for v in self.vars:
            if v.name == name:
                return v
        return None

    def parse(self, toks, cls=None):
        i = 0
        n = len(toks)
        while i < n:
            # collect a top-level item
            j = i
            depth = 0
            hdr_end = None
            while j < n:
                t = toks[j].t
                if t in '([' and len(t) == 1:
                    depth += 1
                elif t in (')', ']'):
                    depth -= 1
                elif depth == 0 and t in (';', '{', '}'):
                    break
                j += 1
            if j >= n:
                if i < n:
                    self.problems.append('line %d: unterminated item %s' % (toks[i].line, ' '.join(x.t for x in toks[i:i + 8])))
                return
            hdr = toks[i:j]
            if toks[j].t == '}':
                i = j + 1       # end of extern "C" or namespace
                continue
            if toks[j].t == ';':
                self.simple(hdr, cls)
                i = j + 1
                continue
            words = [x.t for x in hdr]
            end = match(toks, j)
            if words[:2] == ['extern', '"C"'] or (words and words[0] == 'namespace'):
                i = j + 1
                continue
            if words and words[0] in ('class', 'struct') and '(' not in words:
                name = words[1]
                self.types.add(name)
                self.classes.append((name, words, toks[j + 1:end], toks[i].line))
                self.parse_class(name, toks[j + 1:end])
                i = end + 1
                if i < n and toks[i].t == ';':
                    i += 1
                continue
            if words and words[0] in ('typedef', 'enum', 'union') :
                k = end + 1
                while toks[k].t != ';':
                    k += 1
                if toks[k - 1].k == 'id':
                    self.types.add(toks[k - 1].t)
                self.events.append(('type', toks[k - 1].t, toks[i].line))
                self.classes.append((toks[k - 1].t, words, toks[j + 1:end], toks[i].line))
                i = k + 1
                continue
            if '=' in words or (words and ')' not in words):
                # variable with initializer list
                k = end + 1
                while k < n and toks[k].t != ';':
                    k += 1
                self.variable(toks[i:k + 1])
                i = k + 1
                continue
            self.function(hdr, toks[j:end + 1], cls)
            i = end + 1
            if i < n and toks[i].t == ';':
                i += 1

    def parse_class(self, name, toks):
        # drop access specifiers
        out = []
        i = 0
        while i < len(toks):
            if toks[i].t in ('public', 'private', 'protected') and i + 1 < len(toks) and toks[i + 1].t == ':':
                i += 2
                continue
            out.append(toks[i])
            i += 1
        self.parse(out, cls=name)

    def simple(self, hdr, cls):
        if not hdr:
            return
        words = [x.t for x in hdr]
        if words[0] == 'typedef':
            self.types.add(words[-1])
            self.events.append(('type', words[-1], hdr[0].line))
            return
        if '(' in words and '=' not in words[:words.index('(')]:
            p = words.index('(')
            if words[-1] == ')' or words[-1] in ('const', '0') or 'throw' in words:
                f = self.header(hdr, cls)
                if f:
                    self.protos.append(f)
                    self.events.append(('proto', f.name, hdr[0].line))
                    return
        if words[0] in ('class', 'struct') and len(words) == 2:
            self.types.add(words[1])
            return
        if words[0] in ('using', 'friend'):
            return
        self.variable(hdr + [Tok('op', ';', hdr[-1].line, 0)], cls)

    def variable(self, toks, cls=None):
        words = [x.t for x in toks]
        p = Parser(toks, self.types)
        try:
            d = p.try_decl()
        except ParseError as e:
            self.problems.append(str(e))
            return
        if d is None:
            self.problems.append('line %d: not understood: %s' % (toks[0].line, ' '.join(words[:16])))
            return
        for (ty, name, arr, init) in d.a[0]:
            v = Var(name if cls is None else cls + '::' + name, ty, arr, init, toks[0].line, 'static' in words[:2], words[0] == 'extern')
            self.vars.append(v)
            self.events.append(('var', v.name, toks[0].line))

    def header(self, hdr, cls):
        """function header tokens -> Func without body (params as (type, name))"""
        words = [x.t for x in hdr]
        # the parameter list: first '(' at depth 0 that follows a name and is not PYBINDGEN_UNUSED
        depth = 0
        for k, w in enumerate(words):
            if w == '(':
                break
        else:
            return None
        if words[k - 1] == 'operator':
            k += 2
        # name: walk back over a qualified name
        s = k - 1
        angle = 0
        while s >= 0:
            w = words[s]
            if w == '>':
                angle += 1
            elif w == '<':
                angle -= 1
            elif angle:
                pass
            elif hdr[s].k == 'id' and (s + 1 == k or words[s + 1] in ('::', '<') or words[s + 1] == '(') or w in ('::', '~') :
                pass
            else:
                break
            if angle == 0 and hdr[s].k == 'id' and not (s >= 1 and words[s - 1] in ('::', '~')):
                s -= 1
                break
            s -= 1
        name = ''.join(words[s + 1:k])
        ret = ' '.join(w for w in words[:s + 1] if w not in ('static', 'virtual', 'inline', 'extern'))
        e = k
        depth = 0
        while e < len(words):
            if words[e] == '(':
                depth += 1
            elif words[e] == ')':
                depth -= 1
                if depth == 0:
                    break
            e += 1
        params = []
        cur = []
        depth = 0
        for t in hdr[k + 1:e]:
            if t.t in ('(', '<', '['):
                depth += 1
            elif t.t in (')', '>', ']'):
                depth -= 1
            if t.t == ',' and depth == 0:
                params.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            params.append(cur)
        ps = []
        for c in params:
            w = [t.t for t in c]
            if w == ['void']:
                continue
            unused = False
            while 'PYBINDGEN_UNUSED' in w:
                q = w.index('PYBINDGEN_UNUSED')
                w = w[:q] + [w[q + 2]] + w[q + 4:]
                unused = True
            nm = None
            if len(w) > 1 and re.match(r'[A-Za-z_$]', w[-1]) and w[-1] not in BASEINT and w[-1] != 'const':
                nm = w[-1]
                w = w[:-1]
            ps.append((' '.join(w), nm))
        quals = words[e + 1:]
        f = Func(name if cls is None else cls + '::' + name, ret, ps, None, hdr[0].line, quals, cls)
        f.static = 'static' in words[:s + 1]
        f.virtual = 'virtual' in words[:s + 1]
        return f

    def function(self, hdr, body, cls):
        f = self.header(hdr, cls)
        if f is None:
            self.problems.append('line %d: not understood: %s' % (hdr[0].line if hdr else 0, ' '.join(x.t for x in hdr[:16])))
            return
        f.toks = body
        self.funcs.append(f)
        self.events.append(('func', f.name, hdr[0].line))


def match(toks, j):
    depth = 0
    for k in range(j, len(toks)):
        if toks[k].t == '{':
            depth += 1
        elif toks[k].t == '}':
            depth -= 1
            if depth == 0:
                return k
    raise ParseError('line %d: unbalanced braces' % toks[j].line)
