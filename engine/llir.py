"""Parser for textual LLVM IR (opaque pointers), lazily per function, several modules linked by symbol name."""
import re, sys, struct

TOK = re.compile(r'''
  (?P<ws>\s+)|(?P<comment>;[^\n]*|/\*.*?\*/)
 |(?P<cstr>c"[^"]*")
 |(?P<gname>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<lname>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9\\]+)?)
 |(?P<str>"[^"]*")
 |(?P<attr>\#[0-9]+)
 |(?P<hex>(?:f|s|u)?0x[KLMHR]?[0-9a-fA-F]+)
 |(?P<num>[-+]?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?(?![a-zA-Z_]))
 |(?P<word>[-a-zA-Z$._0-9]+)
 |(?P<dots>\.\.\.)
 |(?P<punct>[\[\](){}<>,=*:|])
''', re.X)


class LexError(Exception):
    pass


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise LexError("lex %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'comment'):
            continue
        out.append((k, m.group()))
    return out


class Unsupported(Exception):
    pass


PTR = ('ptr',)
VOID = ('void',)


def I(n):
    return ('i', n)


class Parser:
    """Token stream with type/value parsing."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def pv(self):
        return self.peek()[1]

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, v):
        if self.pv() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise Unsupported("expected %r got %r in %s" % (v, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i - 12):self.i + 12])))

    def end(self):
        return self.i >= len(self.t)

    # ---- types
    def is_type_start(self):
        k, v = self.peek()
        if k == 'word':
            return bool(re.fullmatch(r'i\d+|ptr|void|float|double|half|x86_fp80|label|metadata|fp128|token', v))
        return (k == 'lname' and v in self.mod.types) or v in ('{', '[', '<')

    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                t = I(int(m.group(1)))
            elif v in ('ptr', 'void', 'float', 'double', 'label', 'metadata', 'half', 'x86_fp80', 'fp128', 'token'):
                t = (v,)
                if v == 'ptr' and self.pv() == 'addrspace':
                    self.next()
                    self.expect('(')
                    self.next()
                    self.expect(')')
            else:
                raise Unsupported("type word " + v)
        elif k == 'lname':
            t = ('named', v)
        elif v == '{':
            t = ('struct', tuple(self._elems('}')), False)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.pv() == '{':
                self.next()
                es = self._elems('}')
                self.expect('>')
                t = ('struct', tuple(es), True)
            else:
                if self.pv() == 'vscale':
                    raise Unsupported('vscale')
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise Unsupported("type tok %r" % v)
        if self.pv() == '(' and self.peek()[0] == 'punct' and self._fn_type_ahead():
            # function type: ret (args)
            self.next()
            args = []
            va = False
            while not self.eat(')'):
                if self.eat('...'):
                    va = True
                else:
                    args.append(self.type())
                self.eat(',')
            t = ('fn', t, tuple(args), va)
        return t

    def _fn_type_ahead(self):
        # after a type, '(' only occurs for function types in call instructions
        return getattr(self, 'allow_fn', False)

    def _elems(self, close):
        es = []
        while not self.eat(close):
            es.append(self.type())
            self.eat(',')
        return es

    # ---- attributes
    ATTR_WORDS = None

    def skip_attrs(self):
        """skip parameter / return attributes; returns dict of interesting ones"""
        got = {}
        while True:
            k, v = self.peek()
            if k == 'attr':
                self.next()
                continue
            if k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            if k != 'word':
                break
            if re.fullmatch(r'i\d+|ptr|void|float|double|half|label|metadata|token', v):
                break
            if v in ATTRS:
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    self.next()
                elif self.pv() == '(':
                    if v in ('byval', 'sret', 'elementtype', 'inalloca', 'preallocated', 'byref'):
                        self.next()
                        got[v] = self.type()
                        self.expect(')')
                    else:
                        depth = 0
                        while True:
                            x = self.next()[1]
                            if x == '(':
                                depth += 1
                            elif x == ')':
                                depth -= 1
                                if depth == 0:
                                    break
                else:
                    got[v] = True
                continue
            break
        return got

    # ---- values
    def value(self, ty):
        k, v = self.next()
        if k == 'lname':
            return ('local', v)
        if k == 'gname':
            return ('global', v)
        if k == 'num':
            return ('int', int(v)) if ty[0] == 'i' else ('flt', float(v))
        if k == 'hex':
            if ty[0] == 'i':
                h = v.split('x')[1]
                return ('int', int(h, 16))
            return ('flthex', v)
        if k == 'cstr':
            return ('cstr', parse_cstr(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v in ('null',):
                return ('null',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'none':
                return ('null',)
            if v in ('getelementptr',):
                while self.pv() in ('inbounds', 'nuw', 'nusw', 'inrange') or self.pv() == '(' and self.peek(1)[0] == 'num' and False:
                    if self.pv() == 'inrange':
                        self.next()
                        if self.eat('('):
                            while not self.eat(')'):
                                self.next()
                        continue
                    self.next()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('cgep', bt, base, idx)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast', 'ptrtoaddr'):
                self.expect('(')
                ft = self.type()
                x = self.value(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('ccast', v, ft, x, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while self.pv() in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                at = self.type()
                a = self.value(at)
                self.expect(',')
                bt = self.type()
                b = self.value(bt)
                self.expect(')')
                return ('cbin', v, at, a, b)
            if v == 'splat':
                self.expect('(')
                et = self.type()
                e = self.value(et)
                self.expect(')')
                n = ty[1]
                return ('agg', [(et, e)] * n)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
                raise Unsupported(v)
            raise Unsupported("value word " + v)
        if v == '{':
            return ('agg', self._vals('}'))
        if v == '[':
            return ('agg', self._vals(']'))
        if v == '<':
            if self.pv() == '{':
                self.next()
                r = self._vals('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self._vals('>'))
        raise Unsupported("value %r" % ((k, v),))

    def _vals(self, close):
        out = []
        while not self.eat(close):
            t = self.type()
            out.append((t, self.value(t)))
            self.eat(',')
        return out


ATTRS = set('''zeroext signext inreg byval sret byref inalloca preallocated noalias nocapture nofree nest
returned nonnull dereferenceable dereferenceable_or_null swiftself swiftasync swifterror immarg noundef
nofpclass alignstack allocalign allocptr readnone readonly writeonly writable dead_on_unwind range captures
initializes align elementtype dead_on_return noext nonlazybind mustprogress nounwind noreturn
allocsize noinline alwaysinline cold hot memory willreturn nosync speculatable convergent
nobuiltin builtin nomerge minsize optsize optnone naked uwtable strictfp'''.split())


def parse_cstr(s):
    out = bytearray()
    i = 0
    b = s.encode('utf-8', 'surrogateescape')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def san(name):
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x_' % ord(m.group()), n)



class Func:
    pass


class Module:
    """one .ll file; heads, bodies and globals are parsed on demand"""

    def __init__(self, path):
        self.path = path
        self.types = {}
        self.gtext = {}     # global name -> line
        self.ftext = {}     # function name -> (line index, is_def, linkage is local)
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        with open(path, encoding='utf-8', errors='surrogateescape') as fh:
            self.lines = fh.read().split('\n')
        lines = self.lines
        tdefs = []
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == '@':
                nm = NAME.match(ln).group()
                self.gtext[nm] = ln
            elif c == 'd':
                if ln.startswith('define'):
                    nm = FNAME.search(ln).group(1)
                    self.ftext[nm] = (i, True, bool(re.match(r'define (?:internal|private) ', ln)))
                    while lines[i] != '}':
                        i += 1
                elif ln.startswith('declare'):
                    nm = FNAME.search(ln).group(1)
                    if nm not in self.ftext:
                        self.ftext[nm] = (i, False, False)
            elif c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = None
                    tdefs.append(m)
            i += 1
        for m in tdefs:
            if m.group(2).strip() == 'opaque':
                self.types[m.group(1)] = ('struct', (), False)
            else:
                self.types[m.group(1)] = Parser(lex(m.group(2)), self).type()

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            i, d, loc = self.ftext[name]
            f = self.parse_fn_head(self.lines[i], d)
            if d:
                j = i + 1
                while self.lines[j] != '}':
                    j += 1
                f.body = self.lines[i + 1:j]
            f.mod = self
        return f

    def glob(self, name):
        g = self.globals.get(name)
        if g is None and name not in self.aliases:
            self.parse_global(self.gtext[name])
            g = self.globals.get(name)
        return g

    def parse_global(self, ln):
        toks = lex(ln)
        p = Parser(toks, self)
        name = p.next()[1]
        p.expect('=')
        g = dict(name=name, init=None, const=False, tls=False, ext=False)
        while True:
            k, v = p.peek()
            if v in ('private', 'internal', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'linkonce_odr', 'linkonce',
                     'weak', 'weak_odr', 'hidden', 'protected', 'common', 'external', 'extern_weak', 'available_externally', 'default', 'appending', 'externally_initialized'):
                if v in ('external', 'extern_weak'):
                    g['ext'] = True
                p.next()
            elif v == 'thread_local':
                p.next()
                g['tls'] = True
                if p.eat('('):
                    p.next()
                    p.expect(')')
            elif v == 'addrspace':
                p.next(); p.next(); p.next(); p.next()
            else:
                break
        k, v = p.next()
        if v == 'alias':
            t = p.type()
            p.expect(',')
            t2 = p.type()
            self.aliases[name] = (t2, p.value(t2))
            return
        if v == 'ifunc':
            raise Unsupported('ifunc')
        g['const'] = (v == 'constant')
        g['type'] = p.type()
        if not p.end() and p.pv() != ',':
            g['init'] = p.value(g['type'])
        m = re.search(r', align (\d+)', ln)
        g['align'] = int(m.group(1)) if m else 1
        self.globals[name] = g

    def parse_fn_head(self, ln, is_def):
        toks = lex(ln)
        p = Parser(toks, self)
        p.next()  # define / declare
        f = Func()
        f.body = None
        while True:
            k, v = p.peek()
            if v in ('private', 'internal', 'dso_local', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'hidden', 'protected', 'external',
                     'extern_weak', 'available_externally', 'fastcc', 'coldcc', 'ccc', 'default', 'dso_preemptable', 'preserve_mostcc', 'preserve_nonecc'):
                p.next()
            elif v == 'cc':
                p.next(); p.next()
            elif v == '!' or k == 'meta':
                p.next()
            else:
                n0 = p.i
                p.skip_attrs()
                if p.i == n0:
                    break
        f.ret = p.type()
        f.name = p.next()[1]
        p.expect('(')
        f.params = []
        f.va = False
        n = 0
        while not p.eat(')'):
            if p.eat('...'):
                f.va = True
                continue
            t = p.type()
            at = p.skip_attrs()
            nm = None
            if p.peek()[0] == 'lname':
                nm = p.next()[1]
            elif is_def:
                nm = '%%%d' % n
            if is_def and re.fullmatch(r'%\d+', nm or ''):
                n = int(nm[1:]) + 1
            f.params.append((t, nm, at))
            p.eat(',')
        f.is_def = is_def
        if not (f.name in self.funcs and self.funcs[f.name].is_def):
            self.funcs[f.name] = f
        return f

    # ---------------------------------------------------------------- layout
    def res(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'half':
            return 2
        if k in ('x86_fp80', 'fp128'):
            return 16
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(e) for e in t[1]] or [1])
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            s = self.size(t)
            a = 1
            while a < s:
                a *= 2
            return a
        raise Unsupported('align %r' % (t,))

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'half':
            return 2
        if k in ('x86_fp80', 'fp128'):
            return 16
        if k == 'struct':
            off = 0
            for e in t[1]:
                if not t[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            a = self.align(t)
            return (off + a - 1) // a * a
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            e = self.res(t[2])
            if e == I(1):
                return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        raise Unsupported('size %r' % (t,))

    def field_off(self, t, i):
        t = self.res(t)
        if t[0] == 'struct':
            off = 0
            for j, e in enumerate(t[1]):
                if not t[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                if j == i:
                    return off, e
                off += self.size(e)
        if t[0] in ('arr', 'vec'):
            return i * self.size(t[2]), t[2]
        raise Unsupported('field_off')

    def leaves(self, t, off=0):
        """scalar leaves [(type, path, offset)] of a type"""
        t = self.res(t)
        if t[0] == 'struct':
            out = []
            for i in range(len(t[1])):
                o, e = self.field_off(t, i)
                out += [(a, (i,) + p, b) for a, p, b in self.leaves(e, off + o)]
            return out
        if t[0] in ('arr', 'vec'):
            out = []
            for i in range(t[1]):
                o, e = self.field_off(t, i)
                out += [(a, (i,) + p, b) for a, p, b in self.leaves(e, off + o)]
            return out
        return [(t, (), off)]




NAME = re.compile(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)')
FNAME = re.compile(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(')
