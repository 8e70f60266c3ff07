"""Translate JVM class files (javac output) to C++ for the symbolic executor.

Every method of every class of a closed world becomes one C++ function: stack
slots and locals become typed variables, branches gotos, exceptions a pending
pointer tested after each call.  Native methods become calls of the symbol the
JVM would look up, with the argument types of the method descriptor.
"""
import os, re, struct


class J2CError(Exception):
    pass


ACC_PUBLIC, ACC_STATIC, ACC_FINAL, ACC_SYNC, ACC_NATIVE, ACC_IFACE, ACC_ABSTRACT, ACC_PRIVATE = 1, 8, 0x10, 0x20, 0x100, 0x200, 0x400, 2


class R:
    def __init__(self, b):
        self.b, self.i = b, 0

    def u1(self):
        self.i += 1
        return self.b[self.i - 1]

    def u2(self):
        self.i += 2
        return struct.unpack_from('>H', self.b, self.i - 2)[0]

    def u4(self):
        self.i += 4
        return struct.unpack_from('>I', self.b, self.i - 4)[0]

    def take(self, n):
        self.i += n
        return self.b[self.i - n:self.i]


def mutf8(b):
    """modified UTF-8 -> list of UTF-16 units"""
    o, i = [], 0
    while i < len(b):
        c = b[i]
        if c < 0x80:
            o.append(c)
            i += 1
        elif c >> 5 == 6:
            o.append((c & 31) << 6 | b[i + 1] & 63)
            i += 2
        else:
            o.append((c & 15) << 12 | (b[i + 1] & 63) << 6 | b[i + 2] & 63)
            i += 3
    return o


def text(b):
    return b''.join(struct.pack('<H', u) for u in mutf8(b)).decode('utf-16-le', 'surrogatepass')


class Method:
    pass


class Class:
    def __init__(self, data):
        r = R(data)
        assert r.u4() == 0xCAFEBABE
        r.u4()
        n = r.u2()
        cp = [None] * n
        i = 1
        while i < n:
            t = r.u1()
            if t == 1:
                cp[i] = ('utf8', r.take(r.u2()))
            elif t == 3:
                cp[i] = ('int', struct.unpack('>i', r.take(4))[0])
            elif t == 4:
                cp[i] = ('float', struct.unpack('>I', r.take(4))[0])
            elif t == 5:
                cp[i] = ('long', struct.unpack('>q', r.take(8))[0])
                i += 1
            elif t == 6:
                cp[i] = ('double', struct.unpack('>Q', r.take(8))[0])
                i += 1
            elif t in (7, 8, 16, 19, 20):
                cp[i] = ({7: 'class', 8: 'string'}.get(t, 'x'), r.u2())
            elif t in (9, 10, 11, 12, 17, 18):
                cp[i] = ({9: 'field', 10: 'method', 11: 'imethod', 12: 'nt'}.get(t, 'indy'), r.u2(), r.u2())
            elif t == 15:
                cp[i] = ('mh', r.u1(), r.u2())
            else:
                raise J2CError('constant %d' % t)
            i += 1
        self.cp = cp
        self.flags = r.u2()
        self.name = self.cls(r.u2())
        s = r.u2()
        self.super = self.cls(s) if s else None
        self.ifs = [self.cls(r.u2()) for _ in range(r.u2())]
        self.fields = []
        for _ in range(r.u2()):
            fl, nm, ds = r.u2(), self.utf(r.u2()), self.utf(r.u2())
            at = self.attrs(r)
            cv = struct.unpack('>H', at['ConstantValue'])[0] if 'ConstantValue' in at else None
            self.fields.append((fl, nm, ds, cv))
        self.methods = []
        for _ in range(r.u2()):
            m = Method()
            m.flags, m.name, m.desc = r.u2(), self.utf(r.u2()), self.utf(r.u2())
            m.cls = self
            at = self.attrs(r)
            m.code = None
            if 'Code' in at:
                c = R(at['Code'])
                m.maxstack, m.maxlocals = c.u2(), c.u2()
                m.code = c.take(c.u4())
                m.ex = [(c.u2(), c.u2(), c.u2(), c.u2()) for _ in range(c.u2())]
                ca = self.attrs(c)
                m.lines = []
                if 'LineNumberTable' in ca:
                    l = R(ca['LineNumberTable'])
                    m.lines = sorted((l.u2(), l.u2()) for _ in range(l.u2()))
            self.methods.append(m)
        at = self.attrs(r)
        self.source = self.utf(struct.unpack('>H', at['SourceFile'])[0]) if 'SourceFile' in at else self.name

    def attrs(self, r):
        o = {}
        for _ in range(r.u2()):
            n = self.utf(r.u2())
            o[n] = r.take(r.u4())
        return o

    def utf(self, i):
        return text(self.cp[i][1])

    def cls(self, i):
        return self.utf(self.cp[i][1])

    def ref(self, i):
        k = self.cp[i]
        nt = self.cp[k[2]]
        return self.cls(k[1]), self.utf(nt[1]), self.utf(nt[2])


def parse_desc(d):
    m = re.match(r'\((.*)\)(.*)$', d, re.S)
    a = re.findall(r'\[*(?:L[^;]*;|[ZBCSIJFD])', m.group(1))
    return a, m.group(2)


def kind(d):
    return {'Z': 'i', 'B': 'i', 'C': 'i', 'S': 'i', 'I': 'i', 'J': 'l', 'F': 'f', 'D': 'd', 'V': 'v'}.get(d[0], 'a')


CT = {'i': 'int32_t', 'l': 'int64_t', 'f': 'float', 'd': 'double', 'a': 'Obj*', 'v': 'void'}
FT = {'Z': 'uint8_t', 'B': 'int8_t', 'C': 'uint16_t', 'S': 'int16_t', 'I': 'int32_t', 'J': 'int64_t', 'F': 'float', 'D': 'double'}
NT = {'Z': 'jboolean', 'B': 'jbyte', 'C': 'jchar', 'S': 'jshort', 'I': 'jint', 'J': 'jlong', 'F': 'jfloat', 'D': 'jdouble', 'V': 'void'}
LLT = {'Z': 'i8', 'B': 'i8', 'C': 'i16', 'S': 'i16', 'I': 'i32', 'J': 'i64', 'F': 'float', 'D': 'double', 'V': 'void'}
JVM = {'i': 'i', 'l': 'j', 'f': 'f', 'd': 'd', 'a': 'l'}


def idn(s):
    return re.sub(r'[^A-Za-z0-9]', lambda m: '_%x_' % ord(m.group()), s)


def jni_mangle(s):
    o = ''
    for c in s:
        if c == '/':
            o += '_'
        elif c == '_':
            o += '_1'
        elif c == ';':
            o += '_2'
        elif c == '[':
            o += '_3'
        elif c.isascii() and c.isalnum():
            o += c
        else:
            for u in struct.unpack('<%dH' % (len(c.encode('utf-16-le', 'surrogatepass')) // 2), c.encode('utf-16-le', 'surrogatepass')):
                o += '_0%04x' % u
    return o


def cstr(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else ''.join('\\%03o' % b for b in c.encode('utf-8', 'surrogatepass')) for c in s) + '"'


OPS = {}


def _ops():
    names = '''nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1
    bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload iload_0 iload_1 iload_2 iload_3 lload_0 lload_1 lload_2 lload_3 fload_0 fload_1 fload_2 fload_3
    dload_0 dload_1 dload_2 dload_3 aload_0 aload_1 aload_2 aload_3 iaload laload faload daload aaload baload caload saload istore lstore fstore dstore astore
    istore_0 istore_1 istore_2 istore_3 lstore_0 lstore_1 lstore_2 lstore_3 fstore_0 fstore_1 fstore_2 fstore_3 dstore_0 dstore_1 dstore_2 dstore_3
    astore_0 astore_1 astore_2 astore_3 iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap
    iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr
    iand land ior lor ixor lxor iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle
    if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch ireturn lreturn freturn dreturn areturn
    return getstatic putstatic getfield putfield invokevirtual invokespecial invokestatic invokeinterface invokedynamic new newarray anewarray arraylength athrow
    checkcast instanceof monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w'''.split()
    for i, n in enumerate(names):
        OPS[i] = n


_ops()


def decode(code):
    """-> list of (offset, op, operand, next offset)"""
    r = R(code)
    o = []

    def s1():
        x = r.u1()
        return x - 256 if x > 127 else x

    def s2():
        x = r.u2()
        return x - 65536 if x > 32767 else x

    def s4():
        x = r.u4()
        return x - (1 << 32) if x >> 31 else x
    while r.i < len(code):
        at = r.i
        op = OPS[r.u1()]
        a = None
        if op == 'bipush':
            a = s1()
        elif op == 'sipush':
            a = s2()
        elif op == 'ldc' or op == 'newarray':
            a = r.u1()
        elif op in ('ldc_w', 'ldc2_w', 'getstatic', 'putstatic', 'getfield', 'putfield', 'invokevirtual', 'invokespecial', 'invokestatic', 'new', 'anewarray', 'checkcast', 'instanceof'):
            a = r.u2()
        elif op == 'invokeinterface':
            a = r.u2()
            r.u2()
        elif op == 'invokedynamic':
            raise J2CError('invokedynamic')
        elif re.fullmatch(r'[ilfda](load|store)', op):
            a = r.u1()
        elif op == 'iinc':
            a = (r.u1(), s1())
        elif op.startswith('if') or op in ('goto', 'jsr'):
            a = at + s2()
        elif op == 'goto_w':
            a = at + s4()
            op = 'goto'
        elif op == 'tableswitch':
            while r.i % 4:
                r.u1()
            d, lo, hi = s4(), s4(), s4()
            a = (at + d, [(lo + k, at + s4()) for k in range(hi - lo + 1)])
        elif op == 'lookupswitch':
            while r.i % 4:
                r.u1()
            d, n = s4(), s4()
            a = (at + d, [(s4(), at + s4()) for k in range(n)])
        elif op == 'wide':
            op = OPS[r.u1()]
            i = r.u2()
            a = (i, s2()) if op == 'iinc' else i
        elif op == 'multianewarray':
            raise J2CError('multianewarray')
        o.append((at, op, a, r.i))
    return o


def live_after(ins, ex):
    """instruction offset -> reference locals some path from behind it still reads"""
    use, dfn, succ = {}, {}, {}
    for off, op, arg, nxt in ins:
        use[off], dfn[off] = set(), set()
        x = re.fullmatch(r'([ilfda])(load|store)(_\d)?', op)
        if x:
            i = arg if arg is not None else int(op[-1])
            (use if x[2] == 'load' and x[1] == 'a' else dfn)[off].add(i)
            if x[2] == 'load' and x[1] != 'a':
                dfn[off].discard(i)
        if op.startswith('if'):
            succ[off] = [arg, nxt]
        elif op == 'goto':
            succ[off] = [arg]
        elif op in ('tableswitch', 'lookupswitch'):
            succ[off] = [arg[0]] + [t for _, t in arg[1]]
        elif op.endswith('return') or op == 'athrow':
            succ[off] = []
        else:
            succ[off] = [nxt]
        succ[off] = succ[off] + [h for s, e, h, t in ex if s <= off < e]
    lin = {off: set() for off in use}
    out = {}
    ch = True
    while ch:
        ch = False
        for off, op, arg, nxt in reversed(ins):
            o = set().union(*[lin.get(s, set()) for s in succ[off]])
            n = use[off] | (o - dfn[off])
            out[off] = o
            if n != lin[off]:
                lin[off], ch = n, True
    return out


class World:
    """native_impl: classes whose native methods the C++ runtime implements; glue: symbol -> (ret, [args]) LLVM types of the Rust library"""

    def __init__(self, files, native_impl, glue):
        self.cls = {}
        for f in files:
            c = Class(open(f, 'rb').read())
            self.cls[c.name] = c
        self.native_impl = native_impl
        self.glue = glue
        self.arrays = {}
        self.sel = {}
        self.decl, self.body = [], []
        self.lits = {}
        self.ids = {n: i for i, n in enumerate(sorted(self.cls))}
        self.disp = {}
        self.externs = {}
        self.problems = []

    # --- lookup
    def get(self, n):
        if n not in self.cls:
            raise J2CError('class %s is outside the modelled library' % n)
        return self.cls[n]

    def supers(self, n):
        o = []
        while n:
            o.append(n)
            n = self.get(n).super
        return o

    def all_super(self, n):
        seen, todo = [], [n]
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            c = self.get(x)
            if c.super:
                todo.append(c.super)
            todo += c.ifs
        return seen

    def find(self, cn, name, desc):
        for x in self.supers(cn):
            for m in self.cls[x].methods:
                if m.name == name and m.desc == desc:
                    return m
        for x in self.all_super(cn):
            for m in self.cls[x].methods:
                if m.name == name and m.desc == desc:
                    return m
        return None

    def find_field(self, cn, name, desc):
        for x in self.all_super(cn):
            for f in self.cls[x].fields:
                if f[1] == name and f[2] == desc:
                    return x, f
        raise J2CError('field %s.%s' % (cn, name))

    # --- names
    def mn(self, m):
        return 'M_%s_%s_%s' % (idn(m.cls.name), idn(m.name), idn(m.desc))

    def params(self, m):
        a, r = parse_desc(m.desc)
        ps = [] if m.flags & ACC_STATIC else ['Obj* self']
        ps += ['%s a%d' % (CT[kind(d)], i) for i, d in enumerate(a)]
        return '%s %s(%s)' % (CT[kind(r)], self.mn(m), ', '.join(ps))

    def cref(self, n):
        """C++ expression for Cls* of class or array name (internal form)"""
        if n.startswith('['):
            if n not in self.arrays:
                self.arrays[n] = 'CA_%d' % len(self.arrays)
                e = n[1:]
                if e[0] == 'L':
                    self.cref(e[1:-1])
                elif e[0] == '[':
                    self.cref(e)
            return '&' + self.arrays[n]
        self.get(n)
        return '&C_' + idn(n)

    def selector(self, name, desc):
        return self.sel.setdefault((name, desc), len(self.sel) + 1)

    def lit(self, b):
        if b not in self.lits:
            self.lits[b] = len(self.lits)
        return self.lits[b]

    # --- emission
    def emit(self):
        D, B = self.decl, self.body
        for n in sorted(self.cls):
            D.append('extern Cls C_%s;' % idn(n))
        done = []

        def st(n):
            if n in done:
                return
            c = self.cls[n]
            if c.super:
                st(c.super)
            done.append(n)
            fs = ['%s %s;' % (FT.get(d[0], 'Obj*'), 'f_' + idn(nm)) for fl, nm, d, cv in c.fields if not fl & ACC_STATIC]
            D.append('struct F_%s : %s { %s };' % (idn(n), 'F_' + idn(c.super) if c.super else 'Obj', ' '.join(fs)))
            for fl, nm, d, cv in c.fields:
                if fl & ACC_STATIC:
                    D.append('static %s S_%s_%s;' % (FT.get(d[0], 'Obj*'), idn(n), idn(nm)))
        for n in sorted(self.cls):
            st(n)
        for n in sorted(self.cls):
            for m in self.cls[n].methods:
                if not m.flags & ACC_ABSTRACT:
                    D.append(('' if m.flags & ACC_NATIVE and n in self.native_impl else 'static ') + self.params(m) + ';')
        for n in sorted(self.cls):
            for m in self.cls[n].methods:
                if m.flags & ACC_ABSTRACT:
                    continue
                if m.flags & ACC_NATIVE:
                    if n not in self.native_impl:
                        B.append(self.native(m))
                else:
                    B.append(self.method(m))
                B.append(self.thunk(m))
        meta = []
        for n in sorted(self.cls):
            meta.append(self.meta(n))
        for n in sorted(self.cls):
            for ds in [m.desc for m in self.cls[n].methods] + [f[2] for f in self.cls[n].fields]:
                for d in re.findall(r'\[+(?:L[^;]+;|[BCDFIJSZ])', ds):
                    e = d.lstrip('[')
                    if e[0] != 'L' or e[1:-1] in self.cls:
                        self.cref(d)
        for n in list(self.arrays):
            self.cref(n)
        arr = []
        for n, v in self.arrays.items():
            e = n[1:]
            D.append('extern Cls %s;' % v)
            el = self.cref(e[1:-1]) if e[0] == 'L' else self.cref(e) if e[0] == '[' else '0'
            arr.append("Cls %s = { %s, %d, &C_java_2f_lang_2f_Object, 0, 0, 0, 0, 0, 0, sizeof(Arr), 0, 0, '%s', %s, -1, 0, 0 };" % (v, cstr(n), len(n), e[0] if e[0] not in 'L[' else 'L', el))
        names = ['&C_' + idn(n) for n in sorted(self.cls)] + ['&' + v for v in self.arrays.values()]
        tbl = 'Cls* jvm_classes[] = { %s }; int jvm_nclasses = %d;' % (', '.join(names), len(names))
        lits = []
        for b, k in self.lits.items():
            u = mutf8(b)
            lits.append('static Obj* L_%d; static const uint16_t LD_%d[] = { %s };' % (k, k, ', '.join(map(str, u + [0]))))
        disp = [self.dispatcher(k) for k in sorted(self.disp)]
        dd = [d.split(' {', 1)[0] + ';' for d in disp]
        ext = ['extern "C" %s;' % s for s in self.externs.values()]
        return '\n'.join(['#include "jvm.h"'] + D + ext + lits + dd + B + disp + meta + arr + [tbl]) + '\n'

    def thunk(self, m):
        a, r = parse_desc(m.desc)
        args = [] if m.flags & ACC_STATIC else ['self']
        args += ['a[%d].%s' % (i, JVM[kind(d)]) for i, d in enumerate(a)]
        call = '%s(%s)' % (self.mn(m), ', '.join(args))
        if r != 'V':
            call = 'r->%s = %s' % (JVM[kind(r)], call)
        return 'static void T%s(Obj* self, const JV* a, JV* r) { %s%s; }' % (self.mn(m), self.clinit(m.cls.name) if m.flags & ACC_STATIC else '', call)

    def clinit(self, n, cur=None):
        """statement initialising class n if that can do anything"""
        if n == cur or not any(m.name == '<clinit>' for x in self.supers(n) for m in self.cls[x].methods):
            return ''
        return 'jvm_init(&C_%s); ' % idn(n)

    def meta(self, n):
        c = self.cls[n]
        I = idn(n)
        o = []
        ms = []
        for m in c.methods:
            ms.append('{ %s, %d, %s, %d, &C_%s, %d, %s, %d }' % (cstr(m.name), len(m.name.encode()), cstr(m.desc), len(m.desc.encode()), I, m.flags, '0' if m.flags & ACC_ABSTRACT else 'T' + self.mn(m), self.selector(m.name, m.desc)))
        o.append('static Mth MT_%s[] = { %s };' % (I, ', '.join(ms + ['{0}'])))
        fs = []
        for fl, nm, d, cv in c.fields:
            fs.append('{ %s, %d, %s, %d, &C_%s, %d, %s, %s }' % (cstr(nm), len(nm.encode()), cstr(d), len(d.encode()), I, fl, '0' if fl & ACC_STATIC else 'offsetof(F_%s, f_%s)' % (I, idn(nm)), '(void*)&S_%s_%s' % (I, idn(nm)) if fl & ACC_STATIC else '0'))
        o.append('static Fld FD_%s[] = { %s };' % (I, ', '.join(fs + ['{0}'])))
        o.append('static Cls* IF_%s[] = { %s };' % (I, ', '.join([self.cref(x) for x in c.ifs] + ['0'])))
        # class initialiser
        init = []
        for fl, nm, d, cv in c.fields:
            if fl & ACC_STATIC and cv is not None:
                k = c.cp[cv]
                init.append('S_%s_%s = %s;' % (I, idn(nm), self.const(k, c)))
        cl = [m for m in c.methods if m.name == '<clinit>']
        if cl:
            init.append('%s();' % self.mn(cl[0]))
        o.append('static void I_%s() { %s }' % (I, ' '.join(init)))
        o.append('Cls C_%s = { %s, %d, %s, IF_%s, %d, MT_%s, %d, FD_%s, %d, sizeof(F_%s), 0, I_%s, 0, 0, %d, 0, %d };' % (
            I, cstr(n), len(n.encode()), '&C_' + idn(c.super) if c.super else '0', I, len(c.ifs), I, len(c.methods), I, len(c.fields), I, I, self.ids[n], c.flags))
        return '\n'.join(o)

    def const(self, k, c):
        if k[0] == 'int':
            return '(int32_t)%du' % (k[1] & 0xffffffff)
        if k[0] == 'long':
            return '(int64_t)%dull' % (k[1] & (1 << 64) - 1)
        if k[0] == 'float':
            return 'jvm_f32(%du)' % k[1]
        if k[0] == 'double':
            return 'jvm_f64(%dull)' % k[1]
        if k[0] == 'string':
            b = c.cp[k[1]][1]
            l = self.lit(b)
            return 'jvm_lit(&L_%d, LD_%d, %d)' % (l, l, len(mutf8(b)))
        if k[0] == 'class':
            return 'jvm_mirror(%s)' % self.cref(c.utf(k[1]))
        raise J2CError('constant ' + k[0])

    def dispatcher(self, key):
        name, desc = key
        a, r = parse_desc(desc)
        rt = CT[kind(r)]
        sig = 'static %s D_%s_%s(Obj* o%s)' % (rt, idn(name), idn(desc), ''.join(', %s a%d' % (CT[kind(d)], i) for i, d in enumerate(a)))
        groups = {}
        for n in sorted(self.cls):
            c = self.cls[n]
            if c.flags & (ACC_ABSTRACT | ACC_IFACE):
                continue
            m = self.find(n, name, desc)
            if m is None or m.flags & (ACC_ABSTRACT | ACC_STATIC):
                continue
            groups.setdefault(self.mn(m), []).append(self.ids[n])
        args = ', '.join(['o'] + ['a%d' % i for i in range(len(a))])
        if key == ('clone', '()Ljava/lang/Object;'):
            groups.setdefault('jvm_clone', []).append(-1)
        s = sig + ' { switch (o->cls->id) { '
        for fn, ids in groups.items():
            s += ' '.join('case %d:' % i for i in ids) + ' return %s(%s); ' % (fn, args)
        s += '} jvm_fail("no implementation of %s%s"); }' % (name, desc)
        return s

    def native(self, m):
        a, r = parse_desc(m.desc)
        short = 'Java_%s_%s' % (jni_mangle(m.cls.name), jni_mangle(m.name))
        long_ = short + '__' + jni_mangle(m.desc[1:m.desc.index(')')])
        sym = short if short in self.glue else long_ if long_ in self.glue else None
        head = 'static ' + self.params(m)
        what = '%s.%s%s' % (m.cls.name, m.name, m.desc)
        if sym is None:
            self.problems.append('no symbol for ' + what)
            return head + ' { jvm_fail(%s); }' % cstr('UnsatisfiedLinkError: %s (neither %s nor %s is exported)' % (what, short, long_))
        want = (LLT.get(r[0], 'ptr'), ['ptr', 'ptr'] + [LLT.get(d[0], 'ptr') for d in a])
        if self.glue[sym] != want:
            self.problems.append('signature of ' + what)
            return head + ' { jvm_fail(%s); }' % cstr('%s is bound to %s with parameters %s, it needs %s' % (what, sym, self.glue[sym], want))
        nt = NT.get(r[0], 'jobject')
        self.externs[sym] = '%s %s(%s)' % (nt, sym, ', '.join(['JNIEnv*', 'jobject'] + [NT.get(d[0], 'jobject') for d in a]))
        args = ['jvm_local(jvm_mirror(&C_%s))' % idn(m.cls.name) if m.flags & ACC_STATIC else 'jvm_local(self)']
        for i, d in enumerate(a):
            args.append('jvm_local(a%d)' % i if kind(d) == 'a' else '(%s)a%d' % (NT[d[0]], i))
        names = ['n%d' % i for i in range(len(args))]
        s = head + ' { Frame fr; jvm_enter(&fr); '
        for nme, e, d in zip(names, args, ['L'] + a):
            s += '%s %s = %s; ' % (NT.get(d[0], 'jobject'), nme, e)
        s += 'fr.n = 0; '
        call = '%s(&jvm_env, %s)' % (sym, ', '.join(names))
        if r == 'V':
            return s + call + '; jvm_leave(&fr, 0); }'
        s += '%s r = %s; ' % (nt, call)
        if kind(r) == 'a':
            return s + 'Obj* o = jvm_leave(&fr, r); %sreturn o; }' % ('if (o && !jvm_inst(o, %s)) jvm_fail("native method returns an object of the wrong class"); ' % self.cref(r[1:-1] if r[0] == 'L' else r))
        s += 'jvm_leave(&fr, 0); '
        if r == 'Z':
            return s + 'return r != 0; }'
        return s + 'return (%s)r; }' % CT[kind(r)]

    # --- one method
    def method(self, m):
        c = m.cls
        ins = decode(m.code)
        at = {i[0]: i for i in ins}
        a, rd = parse_desc(m.desc)
        rk = kind(rd)
        self.line = m.lines

        def line(off):
            l = 0
            for o, n in m.lines:
                if o <= off:
                    l = n
            return l
        # stack shapes
        shape = {0: []}
        todo = [0]
        out = {}
        used = set()
        targets = set()
        exh = {}
        for s, e, h, t in m.ex:
            targets.add(h)
        retv = 'return' if rk == 'v' else 'return 0'
        # reference parameters the method does not use any more after an instruction: their objects may be
        # finalized from there on (JLS 12.6.1), unless something else holds them
        sl, refp = 0 if m.flags & ACC_STATIC else 1, [] if m.flags & ACC_STATIC or m.flags & 0x20 else [0]
        for d in a:
            if kind(d) == 'a':
                refp.append(sl)
            sl += 2 if d in 'JD' else 1
        live = live_after(ins, m.ex) if refp and c.name not in self.native_impl else {}

        def dead_params(off, vs):
            for i in refp:
                if i not in live[off]:
                    o = loc(i, 'a')
                    E.append('if (%s) jvm_unreach(%s);' % (' && '.join([o] + ['%s != %s' % (o, v) for v in vs]), o))

        def handlers(off):
            return tuple((h, c.cls(t) if t else None) for s, e, h, t in m.ex if s <= off < e)

        def throw_to(off):
            hs = handlers(off)
            if not hs:
                return retv
            k = exh.setdefault(hs, len(exh))
            return 'goto X%d' % k
        while todo:
            off = todo.pop()
            if off in out:
                continue
            _, op, arg, nxt = at[off]
            stk = list(shape[off])
            E = []
            succ = []
            fall = True

            def var(d, k):
                used.add(('s', d, k))
                return 's%d%s' % (d, k)

            def loc(i, k):
                used.add(('l', i, k))
                return 'l%d%s' % (i, k)

            def pop(k=None):
                t = stk.pop()
                if k and t != k:
                    raise J2CError('stack type %s for %s in %s' % (t, k, m.name))
                return var(len(stk), t)

            def push(k, e):
                v = var(len(stk), k)
                stk.append(k)
                E.append('%s = %s;' % (v, e))

            def check(cond, cls):
                E.append('if (%s) { jvm_throw(%s); %s; }' % (cond, self.cref(cls), throw_to(off)))

            def after_call():
                E.append('if (jvm_exc) %s;' % throw_to(off))
            NPE = 'java/lang/NullPointerException'
            if op == 'nop':
                pass
            elif op == 'aconst_null':
                push('a', '0')
            elif op.startswith('iconst'):
                push('i', '-1' if op[-2:] == 'm1' else op[-1])
            elif op.startswith('lconst'):
                push('l', op[-1])
            elif op.startswith('fconst'):
                push('f', op[-1])
            elif op.startswith('dconst'):
                push('d', op[-1])
            elif op in ('bipush', 'sipush'):
                push('i', str(arg))
            elif op in ('ldc', 'ldc_w', 'ldc2_w'):
                k = c.cp[arg]
                push({'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd'}.get(k[0], 'a'), self.const(k, c))
            elif re.fullmatch(r'[ilfda]load(_\d)?', op):
                i = arg if arg is not None else int(op[-1])
                push(op[0], loc(i, op[0]))
            elif re.fullmatch(r'[ilfda]store(_\d)?', op):
                i = arg if arg is not None else int(op[-1])
                E.append('%s = %s;' % (loc(i, op[0]), pop(op[0])))
            elif re.fullmatch(r'[ilfdabcs]aload', op):
                i, r = pop('i'), pop('a')
                check('!%s' % r, NPE)
                check('(uint32_t)%s >= (uint32_t)((Arr*)%s)->len' % (i, r), 'java/lang/ArrayIndexOutOfBoundsException')
                ct = {'i': 'int32_t', 'l': 'int64_t', 'f': 'float', 'd': 'double', 'a': 'Obj*', 'b': 'int8_t', 'c': 'uint16_t', 's': 'int16_t'}[op[0]]
                push(op[0] if op[0] in 'lfda' else 'i', '((%s*)((Arr*)%s)->d)[%s]' % (ct, r, i))
            elif re.fullmatch(r'[ilfdabcs]astore', op):
                v, i, r = pop(), pop('i'), pop('a')
                check('!%s' % r, NPE)
                check('(uint32_t)%s >= (uint32_t)((Arr*)%s)->len' % (i, r), 'java/lang/ArrayIndexOutOfBoundsException')
                ct = {'i': 'int32_t', 'l': 'int64_t', 'f': 'float', 'd': 'double', 'a': 'Obj*', 'b': 'int8_t', 'c': 'uint16_t', 's': 'int16_t'}[op[0]]
                E.append('((%s*)((Arr*)%s)->d)[%s] = (%s)%s;' % (ct, r, i, ct, v))
            elif op == 'pop':
                pop()
            elif op == 'pop2':
                if stk[-1] in 'ld':
                    pop()
                else:
                    pop(), pop()
            elif op.startswith('dup'):
                n = 1
                x = 0
                mm = re.match(r'dup(2)?(?:_x(\d))?', op)
                if mm.group(1) and stk[-1] not in 'ld':
                    n = 2
                if mm.group(2):
                    w = int(mm.group(2))
                    while w > 0:
                        w -= 2 if stk[-1 - n - x] in 'ld' else 1
                        x += 1
                ks = stk[len(stk) - n - x:]
                vs = [var(len(stk) - n - x + i, k) for i, k in enumerate(ks)]
                E.append('{ ' + ' '.join('%s t%d = %s;' % (CT[k], i, v) for i, (k, v) in enumerate(zip(ks, vs))))
                del stk[len(stk) - n - x:]
                order = list(range(x, x + n)) + list(range(x + n))
                for i in order:
                    push(ks[i], 't%d' % i)
                E.append('}')
            elif op == 'swap':
                k1, k2 = stk[-1], stk[-2]
                v1, v2 = pop(), pop()
                E.append('{ %s t1 = %s; %s t2 = %s;' % (CT[k1], v1, CT[k2], v2))
                push(k1, 't1')
                push(k2, 't2')
                E.append('}')
            elif re.fullmatch(r'[ilfd](add|sub|mul|and|or|xor)', op):
                k = op[0]
                b, x = pop(k), pop(k)
                o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op[1:]]
                u = {'i': 'uint32_t', 'l': 'uint64_t'}.get(k)
                push(k, '(%s)((%s)%s %s (%s)%s)' % (CT[k], u, x, o, u, b) if u else '%s %s %s' % (x, o, b))
            elif re.fullmatch(r'[il](div|rem)', op):
                k = op[0]
                b, x = pop(k), pop(k)
                check('%s == 0' % b, 'java/lang/ArithmeticException')
                u = {'i': 'uint32_t', 'l': 'uint64_t'}[k]
                push(k, ('%s == -1 ? (%s)(0 - (%s)%s) : %s / %s' % (b, CT[k], u, x, x, b)) if op[1:] == 'div' else '%s == -1 ? 0 : %s %% %s' % (b, x, b))
            elif re.fullmatch(r'[fd]div', op):
                k = op[0]
                b, x = pop(k), pop(k)
                push(k, '%s / %s' % (x, b))
            elif re.fullmatch(r'[ilfd]neg', op):
                k = op[0]
                x = pop(k)
                push(k, '(%s)(0 - (%s)%s)' % (CT[k], {'i': 'uint32_t', 'l': 'uint64_t'}[k], x) if k in 'il' else '-%s' % x)
            elif re.fullmatch(r'[il]u?sh[lr]', op):
                k = op[0]
                b, x = pop('i'), pop(k)
                u = {'i': 'uint32_t', 'l': 'uint64_t'}[k]
                msk = 31 if k == 'i' else 63
                if op[1:] == 'shl':
                    push(k, '(%s)((%s)%s << (%s & %d))' % (CT[k], u, x, b, msk))
                elif op[1:] == 'shr':
                    push(k, '%s >> (%s & %d)' % (x, b, msk))
                else:
                    push(k, '(%s)((%s)%s >> (%s & %d))' % (CT[k], u, x, b, msk))
            elif op == 'iinc':
                v = loc(arg[0], 'i')
                E.append('%s = (int32_t)((uint32_t)%s + (uint32_t)%d);' % (v, v, arg[1]))
            elif re.fullmatch(r'[ilfd]2[ilfdbcs]', op):
                x = pop(op[0])
                t = op[2]
                if t in 'bcs':
                    push('i', '(%s)%s' % ({'b': 'int8_t', 'c': 'uint16_t', 's': 'int16_t'}[t], x))
                elif op[0] in 'fd' and t in 'il':
                    push(t, 'jvm_f2%s((double)%s)' % (t, x))
                else:
                    push(t, '(%s)%s' % (CT[t], x))
            elif op in ('lcmp', 'fcmpl', 'fcmpg', 'dcmpl', 'dcmpg'):
                b, x = pop(op[0]), pop(op[0])
                if op[-1] == 'g':
                    push('i', '%s < %s ? -1 : %s == %s ? 0 : 1' % (x, b, x, b))
                else:
                    push('i', '%s > %s ? 1 : %s == %s ? 0 : -1' % (x, b, x, b))
            elif op in ('ifeq', 'ifne', 'iflt', 'ifge', 'ifgt', 'ifle', 'ifnull', 'ifnonnull'):
                x = pop()
                o = {'ifeq': '==', 'ifne': '!=', 'iflt': '<', 'ifge': '>=', 'ifgt': '>', 'ifle': '<=', 'ifnull': '==', 'ifnonnull': '!='}[op]
                E.append('if (%s %s 0) goto L%d;' % (x, o, arg))
                succ.append(arg)
            elif op.startswith('if_'):
                b, x = pop(), pop()
                o = {'eq': '==', 'ne': '!=', 'lt': '<', 'ge': '>=', 'gt': '>', 'le': '<='}[op[-2:]]
                E.append('if (%s %s %s) goto L%d;' % (x, o, b, arg))
                succ.append(arg)
            elif op == 'goto':
                E.append('goto L%d;' % arg)
                succ.append(arg)
                fall = False
            elif op in ('tableswitch', 'lookupswitch'):
                x = pop('i')
                E.append('switch (%s) { %s default: goto L%d; }' % (x, ' '.join('case (int32_t)%du: goto L%d;' % (k & 0xffffffff, t) for k, t in arg[1]), arg[0]))
                succ += [arg[0]] + [t for _, t in arg[1]]
                fall = False
            elif re.fullmatch(r'[ilfda]return', op):
                E.append('return %s;' % pop(op[0]))
                fall = False
            elif op == 'return':
                E.append('return;')
                fall = False
            elif op in ('getstatic', 'putstatic'):
                cn, nm, d = c.ref(arg)
                own, f = self.find_field(cn, nm, d)
                ci = self.clinit(own, c.name if m.name == '<clinit>' else None)
                fld = 'S_%s_%s' % (idn(own), idn(nm))
                if own not in self.native_impl or True:
                    if any(x[3] is not None for x in self.cls[own].fields) and not ci and own != c.name:
                        ci = 'jvm_init(&C_%s); ' % idn(own)
                if ci:
                    E.append(ci)
                    after_call()
                if op == 'getstatic':
                    push(kind(d), fld)
                else:
                    E.append('%s = (%s)%s;' % (fld, FT.get(d[0], 'Obj*'), pop(kind(d))))
            elif op in ('getfield', 'putfield'):
                cn, nm, d = c.ref(arg)
                own, f = self.find_field(cn, nm, d)
                v = pop(kind(d)) if op == 'putfield' else None
                o = pop('a')
                check('!%s' % o, NPE)
                fld = '((F_%s*)%s)->f_%s' % (idn(own), o, idn(nm))
                if v:
                    E.append('%s = (%s)%s;' % (fld, FT.get(d[0], 'Obj*'), v))
                else:
                    push(kind(d), fld)
            elif op.startswith('invoke'):
                cn, nm, d = c.ref(arg)
                aa, rr = parse_desc(d)
                vs = [pop(kind(x)) for x in reversed(aa)][::-1]
                if cn == 'vp/V' and nm == 'chk' and d == '(Z)V':
                    E.append('v_chk(%s, %s);' % (vs[0], cstr('%s:%d' % (c.source, line(off)))))
                else:
                    call = None
                    if op == 'invokestatic':
                        t = self.find(cn, nm, d)
                        if t is None:
                            raise J2CError('method %s.%s%s is outside the modelled library' % (cn, nm, d))
                        ci = self.clinit(t.cls.name, c.name)
                        if ci:
                            E.append(ci)
                            after_call()
                        if live and t.flags & ACC_NATIVE and t.cls.name not in self.native_impl:
                            dead_params(off, [v for v, x in zip(vs, aa) if kind(x) == 'a'])
                        call = '%s(%s)' % (self.mn(t), ', '.join(vs))
                    else:
                        o = pop('a')
                        check('!%s' % o, NPE)
                        if cn.startswith('['):
                            if nm != 'clone':
                                raise J2CError('array method ' + nm)
                            call = 'jvm_clone(%s)' % o
                        else:
                            t = self.find(cn, nm, d)
                            if t is None:
                                raise J2CError('method %s.%s%s is outside the modelled library' % (cn, nm, d))
                            if op == 'invokespecial' or t.flags & (ACC_PRIVATE | ACC_FINAL) or self.get(cn).flags & ACC_FINAL:
                                if t.flags & ACC_ABSTRACT:
                                    raise J2CError('abstract call')
                                if live and t.flags & ACC_NATIVE and t.cls.name not in self.native_impl:
                                    dead_params(off, [o] + [v for v, x in zip(vs, aa) if kind(x) == 'a'])
                                call = '%s(%s)' % (self.mn(t), ', '.join([o] + vs))
                            else:
                                self.disp[(nm, d)] = 1
                                call = 'D_%s_%s(%s)' % (idn(nm), idn(d), ', '.join([o] + vs))
                    if rr == 'V':
                        E.append(call + ';')
                        after_call()
                    else:
                        push(kind(rr), call)
                        after_call()
            elif op == 'new':
                cn = c.cls(arg)
                ci = self.clinit(cn, c.name)
                if ci:
                    E.append(ci)
                    after_call()
                push('a', 'jvm_new(%s)' % self.cref(cn))
            elif op in ('newarray', 'anewarray'):
                n = pop('i')
                check('%s < 0' % n, 'java/lang/NegativeArraySizeException')
                if op == 'newarray':
                    an = '[' + {4: 'Z', 5: 'C', 6: 'F', 7: 'D', 8: 'B', 9: 'S', 10: 'I', 11: 'J'}[arg]
                else:
                    cn = c.cls(arg)
                    an = '[' + (cn if cn[0] == '[' else 'L%s;' % cn)
                push('a', 'jvm_newarr(%s, %s)' % (self.cref(an), n))
            elif op == 'arraylength':
                o = pop('a')
                check('!%s' % o, NPE)
                push('i', '((Arr*)%s)->len' % o)
            elif op == 'athrow':
                o = pop('a')
                check('!%s' % o, NPE)
                E.append('jvm_exc = %s; %s;' % (o, throw_to(off)))
                fall = False
            elif op == 'checkcast':
                cn = c.cls(arg)
                o = pop('a')
                check('%s && !jvm_inst(%s, %s)' % (o, o, self.cref(cn)), 'java/lang/ClassCastException')
                push('a', o)
            elif op == 'instanceof':
                cn = c.cls(arg)
                o = pop('a')
                push('i', '%s && jvm_inst(%s, %s)' % (o, o, self.cref(cn)))
            elif op in ('monitorenter', 'monitorexit'):
                o = pop('a')
                check('!%s' % o, NPE)
                E.append('%s->mon%s;' % (o, '++' if op[7:] == 'enter' else '--'))
            else:
                raise J2CError('bytecode ' + op)
            if fall:
                succ.append(nxt)
                if nxt not in at:
                    raise J2CError('falls off the end')
            targets.update(x for x in succ if x != nxt or not fall or succ.count(x) > 1)
            for s in succ:
                if s in shape:
                    if shape[s] != stk:
                        raise J2CError('stack shapes differ at %d in %s.%s' % (s, c.name, m.name))
                else:
                    shape[s] = list(stk)
                if s not in out:
                    todo.append(s)
            for h, t in handlers(off):
                shape.setdefault(h, ['a'])
                used.add(('s', 0, 'a'))
                if h not in out:
                    todo.append(h)
            out[off] = (E, fall, nxt)
        # text
        lines = []
        offs = sorted(out)
        for i, off in enumerate(offs):
            E, fall, nxt = out[off]
            lines.append(('L%d: ' % off if off in targets else '') + ' '.join(E) + (';' if off in targets and not E else ''))
            if fall and (i + 1 == len(offs) or offs[i + 1] != nxt):
                lines.append('goto L%d;' % nxt)
                targets.add(nxt)
        # a label may have been added after its line was printed
        lines = []
        for i, off in enumerate(offs):
            E, fall, nxt = out[off]
            lines.append(('L%d: ;' % off if off in targets else '') + ' '.join(E))
            if fall and (i + 1 == len(offs) or offs[i + 1] != nxt):
                lines.append('goto L%d;' % nxt)
        for hs, k in exh.items():
            t = 'X%d: ;' % k
            alltypes = False
            for h, tn in hs:
                if tn is None:
                    t += 's0a = jvm_exc; jvm_exc = 0; goto L%d;' % h
                    alltypes = True
                    break
                t += 'if (jvm_inst(jvm_exc, %s)) { s0a = jvm_exc; jvm_exc = 0; goto L%d; } ' % (self.cref(tn), h)
            if not alltypes:
                t += retv + ';'
            lines.append(t)
        dec = []
        li = 0
        pre = []
        if not m.flags & ACC_STATIC:
            pre.append('l0a = self;')
            used.add(('l', 0, 'a'))
            li = 1
        for i, d in enumerate(a):
            k = kind(d)
            pre.append('l%d%s = a%d;' % (li, k, i))
            used.add(('l', li, k))
            li += 2 if k in 'ld' else 1
        for p, d, k in sorted(used):
            dec.append('%s %s%d%s = 0;' % (CT[k], p, d, k))
        sync = ''
        if m.flags & ACC_SYNC and not m.flags & ACC_STATIC:
            sync = 'Mon mon_(self); '
        return 'static ' + self.params(m) + ' {\n  ' + ' '.join(dec) + '\n  ' + sync + ' '.join(pre) + '\n  ' + '\n  '.join(lines) + '\n}'


def glue_symbols(ll):
    """exported functions of an LLVM module -> (ret, [params]) basic types"""
    o = {}
    for l in open(ll):
        m = re.match(r'define (.*?)@"?(Java_[^"(]*|JNI_On\w+)"?\(', l)
        if not m or ' internal ' in m.group(1) or 'hidden' in m.group(1):
            continue
        d, i = 1, m.end()
        while d:
            d += {'(': 1, ')': -1}.get(l[i], 0)
            i += 1
        params = l[m.end():i - 1]
        rt = [t for t in m.group(1).split() if re.fullmatch(r'void|i\d+|float|double|ptr', t)]
        ps = [p.strip().split(' ')[0] for p in split_top(params) if p.strip()]
        o[re.sub(r'\\([0-9A-F]{2})', lambda x: chr(int(x.group(1), 16)), m.group(2))] = (rt[0] if rt else 'other', ps)
    return o


def split_top(s):
    o, d, cur = [], 0, ''
    for ch in s:
        if ch in '({[<':
            d += 1
        elif ch in ')}]>':
            d -= 1
        if ch == ',' and d == 0:
            o.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        o.append(cur)
    return o
