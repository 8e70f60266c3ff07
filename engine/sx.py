"""Symbolic executor for LLVM IR.

Every function reached from a harness is translated, instruction by
instruction, from the compiler's IR into a Python function over values that are
either concrete ints or z3 terms.  A path is one run of that program; at a
branch whose condition is symbolic the solver decides which sides are feasible
and the untaken feasible side is queued (depth first, by decision prefix), so
all feasible paths are run.  Assertions are decided by the solver over all
values satisfying the path condition.

Memory: an object is a byte array with a shadow (concrete / uninitialised /
symbolic byte) in its own 1 MiB address slot, so out of bounds, use after free,
use after scope, invalid free, layout mismatch and leaks are all detected.
"""
import re, struct, sys, time
import z3
import llir
from llir import Unsupported, I, PTR, VOID, Parser, lex

M64 = (1 << 64) - 1


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Fault(PathEnd):
    """a violation on this path (model available: the path condition is satisfiable)"""
    def __init__(self, kind, msg, model=None):
        PathEnd.__init__(self, 'violation', msg)
        self.vkind = kind
        self.model = model


class Inconclusive(Exception):
    pass


PANIC = re.compile(r'(?:_R[A-Za-z0-9_]*?(?:9panicking|13unwrap_failed|13expect_failed|16slice_error_fail|24slice_(?:start|end)_index|22slice_index_order_fail|16slice_index_fail|18slice_index_fail|26slice_start_index_len_fail|24slice_end_index_len_fail|17capacity_overflow|12handle_error|13assert_failed|17rust_begin_unwind|len_mismatch_fail|panic_already_borrowed|panic_already_mutably_borrowed|begin_panic))|^rust_panic|^rust_begin_unwind')
NOTPANIC = re.compile(r'panic_count|9panickingNt|9panicking9panicking|panicking11panicking')
OOM = re.compile(r'handle_alloc_error|rust_alloc_error_handler|20__rust_alloc_error')


class Obj:
    __slots__ = ('base', 'size', 'data', 'sh', 'sym', 'kind', 'state', 'ro', 'clean', 'shared', 'name')

    def __init__(self, base, size, kind, name='', uninit=True):
        self.base = base
        self.size = size
        self.data = bytearray(size)
        self.sh = bytearray(b'\1' * size) if uninit else bytearray(size)
        self.sym = {}
        self.kind = kind
        self.state = 0
        self.ro = False
        self.clean = not uninit
        self.shared = False
        self.name = name

    def clone(self):
        o = Obj.__new__(Obj)
        o.base = self.base
        o.size = self.size
        o.data = bytearray(self.data)
        o.sh = bytearray(self.sh)
        o.sym = dict(self.sym)
        o.kind = self.kind
        o.state = self.state
        o.ro = self.ro
        o.clean = self.clean
        o.shared = False
        o.name = self.name
        return o


ZB = [bytes(n) for n in range(65)]
SLOT = 20


def san(name):
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x_' % ord(m.group()), n)


def cname(name):
    n = name[1:]
    return n[1:-1] if n.startswith('"') else n


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def bv(x, w):
    return z3.BitVecVal(x, w) if type(x) is int else x


def bo(x):
    return z3.BoolVal(bool(x)) if type(x) is int else x


def is_bool(x):
    return isinstance(x, z3.BoolRef)


# ------------------------------------------------------------------ program
class Program:
    """modules + symbol resolution + lazily compiled functions (shared by all paths of a harness)"""

    def __init__(self, paths):
        self.mods = [llir.Module(p) for p in paths]
        self.defs = {}
        self.gdefs = {}
        for m in self.mods:
            for n, (i, d, loc) in m.ftext.items():
                if d and not loc and n not in self.defs:
                    self.defs[n] = m
            for n, ln in m.gtext.items():
                h = ln[len(n):len(n) + 60]
                if re.match(r' = (?:private|internal)', h):
                    continue
                if re.match(r' = (?:\w+ )*(?:external|extern_weak) ', h):
                    continue
                if n not in self.gdefs:
                    self.gdefs[n] = m
        self.fn_ids = {}       # (mod, name) -> id
        self.fns = []          # id -> record
        self.fn_by_addr = {}
        self.gaddr = {}        # (mod, name) -> Obj
        self.next_slot = 0x100
        self.base_objs = {}
        self.pending_init = []
        self.env = dict(globals())   # python globals of generated code
        self.compiled = []
        self.src = {}

    # -------- addresses
    def new_slot(self, size):
        n = (size + 0x2000 >> SLOT) + 1
        s = self.next_slot
        self.next_slot += n
        return s, n

    def place(self, size, align):
        s, n = self.new_slot(size)
        a = max(align, 1)
        base = (s << SLOT) + 0x1000 + (a if a < 0x1000 else 0)
        return base, s, n

    def resolve_fn(self, mod, name):
        """-> (mod, name, is_def)"""
        name, mod = self.alias(mod, name)
        if name in mod.ftext and mod.ftext[name][1]:
            return mod, name, True
        if name in self.defs:
            return self.defs[name], name, True
        for m in self.mods:
            if name in m.gtext and ' alias ' in m.gtext[name]:
                n2, m2 = self.alias(m, name)
                if n2 != name:
                    return self.resolve_fn(m2, n2)
        return mod, name, False

    def alias(self, mod, name):
        k = 0
        while name in mod.gtext and re.match(r'(?: |\w)*= (?:[\w()]+ )*?alias ', mod.gtext[name][len(name):len(name) + 120]):
            mod.glob(name)
            t, v = mod.aliases[name]
            if v[0] != 'global':
                raise Unsupported('alias expr')
            name = v[1]
            k += 1
            if k > 10:
                raise Unsupported('alias loop')
        return name, mod

    def fn_addr(self, mod, name):
        r = self.fn_rec(mod, name)
        return r.addr

    def fn_rec(self, mod, name):
        m, n, d = self.resolve_fn(mod, name)
        key = (id(m), n) if d else (0, n)
        r = self.fn_ids.get(key)
        if r is None:
            r = FnRec()
            r.id = len(self.fns)
            r.mod, r.name, r.is_def = m, n, d
            s, k = self.new_slot(1)
            r.addr = (s << SLOT) + 0x1000
            r.fn = None
            r.sig = None
            self.fns.append(r)
            self.fn_ids[key] = r
            self.fn_by_addr[r.addr] = r
        return r

    def glob_addr(self, mod, name):
        name, mod = self.alias(mod, name)
        if name in mod.ftext and name not in mod.gtext:
            return self.fn_addr(mod, name)
        g = mod.glob(name)
        if g is None:
            return self.fn_addr(mod, name)
        key = (id(mod), name)
        if key in self.gaddr:
            return self.gaddr[key].base
        if g['init'] is None:
            if name in self.gdefs and self.gdefs[name] is not mod:
                return self.glob_addr(self.gdefs[name], name)
            # undefined external data: an object nobody may read (unless modelled)
            size = mod.size(g['type'])
            base, s, n = self.place(size, 16)
            o = Obj(base, size, 'external', cname(name))
            if cname(name) in ('__rust_no_alloc_shim_is_unstable',):
                o = Obj(base, size, 'global', cname(name), uninit=False)
        else:
            size = mod.size(g['type'])
            base, s, n = self.place(size, g['align'])
            o = Obj(base, size, 'global', cname(name), uninit=False)
            o.ro = g['const']
        o.shared = True
        self.gaddr[key] = o
        for i in range(n):
            self.base_objs[s + i] = o
        if ENG is not None:
            for i in range(n):
                ENG.objs[s + i] = o
        if g['init'] is not None:
            self.init_mem(mod, o, 0, g['type'], g['init'])
        return base

    def init_mem(self, mod, o, off, t, v):
        t = mod.res(t)
        k = t[0]
        if v[0] == 'zero':
            return
        if v[0] == 'undef':
            n = mod.size(t)
            return
        if v[0] == 'cstr':
            o.data[off:off + len(v[1])] = v[1]
            return
        if k in ('struct', 'arr', 'vec'):
            for i, (et, ev) in enumerate(v[1]):
                fo, _ = mod.field_off(t, i)
                self.init_mem(mod, o, off + fo, et, ev)
            return
        x = self.const(mod, t, v)
        n = mod.size(t)
        o.data[off:off + n] = (x & ((1 << 8 * n) - 1)).to_bytes(n, 'little')

    def const(self, mod, t, v):
        """concrete value of a scalar constant (floats as bit patterns)"""
        t = mod.res(t)
        k = v[0]
        if k == 'int':
            return v[1] & ((1 << t[1]) - 1)
        if k in ('flt', 'flthex'):
            return fltbits(t, v)
        if k == 'null' or k == 'zero':
            return 0
        if k == 'global':
            return self.glob_addr(mod, v[1])
        if k == 'undef':
            return 0
        if k == 'cgep':
            base = self.const(mod, PTR, v[2])
            return (base + gep_const(mod, v[1], v[3])) & M64
        if k == 'ccast':
            op, ft, x, tt = v[1:]
            e = self.const(mod, ft, x)
            tt = mod.res(tt)
            if op == 'sext':
                e = sgn(e, mod.res(ft)[1])
            if tt[0] == 'i':
                e &= (1 << tt[1]) - 1
            return e
        if k == 'cbin':
            op, at, a, b = v[1:]
            a, b = self.const(mod, at, a), self.const(mod, at, b)
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'shl': a << b if op == 'shl' and b < 512 else 0, 'lshr': a >> b}[op]
            return r & ((1 << mod.res(at)[1]) - 1)
        raise Unsupported('const %r' % (v,))

    # -------- functions
    def get(self, rec):
        if rec.fn is None:
            if not rec.is_def or is_builtin(cname(rec.name)):
                b = builtin_for(cname(rec.name))
                rec.fn = b
                if rec.sig is None:
                    f = rec.mod.func(rec.name)
                    rec.sig = [leafcls(rec.mod, t) for t, nm, at in f.params for t in ([PTR] if 'byval' in at else [l[0] for l in rec.mod.leaves(t)])]
                    rec.ret = f.ret
                    rec.va = f.va
            else:
                rec.fn = compile_fn(self, rec)
        return rec.fn


class FnRec:
    pass


def gep_const(m, bt, idx):
    off = 0
    t = bt
    for n, (it, iv) in enumerate(idx):
        if iv[0] == 'zero':
            i = 0
        elif iv[0] == 'int':
            i = iv[1]
        else:
            raise Unsupported('cgep index')
        if n == 0:
            off += i * m.size(t)
        else:
            r = m.res(t)
            if r[0] == 'struct':
                o, t = m.field_off(r, i)
                off += o
            else:
                t = r[2]
                off += i * m.size(t)
    return off


def fltbits(t, v):
    if v[0] == 'flt':
        x = v[1]
        return struct.unpack('<I', struct.pack('<f', x))[0] if t[0] == 'float' else struct.unpack('<Q', struct.pack('<d', x))[0]
    s = v[1]
    m = re.match(r'f?0x([0-9a-fA-F]+)$', s)
    if not m:
        raise Unsupported('float literal ' + s)
    h = int(m.group(1), 16)
    if s.startswith('f0x'):
        return h
    if t[0] == 'double':
        return h
    d = struct.unpack('<d', struct.pack('<Q', h))[0]
    if d != d:
        return ((h >> 63) << 31) | 0x7f800000 | ((h >> 29) & 0x7fffff)
    return struct.unpack('<I', struct.pack('<f', d))[0]


def leafcls(m, t):
    t = m.res(t)
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 64
    if t[0] == 'float':
        return 'f32'
    if t[0] == 'double':
        return 'f64'
    if t[0] == 'vec':
        return 'v%dx%d' % (m.size(t), t[1])
    raise Unsupported('leaf %r' % (t,))


# ------------------------------------------------------------------ engine (one harness)
ENG = None


class Engine:
    def __init__(self, prog, limits):
        global ENG
        ENG = self
        self.prog = prog
        self.lim = limits
        self.solver = z3.SolverFor('QF_BV') if limits.get('bvsolver') else z3.Solver()
        self.solver.set('timeout', int(limits.get('query_ms', 60000)))
        self.log = []        # entries (choice, pushed) of the current path
        self.keep = 0
        self.stats = dict(paths=0, queries=0, solver_s=0.0, steps=0, chk=0, chk_discharged=0, branches=0, forks=0, assumed_away=0, expected_aborts=0)
        self.work = [()]
        self.prev = []
        self.model = None
        self.kinds = {}

    # ---- solver
    def check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise Inconclusive('solver: ' + self.solver.reason_unknown())
        if r == z3.sat:
            self.lastmodel = self.solver.model()
            return True
        return False

    def get_model(self):
        if self.model is None:
            if not self.check():
                raise Inconclusive('path condition became unsat')
            self.model = self.lastmodel
        return self.model

    def add(self, c):
        """assert c as a new level; the entry must be appended by the caller"""
        self.solver.push()
        self.solver.add(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def decide(self, conds):
        """choose among alternatives (list of z3 Bools, exhaustive). returns index."""
        p = self.pos
        self.pos += 1
        if p < len(self.prefix):
            ch, forced = self.prefix[p]
            if not forced:
                if p >= self.keep:
                    self.add(conds[ch])
                self.levels += 1
            self.log.append((ch, forced))
            return ch
        self.stats['branches'] += 1
        feas = []
        m = self.get_model()
        mi = None
        for i, c in enumerate(conds):
            if mi is None and z3.is_true(m.eval(c, model_completion=True)):
                mi = i
                feas.append(i)
            elif i == len(conds) - 1 and not feas:
                feas.append(i)
            else:
                if self.check(c):
                    feas.append(i)
        if not feas:
            raise Inconclusive('no feasible alternative')
        if len(feas) == 1:
            self.log.append((feas[0], True))
            return feas[0]
        self.stats['forks'] += len(feas) - 1
        for i in reversed(feas[1:]):
            self.work.append(tuple(self.log) + ((i, False),))
        ch = feas[0]
        self.add(conds[ch])
        self.levels += 1
        self.log.append((ch, False))
        return ch

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        r = self.decide([c, z3.Not(c)])
        if self.has_undef and not self.log[-1][1] and self.mentions_undef(c):
            raise Fault('uninit', 'branch depends on uninitialised memory')
        return 1 - r

    def mentions_undef(self, e):
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.decl().name().startswith('undef!'):
                    return True
            st.extend(x.children())
        return False

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathEnd('assumed')
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('assumed')
        p = self.pos
        self.pos += 1
        if p < len(self.prefix):
            if p >= self.keep:
                self.add(c)
            self.levels += 1
            self.log.append((0, False))
            return
        if not self.check(c):
            raise PathEnd('assumed')
        self.add(c)
        self.model = self.lastmodel
        self.levels += 1
        self.log.append((0, False))

    def concretize(self, x, what, cap=300):
        """fork over all feasible values of x"""
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
        # enumerate values in deterministic order; the enumeration itself is replayed through decide()
        p = self.pos
        if p < len(self.prefix):
            # the recorded choice carries the value
            ch, forced = self.prefix[p]
            self.pos += 1
            if not forced:
                if p >= self.keep:
                    self.add(x == ch)
                self.levels += 1
            self.log.append((ch, forced))
            return ch
        self.pos += 1
        self.stats['branches'] += 1
        vals = []
        m = self.get_model()
        v = m.eval(x, model_completion=True).as_long()
        vals.append(v)
        self.solver.push()
        self.solver.add(x != v)
        while self.check():
            v = self.lastmodel.eval(x, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > cap:
                self.solver.pop()
                raise TooMany(what, x)
            self.solver.add(x != v)
        self.solver.pop()
        if self.has_undef and len(vals) > 1 and self.mentions_undef(x):
            raise Fault('uninit', what + ' depends on uninitialised memory')
        if len(vals) == 1:
            self.log.append((vals[0], True))
            return vals[0]
        self.stats['forks'] += len(vals) - 1
        for v in reversed(vals[1:]):
            self.work.append(tuple(self.log) + ((v, False),))
        self.add(x == vals[0])
        self.levels += 1
        self.log.append((vals[0], False))
        return vals[0]

    # ---- memory
    def alloc(self, size, align, kind, name='', uninit=True):
        n = (size + 0x2000 >> SLOT) + 1
        s = self.next_slot
        self.next_slot += n
        base = (s << SLOT) + 0x1000 + (align if align < 0x1000 else 0)
        o = Obj(base, size, kind, name, uninit)
        for i in range(n):
            self.objs[s + i] = o
        return o

    def fresh(self, name, w):
        return z3.BitVec(name, w)

    def undef(self, w):
        self.has_undef = True
        self.nundef += 1
        return z3.BitVec('undef!%d' % self.nundef, w)

    # ---- run
    def run(self, rec):
        """explore all paths of harness rec; returns result dict"""
        t0 = time.time()
        fn = self.prog.get(rec)
        violations = {}
        samples = []
        ends = {}
        budget = self.lim.get('seconds', 300)
        err = None
        complete = True
        while self.work:
            if time.time() - t0 > budget or time.time() > self.lim.get('deadline', 1e18):
                complete = False
                err = 'time budget exhausted with %d path prefixes left' % len(self.work)
                break
            if self.stats['paths'] >= self.lim.get('paths', 20000):
                complete = False
                err = 'path limit'
                break
            self.prefix = self.work.pop()
            # solver levels shared with the previous path
            keep = 0
            lv = 0
            for a, b in zip(self.prev, self.prefix):
                if a != b:
                    break
                keep += 1
                if not a[1]:
                    lv += 1
            while self.solver.num_scopes() > lv:
                self.solver.pop()
            self.keep = keep
            self.model = None
            self.reset()
            self.stats['paths'] += 1
            try:
                fn()
                self.final_checks()
                kind = 'ok'
            except Fault as e:
                kind = 'violation'
                self.report(violations, e)
            except PathEnd as e:
                kind = e.kind
                if kind == 'abort':
                    if self.expect_abort:
                        kind = 'expected_abort'
                        self.stats['expected_aborts'] += 1
                    else:
                        kind = 'violation'
                        self.report(violations, Fault('abort', e.msg))
                elif kind == 'assumed':
                    self.stats['assumed_away'] += 1
                elif kind == 'steps':
                    kind = 'violation'
                    self.report(violations, Fault('nontermination', e.msg))
            except (Unsupported, Inconclusive, TooMany, RecursionError) as e:
                complete = False
                err = '%s: %s' % (type(e).__name__, e)
                break
            ends[kind] = ends.get(kind, 0) + 1
            if kind in ('ok', 'expected_abort'):
                ns = self.lim.get('samples', 6)
                if len(samples) < ns or (self.stats['paths'] % 7 == 0 and len(samples) < 2 * ns):
                    samples.append(self.sample(kind))
            self.prev = self.log
            if len(violations) >= 8:
                complete = False
                err = 'stopped after 8 distinct violations'
                break
        self.stats['wall_s'] = time.time() - t0
        return dict(complete=complete, error=err, violations=list(violations.values()), samples=samples, ends=ends, stats=self.stats,
                    functions=sorted(set(self.prog.compiled)))

    def reset(self):
        self.objs = dict(self.prog.base_objs)
        self.next_slot = 0x100000
        self.inputs = []
        self.obs = []
        self.pos = 0
        self.levels = 0
        self.log = []
        self.has_undef = False
        self.nundef = 0
        self.expect_abort = False
        self.allow_leak = False
        self.live = {}
        self.steps = 0
        self.bt = []
        self.notes = []
        for k in list(self.kinds):
            self.kinds[k] = 0
        self.ext = {}

    def final_checks(self):
        if self.expect_abort:
            raise Fault('chk', 'an abort/panic was expected but the call returned')
        if self.live and not self.allow_leak:
            k = sorted(self.live.values(), key=lambda o: o.base)[0]
            raise Fault('leak', '%d heap block(s) never freed, first: %s of %d bytes' % (len(self.live), k.kind, k.size))

    def report(self, violations, e):
        key = (e.vkind, e.msg)
        if key in violations:
            violations[key]['count'] += 1
            return
        m = e.model
        if m is None:
            if not self.check():
                raise Inconclusive('no model for violation')
            m = self.lastmodel
        s = self.sample_with(m, 'violation')
        s.update(vkind=e.vkind, msg=e.msg, count=1)
        violations[key] = s

    def sample(self, kind):
        return self.sample_with(self.get_model(), kind)

    def sample_with(self, m, kind):
        ev = lambda x: x if type(x) is int else (lambda v: (1 if z3.is_true(v) else 0) if is_bool(v) else v.as_long())(m.eval(x, model_completion=True))
        return dict(kind=kind, inputs=[ev(x) for x in self.inputs], obs=[(ev(x) if not (type(x) is not int and self.has_undef and self.mentions_undef(x)) else None) for x in self.obs], notes=list(self.notes))

    # ---- harness primitives
    def nd(self, w):
        x = z3.BitVec('in!%d' % len(self.inputs), w)
        self.inputs.append(x)
        return x

    def chk(self, c, label):
        self.stats['chk'] += 1
        if type(c) is int:
            if c == 0:
                raise Fault('chk', 'assertion does not hold: %s' % label)
            self.stats['chk_discharged'] += 1
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats['chk_discharged'] += 1
            return
        n = z3.Not(c)
        # beyond the recorded prefix only: the assertion was already decided for the shared prefix
        if self.check(n):
            raise Fault('chk', 'assertion does not hold: %s' % label, self.lastmodel)
        self.stats['chk_discharged'] += 1


class TooMany(Exception):
    def __init__(self, what, x):
        Exception.__init__(self, 'too many values for %s: %s' % (what, str(x)[:200]))


def fault_mem(a, n, what):
    o = ENG.objs.get(a >> SLOT)
    if a < 0x10000:
        raise Fault('mem', 'null pointer %s of %d bytes' % (what, n))
    if o is None:
        if a in ENG.prog.fn_by_addr:
            raise Fault('mem', '%s through a function pointer' % what)
        raise Fault('mem', 'wild pointer %s of %d bytes' % (what, n))
    if o.state == 1:
        raise Fault('mem', 'use after free: %s of %d bytes in freed %s block' % (what, n, o.kind))
    if o.state == 2:
        raise Fault('mem', 'use after scope: %s of %d bytes in dead stack object' % (what, n))
    if o.kind == 'external':
        raise Unsupported('external data ' + o.name)
    raise Fault('mem', 'out of bounds %s of %d bytes at offset %d of %s object of %d bytes' % (what, n, a - o.base, o.kind, o.size))


def caddr(a, what):
    """concrete address of a symbolic pointer (forks)"""
    return ENG.concretize(a, what)


# ------------------------------------------------------------------ runtime used by generated code
def BR(c):
    return ENG.branch(c)


def LD(a, n):
    if type(a) is not int:
        a = z3.simplify(a)
        if z3.is_bv_value(a):
            a = a.as_long()
        else:
            return ld_sym(a, n)
    o = ENG.objs.get(a >> SLOT)
    if o is None:
        fault_mem(a, n, 'read')
    off = a - o.base
    e = off + n
    if off < 0 or e > o.size or o.state or o.kind == 'external':
        fault_mem(a, n, 'read')
    if o.clean or o.sh[off:e] == ZB[n]:
        return int.from_bytes(o.data[off:e], 'little')
    return ld_slow(o, off, n)


def ld_slow(o, off, n):
    sh = o.sh[off:off + n]
    if 2 in sh:
        v, k = o.sym.get(off, (None, 0))
        if v is not None and sh[0] == 2 and k == 0 and v.size() == 8 * n:
            sym = o.sym
            ok = True
            for i in range(1, n):
                if sh[i] != 2:
                    ok = False
                    break
                v2, k2 = sym[off + i]
                if v2 is not v or k2 != i:
                    ok = False
                    break
            if ok:
                return v
    elif all(x == 1 for x in sh):
        u = ENG.undef(8 * n)
        for i in range(n):
            o_ = wobj(o)
            o_.sym[off + i] = (u, i)
            o_.sh[off + i] = 2
        return u
    parts = []
    i = n - 1
    while i >= 0:
        s = sh[i]
        if s == 0:
            j = i
            while j > 0 and sh[j - 1] == 0:
                j -= 1
            parts.append(z3.BitVecVal(int.from_bytes(o.data[off + j:off + i + 1], 'little'), 8 * (i - j + 1)))
            i = j - 1
        elif s == 1:
            u = ENG.undef(8)
            o_ = wobj(o)
            o_.sym[off + i] = (u, 0)
            o_.sh[off + i] = 2
            parts.append(u)
            i -= 1
        else:
            v, k = o.sym[off + i]
            j = i
            kk = k
            while j > 0 and sh[j - 1] == 2:
                v2, k2 = o.sym[off + j - 1]
                if v2 is v and k2 == kk - 1:
                    j -= 1
                    kk = k2
                else:
                    break
            if kk == 0 and 8 * (k + 1) == v.size():
                parts.append(v)
            else:
                parts.append(z3.Extract(8 * k + 7, 8 * kk, v))
            i = j - 1
    if len(parts) == 1:
        return parts[0]
    r = z3.simplify(z3.Concat(*parts))
    return r.as_long() if z3.is_bv_value(r) else r


def ld_sym(a, n):
    """read through a symbolic pointer: if/then/else over the feasible addresses, no fork"""
    E = ENG
    p = E.pos
    E.pos += 1
    if p < len(E.prefix):
        # the solver may already hold later constraints of the kept prefix: reuse the recorded address set
        vals, forced = E.prefix[p]
        E.log.append((vals, forced))
        return ld_ite(a, n, vals)
    vals = []
    E.solver.push()
    try:
        while True:
            if not E.check():
                break
            v = E.lastmodel.eval(a, model_completion=True).as_long()
            o = E.objs.get(v >> SLOT)
            if o is None or v < o.base or v + n > o.base + o.size or o.state or o.kind == 'external':
                mdl = E.lastmodel
                try:
                    fault_mem(v, n, 'read')
                except Fault as f:
                    f.model = mdl
                    raise
            vals.append(v)
            E.solver.add(a != v)
            if len(vals) > 300:
                raise TooMany('load address', a)
    finally:
        E.solver.pop()
    if E.has_undef and len(vals) > 1 and E.mentions_undef(a):
        raise Fault('uninit', 'address depends on uninitialised memory')
    vals = tuple(sorted(vals))
    E.log.append((vals, True))
    return ld_ite(a, n, vals)


def ld_ite(a, n, vals):
    r = bv(LD(vals[0], n), 8 * n)
    for v in vals[1:]:
        r = z3.If(a == v, bv(LD(v, n), 8 * n), r)
    r = z3.simplify(r)
    return r.as_long() if z3.is_bv_value(r) else r


def wobj(o):
    if o.shared:
        c = o.clone()
        s = o.base >> SLOT
        while ENG.objs.get(s) is o:
            ENG.objs[s] = c
            s += 1
        return c
    return o


def ST(a, n, v):
    if type(a) is not int:
        a = caddr(a, 'store address')
    o = ENG.objs.get(a >> SLOT)
    if o is None:
        fault_mem(a, n, 'write')
    off = a - o.base
    e = off + n
    if off < 0 or e > o.size or o.state or o.kind == 'external':
        fault_mem(a, n, 'write')
    if o.shared:
        if o.ro:
            raise Fault('mem', 'write to constant data')
        o = wobj(o)
    if type(v) is int:
        o.data[off:e] = v.to_bytes(n, 'little')
        if not o.clean:
            o.sh[off:e] = ZB[n]
        return
    if is_bool(v):
        v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
    elif v.size() != 8 * n:
        v = z3.ZeroExt(8 * n - v.size(), v)
    o.clean = False
    sym = o.sym
    for k in range(n):
        sym[off + k] = (v, k)
        o.sh[off + k] = 2


def RNG(a, n, what):
    """object and offset of a concrete range"""
    o = ENG.objs.get(a >> SLOT)
    if o is None:
        fault_mem(a, n, what)
    off = a - o.base
    if off < 0 or off + n > o.size or o.state or o.kind == 'external':
        fault_mem(a, n, what)
    return o, off


def conc(x, what):
    return x if type(x) is int else ENG.concretize(x, what)


def MEMCPY(d, s, n, overlap_ok=True):
    n = conc(n, 'copy length')
    if n == 0:
        return
    d = conc(d, 'copy destination')
    s = conc(s, 'copy source')
    so, si = RNG(s, n, 'read')
    do, di = RNG(d, n, 'write')
    if do.ro:
        raise Fault('mem', 'write to constant data')
    data = bytes(so.data[si:si + n])
    sh = bytes(so.sh[si:si + n])
    syms = None
    if not so.clean and 2 in sh:
        syms = [(k, so.sym[si + k]) for k in range(n) if sh[k] == 2]
    do = wobj(do)
    do.data[di:di + n] = data
    if any(sh):
        do.clean = False
    do.sh[di:di + n] = sh
    if syms:
        for k, x in syms:
            do.sym[di + k] = x


def MEMSET(d, c, n):
    n = conc(n, 'set length')
    if n == 0:
        return
    d = conc(d, 'set destination')
    o, i = RNG(d, n, 'write')
    if o.ro:
        raise Fault('mem', 'write to constant data')
    o = wobj(o)
    if type(c) is int:
        o.data[i:i + n] = bytes([c]) * n
        o.sh[i:i + n] = bytes(n)
    else:
        o.clean = False
        for k in range(n):
            o.sym[i + k] = (c, 0)
            o.sh[i + k] = 2


def simp(x):
    x = z3.simplify(x)
    if is_bool(x):
        return 1 if z3.is_true(x) else 0 if z3.is_false(x) else x
    return x.as_long() if z3.is_bv_value(x) else x


# arithmetic on possibly symbolic values -----------------------------------
def A_add(a, b, w):
    return a + b if type(a) is not int else b + a


def A_sub(a, b, w):
    return bv(a, w) - b


def A_mul(a, b, w):
    return a * b if type(a) is not int else b * a


def A_and(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        # low mask: keeps zero extension visible
        if b & (b + 1) == 0 and b != (1 << w) - 1:
            k = b.bit_length()
            return simp(z3.ZeroExt(w - k, z3.Extract(k - 1, 0, a)))
    return a & b


def A_or(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b == 0:
        return a
    return a | b


def A_xor(a, b, w):
    return a ^ b if type(a) is not int else b ^ a


def B_and(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    return z3.And(a, b)


def B_or(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    return z3.Or(a, b)


def B_xor(a, b):
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if type(a) is int:
            return 1 if bool(a) != bool(b) else 0
        return z3.Not(a) if b else a
    return z3.Xor(a, b)


def A_shl(a, b, w):
    if type(a) is int and type(b) is int:
        return (a << b) & ((1 << w) - 1) if b < w else 0
    return bv(a, w) << b


def A_lshr(a, b, w):
    if type(a) is int and type(b) is int:
        return a >> b if b < w else 0
    return z3.LShR(bv(a, w), b)


def A_ashr(a, b, w):
    if type(a) is int and type(b) is int:
        return (sgn(a, w) >> min(b, w - 1)) & ((1 << w) - 1)
    return bv(a, w) >> b


def div0(b, w):
    if type(b) is int:
        if b == 0:
            raise Fault('ub', 'division by zero')
    elif BR(b == 0):
        raise Fault('ub', 'division by zero')


def A_udiv(a, b, w):
    div0(b, w)
    if type(a) is int and type(b) is int:
        return a // b
    return simp(z3.UDiv(bv(a, w), bv(b, w)))


def A_urem(a, b, w):
    div0(b, w)
    if type(a) is int and type(b) is int:
        return a % b
    return simp(z3.URem(bv(a, w), bv(b, w)))


def A_sdiv(a, b, w):
    div0(b, w)
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)
    return simp(bv(a, w) / bv(b, w))


def A_srem(a, b, w):
    div0(b, w)
    if type(a) is int and type(b) is int:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & ((1 << w) - 1)
    return simp(z3.SRem(bv(a, w), bv(b, w)))


def CMP(op, a, b, w):
    """icmp with at least one symbolic operand (or generic)"""
    if w == 1:
        if op == 'eq':
            return B_xor(B_xor(a, b), 1)
        if op == 'ne':
            return B_xor(a, b)
        a = a if type(a) is int else z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        b = b if type(b) is int else z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if type(a) is int and type(b) is int:
        if op[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        o = op[-2:]
        return int(a == b if op == 'eq' else a != b if op == 'ne' else a < b if o == 'lt' else a <= b if o == 'le' else a > b if o == 'gt' else a >= b)
    a, b = bv(a, w), bv(b, w)
    if op == 'eq':
        r = a == b
    elif op == 'ne':
        r = a != b
    elif op == 'ult':
        r = z3.ULT(a, b)
    elif op == 'ule':
        r = z3.ULE(a, b)
    elif op == 'ugt':
        r = z3.UGT(a, b)
    elif op == 'uge':
        r = z3.UGE(a, b)
    elif op == 'slt':
        r = a < b
    elif op == 'sle':
        r = a <= b
    elif op == 'sgt':
        r = a > b
    else:
        r = a >= b
    return simp(r)


def SEL(c, a, b, w):
    """select with symbolic condition; w: bit width, 1 for bool, 0 for pointer/aggregate (fork)"""
    if type(c) is int:
        return a if c else b
    if w == 0:
        return a if BR(c) else b
    if w == 1:
        if type(a) is int and type(b) is int:
            if a == b:
                return a
            return c if a else z3.Not(c)
        if type(b) is int:
            return z3.And(c, a) if not b else z3.Or(z3.Not(c), a)
        if type(a) is int:
            return z3.Or(c, b) if a else z3.And(z3.Not(c), b)
        return z3.If(c, a, b)
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def TRUNC(a, w):
    if w == 1:
        return simp(z3.Extract(0, 0, a) == 1)
    return simp(z3.Extract(w - 1, 0, a))


def ZEXT(a, f, t):
    if f == 1:
        return z3.If(a, z3.BitVecVal(1, t), z3.BitVecVal(0, t))
    return z3.ZeroExt(t - f, a)


def SEXT(a, f, t):
    if type(a) is int:
        return sgn(a, f) & ((1 << t) - 1)
    if f == 1:
        return z3.If(a, z3.BitVecVal((1 << t) - 1, t), z3.BitVecVal(0, t))
    return z3.SignExt(t - f, a)


# floating point: values are bit patterns ------------------------------------
FS = {32: z3.Float32(), 64: z3.Float64()}


def b2f(x, w):
    return struct.unpack('<f', struct.pack('<I', x))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', x))[0]


def f2b(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 | (0x80000000 if x < 0 else 0)


def tofp(x, w):
    return z3.fpBVToFP(bv(x, w), FS[w])


def frombv(e):
    return z3.fpToIEEEBV(e)


def FBIN(op, a, b, w):
    if type(a) is int and type(b) is int:
        x, y = b2f(a, w), b2f(b, w)
        try:
            r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y if op == 'fdiv' else None
        except ZeroDivisionError:
            r = None
        if r is not None:
            return f2b(r, w)
    rm = z3.RNE()
    x, y = tofp(a, w), tofp(b, w)
    r = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y), 'fdiv': lambda: z3.fpDiv(rm, x, y)}[op]()
    return simp(frombv(r))


def FCMP(p, a, b, w):
    if p == 'true':
        return 1
    if p == 'false':
        return 0
    x, y = tofp(a, w), tofp(b, w)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    k = p[1:]
    if p == 'uno':
        r = un
    elif p == 'ord':
        r = z3.Not(un)
    else:
        base = {'eq': z3.fpEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))}[k]
        r = z3.Or(un, base) if p[0] == 'u' else base
    return simp(r)


def FCAST(op, a, f, t):
    """f/t: bit widths"""
    rm = z3.RNE()
    if op in ('fpext', 'fptrunc'):
        if op == 'fpext' and type(a) is not int:
            # remember the origin so that a later truncation is the identity on the original bits
            r = frombv(z3.fpFPToFP(rm, tofp(a, f), FS[t]))
            FPEXT_ORIG[r.get_id()] = (r, a)
            return r
        if op == 'fptrunc' and type(a) is not int and a.get_id() in FPEXT_ORIG and FPEXT_ORIG[a.get_id()][1].size() == t:
            return FPEXT_ORIG[a.get_id()][1]
        return simp(frombv(z3.fpFPToFP(rm, tofp(a, f), FS[t])))
    if op == 'uitofp':
        return simp(frombv(z3.fpUnsignedToFP(rm, bv(a, f), FS[t])))
    if op == 'sitofp':
        return simp(frombv(z3.fpSignedToFP(rm, bv(a, f), FS[t])))
    if op == 'fptoui':
        return simp(z3.fpToUBV(z3.RTZ(), tofp(a, f), z3.BitVecSort(t)))
    if op == 'fptosi':
        return simp(z3.fpToSBV(z3.RTZ(), tofp(a, f), z3.BitVecSort(t)))
    raise Unsupported(op)


FPEXT_ORIG = {}


def FSAT(signed, a, f, t):
    x = tofp(a, f)
    rm = z3.RTZ()
    lo = -(1 << (t - 1)) if signed else 0
    hi = (1 << (t - 1)) - 1 if signed else (1 << t) - 1
    flo = z3.fpToFP(z3.RNE(), z3.RealVal(lo), FS[f])
    fhi = z3.fpToFP(z3.RNE(), z3.RealVal(hi + 1), FS[f])
    r = z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, t), z3.If(z3.fpLEQ(x, flo), z3.BitVecVal(lo, t), z3.If(z3.fpGEQ(x, fhi), z3.BitVecVal(hi, t),
              z3.fpToSBV(rm, x, z3.BitVecSort(t)) if signed else z3.fpToUBV(rm, x, z3.BitVecSort(t)))))
    return simp(r)


def OVF(sg, op, a, b, w):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        if sg == 's':
            a, b = sgn(a, w), sgn(b, w)
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        t = r & m
        return (t, int((sgn(t, w) if sg == 's' else t) != r))
    x, y = bv(a, w), bv(b, w)
    if op == 'add':
        r = x + y
        c = z3.ULT(r, x) if sg == 'u' else z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
    elif op == 'sub':
        r = x - y
        c = z3.ULT(x, y) if sg == 'u' else z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
    else:
        r = x * y
        if sg == 'u':
            c = z3.Not(z3.BVMulNoOverflow(x, y, False))
        else:
            c = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
    return (simp(r), simp(c))


def BITOP(op, a, w, b=None, c=None):
    if op in ('fshl', 'fshr'):
        if type(c) is not int:
            x, y = bv(a, w), bv(b, w)
            cc = z3.Concat(z3.BitVecVal(0, w), z3.URem(c, z3.BitVecVal(w, w)))
            z = z3.Concat(x, y)
            return simp(z3.Extract(2 * w - 1, w, z << cc) if op == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(z, cc)))
        c %= w
        if type(a) is int and type(b) is int:
            z = (a << w) | b
            return ((z << c) >> w) & ((1 << w) - 1) if op == 'fshl' else (z >> c) & ((1 << w) - 1)
        z = z3.Concat(bv(a, w), bv(b, w))
        return simp(z3.Extract(2 * w - 1 - c, w - c, z) if op == 'fshl' else z3.Extract(w - 1 + c, c, z))
    if type(a) is int:
        if op == 'ctpop':
            return bin(a).count('1')
        if op == 'ctlz':
            return w - a.bit_length()
        if op == 'cttz':
            return (a & -a).bit_length() - 1 if a else w
        if op == 'bswap':
            return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        if op == 'bitreverse':
            return int(bin(a)[2:].zfill(w)[::-1], 2)
        if op == 'abs':
            return (-a) & ((1 << w) - 1) if a >> (w - 1) else a
    if op == 'bswap':
        return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))
    if op == 'bitreverse':
        return simp(z3.Concat(*[z3.Extract(i, i, a) for i in range(w)]))
    if op == 'abs':
        return simp(z3.If(a < 0, -a, a))
    if op == 'ctpop':
        r = z3.ZeroExt(w - 1, z3.Extract(0, 0, a))
        for i in range(1, w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return simp(r)
    r = z3.BitVecVal(w, w)
    if op == 'ctlz':
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
    else:
        for i in range(w - 1, -1, -1):
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
    return simp(r)


def BITS_OF_VEC(v, w):
    """vector lanes (width w each) -> integer"""
    if all(type(x) is int for x in v):
        r = 0
        for i, x in enumerate(v):
            r |= x << (w * i)
        return r
    if w == 1:
        v = [x if type(x) is int else z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in v]
    return simp(z3.Concat(*[bv(x, w) for x in reversed(v)])) if len(v) > 1 else v[0]


def VEC_OF_BITS(x, w, n):
    if type(x) is int:
        return tuple((x >> (w * i)) & ((1 << w) - 1) for i in range(n))
    r = [simp(z3.Extract(w * i + w - 1, w * i, x)) for i in range(n)]
    if w == 1:
        r = [e if type(e) is int else simp(e == 1) for e in r]
    return tuple(r)


def ALLOCA(size, align):
    return ENG.alloc(size, align, 'stack').base


def DEAD(*addrs):
    objs = ENG.objs
    for a in addrs:
        o = objs[a >> SLOT]
        o.state = 2


def LIFE(start, a):
    if type(a) is not int:
        return
    o = ENG.objs.get(a >> SLOT)
    if o is None or o.kind != 'stack':
        return
    if start:
        o.state = 0
        o.sh[:] = b'\1' * o.size
        o.clean = False
    else:
        o.state = 2


def TICK():
    E = ENG
    E.steps += 1
    if E.steps > E.lim.get('steps', 2000000):
        raise PathEnd('steps', 'more than %d loop iterations on one path' % E.steps)


def UNREACH(fn):
    raise Fault('ub', 'reached an instruction the compiler assumed unreachable (undefined behaviour) in ' + fn)


def UNDEF(w):
    if w == 1:
        return ENG.undef(1) == 1
    return ENG.undef(w)


def FREEZE(x):
    return x


def PICK(c, table, default):
    """switch"""
    for k, b in table:
        if BR(c == k):
            return b
    return default


def ICALL(fp, ret, sig, va, args):
    if type(fp) is not int:
        fp = caddr(fp, 'call target')
    r = ENG.prog.fn_by_addr.get(fp)
    if r is None:
        if fp < 0x10000:
            raise Fault('mem', 'call through null function pointer')
        raise Fault('mem', 'call through a pointer that is not a function')
    fn = ENG.prog.get(r)
    a = args
    if r.sig != sig:
        if r.va:
            k = len(r.sig)
            a = coerce_args(args[:k], sig[:k], r.sig, r.name) + [list(zip(sig[k:], args[k:]))]
        else:
            a = coerce_args(args, sig, r.sig, r.name)
    elif r.va:
        a = list(args) + [[]]
    x = fn(*a)
    if r.retkey != ret:
        x = retconv(x, r, ret)
    return x


def coerce_args(args, have, want, name):
    if len(have) != len(want):
        raise Fault('abi', 'call of %s with %d register arguments, it takes %d' % (name, len(have), len(want)))
    return [coerce(a, h, w, name) for a, h, w in zip(args, have, want)]


def coerce(a, h, w, name):
    if h == w:
        return a
    if type(h) is int and type(w) is int:
        if w == 1:
            # bool in an int register: the low byte
            return (a & 1) if type(a) is int else TRUNC(a, 1)
        if h == 1:
            return ZEXT(a, 1, w) if type(a) is not int else a
        if w < h:
            return a & ((1 << w) - 1) if type(a) is int else TRUNC(a, w)
        return simp(z3.Concat(ENG.undef(w - h), bv(a, h)))
    if type(h) is str and type(w) is str and clsbytes(h) == clsbytes(w) and 'v' in (h[0], w[0]):
        # both live in one SSE register
        x = BITS_OF_VEC(a, clsbytes(h) * 8 // lanes(h)) if h[0] == 'v' else a
        return VEC_OF_BITS(x, clsbytes(w) * 8 // lanes(w), lanes(w)) if w[0] == 'v' else x
    raise Fault('abi', 'call of %s: argument class %s passed, %s expected' % (name, h, w))


def lanes(c):
    return int(c.split('x')[1])


def group(vals, key):
    it = iter(vals)
    return [tuple(next(it) for _ in range(lanes(c))) if type(c) is str and c[0] == 'v' else next(it) for c, _ in key]


def retconv(x, r, ret):
    """r: callee record; ret: wanted key = tuple of (class, offset) leaves"""
    have = r.retkey
    if ret == ():
        return None
    if have == ():
        raise Fault('abi', 'result of void function %s used' % r.name)
    vals = group(flatten(x), have)
    if len(have) == len(ret):
        out = [coerce(v, h[0], w[0], r.name) for v, h, w in zip(vals, have, ret)]
        return unflatten_key(out, ret)
    # by memory image
    o = ENG.alloc(64, 16, 'stack')
    for v, (c, off) in zip(vals, have):
        if type(v) is tuple:
            v = BITS_OF_VEC(v, clsbytes(c) * 8 // lanes(c))
        ST(o.base + off, clsbytes(c), v)
    out = []
    for c, off in ret:
        v = LD(o.base + off, clsbytes(c))
        out.append(VEC_OF_BITS(v, clsbytes(c) * 8 // lanes(c), lanes(c)) if type(c) is str and c[0] == 'v' else fixw(v, c))
    return unflatten_key(out, ret)


def fixw(v, c):
    if c == 1:
        return v & 1 if type(v) is int else TRUNC(v, 1)
    return v


def clsbytes(c):
    if type(c) is int:
        return (c + 7) // 8
    return int(c[1:]) // 8 if c[0] == 'f' else int(c[1:].split('x')[0])


def flatten(x):
    if type(x) is tuple:
        out = []
        for e in x:
            out += flatten(e)
        return out
    return [x]


def unflatten_key(vals, key):
    return vals[0] if len(vals) == 1 else tuple(vals)


def RESHAPE(shape, x):
    """flat value(s) -> nested tuples of shape (None = scalar)"""
    vals = flatten(x)
    it = iter(vals)

    def go(s):
        if s is None:
            return next(it)
        return tuple(go(e) for e in s)
    return go(shape)


def VASTART(ap, va, ngp, nfp):
    """x86-64 SysV va_list"""
    E = ENG
    reg = E.alloc(176, 16, 'stack')
    gp, fp, over = ngp, nfp, []
    for c, v in va:
        if type(c) is int:
            if gp < 6:
                if c < 64:
                    v = simp(z3.Concat(E.undef(64 - c), bv(v, c))) if c != 1 else (ZEXT(v, 1, 64) if type(v) is not int else v)
                ST(reg.base + 8 * gp, 8, v)
                gp += 1
            else:
                over.append((c, v))
        else:
            if fp < 8:
                ST(reg.base + 48 + 16 * fp, clsbytes(c), v)
                fp += 1
            else:
                over.append((c, v))
    ov = E.alloc(max(8 * len(over), 8), 16, 'stack')
    for i, (c, v) in enumerate(over):
        ST(ov.base + 8 * i, clsbytes(c), v)
    ST(ap, 4, 8 * ngp)
    ST(ap + 4, 4, 48 + 16 * nfp)
    ST(ap + 8, 8, ov.base)
    ST(ap + 16, 8, reg.base)


# ------------------------------------------------------------------ builtins
BUILTINS = {}


def builtin(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


RUST_ALLOC = re.compile(r'(?:^|_)(?:\d+)?__(rust_alloc_zeroed|rust_alloc|rust_dealloc|rust_realloc)$')


def is_builtin(n):
    if n in BUILTINS:
        return True
    if RUST_ALLOC.search(n) or '___rust_no_alloc_shim_is_unstable' in n:
        return True
    if OOM.search(n):
        return True
    if PANIC.search(n) and not NOTPANIC.search(n):
        return True
    return False


def builtin_for(n):
    if n in BUILTINS:
        return BUILTINS[n]
    m = RUST_ALLOC.search(n)
    if m:
        return BUILTINS['__' + m.group(1)]
    if '___rust_no_alloc_shim_is_unstable' in n:
        return lambda: None
    if OOM.search(n):
        def oom(*a):
            raise PathEnd('assumed', 'allocation failure')
        return oom
    if PANIC.search(n) and not NOTPANIC.search(n):
        short = demangle_short(n)

        def pan(*a):
            raise PathEnd('abort', 'Rust panic: ' + short)
        return pan

    def unm(*a):
        raise Unsupported('external function ' + n)
    return unm


def demangle_short(n):
    parts = re.findall(r'\d+([a-z_]\w*?)(?=\d|$|[A-Z])', n)
    return '::'.join(parts[-3:]) if parts else n


def heap_alloc(size, align, kind, zero=False):
    size = conc(size, 'allocation size')
    align = conc(align, 'allocation alignment')
    if size > (1 << 18):
        raise Fault('alloc', 'allocation of %d bytes' % size)
    o = ENG.alloc(size, align, kind, uninit=not zero)
    ENG.live[o.base] = o
    return o.base


def heap_free(p, kind, size=None):
    p = conc(p, 'freed pointer')
    if p == 0:
        if kind == 'rust':
            raise Fault('alloc', 'Rust deallocation of a null pointer')
        return
    o = ENG.objs.get(p >> SLOT)
    if o is None or o.base != p or o.kind not in ('rust', 'new', 'new[]', 'malloc'):
        raise Fault('alloc', 'free of a pointer that is not the start of a heap block')
    if o.state == 1:
        raise Fault('alloc', 'double free of a %s block' % o.kind)
    if o.kind != kind:
        raise Fault('alloc', '%s block freed as %s' % (o.kind, kind))
    if size is not None:
        size = conc(size, 'deallocation size')
        if size != o.size:
            raise Fault('alloc', 'deallocation with size %d of a block allocated with size %d' % (size, o.size))
    o.state = 1
    del ENG.live[p]


@builtin('__rust_alloc')
@builtin('vp_ralloc')
def _ra(size, align):
    return heap_alloc(size, align, 'rust')


@builtin('__rust_alloc_zeroed')
def _raz(size, align):
    return heap_alloc(size, align, 'rust', True)


@builtin('__rust_dealloc')
@builtin('vp_rdealloc')
def _rd(p, size, align):
    align = conc(align, 'align')
    p = conc(p, 'freed pointer')
    o = ENG.objs.get(p >> SLOT)
    heap_free(p, 'rust', size)
    if align < 0x1000 and (p & (2 * align - 1)) != align:
        raise Fault('alloc', 'deallocation with an alignment different from the allocation')


@builtin('__rust_realloc')
def _rr(p, old, align, new):
    p = conc(p, 'realloc pointer')
    new = conc(new, 'realloc size')
    old = conc(old, 'realloc old size')
    q = heap_alloc(new, align, 'rust')
    o, _ = RNG(p, min(old, 0), 'read')
    MEMCPY(q, p, min(old, new))
    heap_free(p, 'rust', old)
    return q


@builtin('malloc')
def _malloc(n):
    return heap_alloc(n, 16, 'malloc')


@builtin('calloc')
def _calloc(n, k):
    return heap_alloc(conc(n, 'size') * conc(k, 'size'), 16, 'malloc', True)


@builtin('realloc')
def _realloc(p, n):
    p = conc(p, 'p')
    q = heap_alloc(n, 16, 'malloc')
    if p:
        o = ENG.objs.get(p >> SLOT)
        MEMCPY(q, p, min(o.size, conc(n, 'n')))
        heap_free(p, 'malloc')
    return q


@builtin('free')
def _free(p):
    heap_free(p, 'malloc')


@builtin('_Znwm')
def _new(n):
    return heap_alloc(n, 16, 'new')


@builtin('_Znam')
def _newa(n):
    return heap_alloc(n, 16, 'new[]')


@builtin('_ZdlPv')
def _del(p):
    heap_free(p, 'new')


@builtin('_ZdlPvm')
def _dels(p, n):
    if conc(p, 'p'):
        heap_free(p, 'new', n)


@builtin('_ZdaPv')
def _dela(p):
    heap_free(p, 'new[]')


@builtin('_ZdaPvm')
def _delas(p, n):
    heap_free(p, 'new[]')


@builtin('abort')
def _abort():
    raise PathEnd('abort', 'abort() called')


@builtin('__assert_fail')
def _af(a, b, c, d):
    raise PathEnd('abort', 'C++ assert failed: ' + cstr(a))


@builtin('_ZSt9terminatev')
def _term():
    raise PathEnd('abort', 'std::terminate called')


for _n in ('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_length_errorPKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc',
           '_ZSt27__throw_bad_optional_accessv', '_ZSt26__throw_bad_variant_accessPKc', '_ZSt25__throw_bad_function_callv', '_ZSt20__throw_out_of_rangePKc'):
    def _mk(n):
        def f(*a):
            raise PathEnd('abort', 'C++ throw: ' + n)
        return f
    BUILTINS[_n] = _mk(_n)


def cstr(p, cap=300):
    if type(p) is not int:
        return '?'
    out = []
    for i in range(cap):
        b = LD(p + i, 1)
        if type(b) is not int:
            out.append('?')
            continue
        if b == 0:
            break
        out.append(chr(b))
    return ''.join(out)


@builtin('strlen')
def _strlen(p):
    p = conc(p, 'strlen pointer')
    n = 0
    while True:
        b = LD(p + n, 1)
        if type(b) is int:
            if b == 0:
                return n
        elif BR(b == 0):
            return n
        n += 1


@builtin('memcmp', 'bcmp')
def _memcmp(a, b, n):
    n = conc(n, 'compare length')
    if n == 0:
        return 0
    a, b = conc(a, 'compare pointer'), conc(b, 'compare pointer')
    r = 0
    for i in range(n - 1, -1, -1):
        x, y = LD(a + i, 1), LD(b + i, 1)
        if type(x) is int and type(y) is int:
            if x != y:
                r = 0xffffffff if x < y else 1
        else:
            x, y = bv(x, 8), bv(y, 8)
            r = z3.If(x == y, bv(r, 32), z3.If(z3.ULT(x, y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
    return r if type(r) is int else simp(r)


@builtin('memchr')
def _memchr(p, c, n):
    n = conc(n, 'n')
    p = conc(p, 'p')
    c = (c & 255) if type(c) is int else z3.Extract(7, 0, c)
    for i in range(n):
        b = LD(p + i, 1)
        if type(b) is int and type(c) is int:
            if b == c:
                return p + i
        elif BR(bv(b, 8) == bv(c, 8)):
            return p + i
    return 0


@builtin('memcpy', 'memmove')
def _memcpy(d, s, n):
    MEMCPY(d, s, n)
    return d


@builtin('memset')
def _memset(d, c, n):
    MEMSET(d, c & 255 if type(c) is int else simp(z3.Extract(7, 0, c)), n)
    return d


@builtin('__cxa_atexit', '__cxa_thread_atexit_impl')
def _atexit(*a):
    return 0


@builtin('__cxa_guard_acquire')
def _ga(g):
    return 1 if LD(g, 1) == 0 else 0


@builtin('__cxa_guard_release')
def _gr(g):
    ST(g, 1, 1)


@builtin('pthread_self', 'gettid')
def _pself():
    return 1


@builtin('syscall')
def _syscall(*a):
    raise PathEnd('abort', 'blocking system call (deadlock: lock taken twice on one thread)')


# harness interface
@builtin('nd_u8', 'nd_i8')
def _nd8():
    return ENG.nd(8)


@builtin('nd_u16', 'nd_i16')
def _nd16():
    return ENG.nd(16)


@builtin('nd_u32', 'nd_i32')
def _nd32():
    return ENG.nd(32)


@builtin('nd_u64', 'nd_i64')
def _nd64():
    return ENG.nd(64)


@builtin('nd_bool')
def _ndb():
    x = ENG.nd(8)
    ENG.assume(z3.ULE(x, 1))
    return simp(x == 1)


@builtin('nd_pick')
def _ndpick(n):
    """fork over 0..n-1: a concrete choice on each path"""
    x = ENG.nd(32)
    ENG.assume(z3.ULT(x, n))
    return ENG.concretize(x, 'choice')


@builtin('nd_f32')
def _ndf32():
    return ENG.nd(32)


@builtin('nd_f64')
def _ndf64():
    return ENG.nd(64)


@builtin('v_assume')
def _assume(c):
    ENG.assume(c if type(c) is int else simp(c != 0) if not is_bool(c) else c)


@builtin('v_chk')
def _chk(c, label):
    ENG.chk(c if type(c) is int else simp(c != 0) if not is_bool(c) else c, cstr(label))


@builtin('v_obs')
def _obs(x):
    ENG.obs.append(x)


@builtin('v_expect_abort')
def _ea():
    ENG.expect_abort = True


@builtin('v_allow_leak')
def _al():
    ENG.allow_leak = True


@builtin('v_live')
def _live():
    return len(ENG.live)


@builtin('v_fail')
def _fail(msg):
    raise Fault('chk', cstr(msg))


@builtin('v_concrete')
def _conc(x):
    return conc(x, 'choice')


# ------------------------------------------------------------------ compiler: IR function -> python function
BIN = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}
FLAGS = set('nuw nsw exact disjoint nneg inbounds nusw samesign fast nnan ninf nsz arcp contract afn reassoc inrange volatile'.split())
CMPOP = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}


def compile_fn(prog, rec):
    c = FnC(prog, rec)
    return c.run()


class FnC:
    def __init__(self, prog, rec):
        self.prog = prog
        self.rec = rec
        self.m = rec.mod
        self.f = rec.mod.func(rec.name)
        self.names = {}
        self.static_allocas = []
        self.uid = 0

    # names
    def ln(self, n):
        x = self.names.get(n)
        if x is None:
            x = 'v%d' % len(self.names)
            self.names[n] = x
        return x

    def isint(self, e):
        return e[0].isdigit()

    def val(self, t, v):
        """python expression for an operand"""
        if v[0] == 'local':
            return self.ln(v[1])
        t = self.m.res(t)
        k = t[0]
        if k in ('struct', 'arr', 'vec'):
            if v[0] == 'undef' or v[0] == 'zero':
                es = [self.val(et, v) for et in self.elems(t)]
            elif v[0] == 'cstr':
                es = [str(b) for b in v[1]]
            elif v[0] == 'agg':
                es = [self.val(et, ev) for et, ev in v[1]]
            else:
                raise Unsupported('agg const %r' % (v,))
            return '(%s,)' % ','.join(es) if es else '()'
        if v[0] == 'undef':
            return 'UNDEF(%d)' % self.w(t)
        return str(self.prog.const(self.m, t, v))

    def elems(self, t):
        if t[0] == 'struct':
            return t[1]
        return [t[2]] * t[1]

    def w(self, t):
        t = self.m.res(t)
        if t[0] == 'i':
            return t[1]
        return {'ptr': 64, 'float': 32, 'double': 64, 'half': 16}[t[0]]

    def leaf_exprs(self, t, v):
        t = self.m.res(t)
        if t[0] in ('struct', 'arr'):
            e = self.val(t, v)
            out = []
            for lt, path, o in self.leaves(t):
                out.append(e + ''.join('[%d]' % i for i in path))
            return out
        return [self.val(t, v)]

    def leaves(self, t, off=0):
        """like Module.leaves but vectors are leaves"""
        m = self.m
        t = m.res(t)
        if t[0] in ('struct', 'arr'):
            out = []
            for i in range(len(t[1]) if t[0] == 'struct' else t[1]):
                o, e = m.field_off(t, i)
                out += [(a, (i,) + p, b) for a, p, b in self.leaves(e, off + o)]
            return out
        return [(t, (), off)]

    def retkey(self, t):
        if t == VOID:
            return ()
        return tuple((leafcls(self.m, lt), o) for lt, p, o in self.leaves(t))

    def shape(self, t):
        t = self.m.res(t)
        if t[0] in ('struct', 'arr'):
            return '(%s,)' % ','.join(self.shape(e) for e in self.elems(t)) if self.elems(t) else '()'
        if t[0] == 'vec':
            return '(%s)' % ('None,' * t[1])
        return 'None'

    def run(self):
        f, m, rec = self.f, self.m, self.rec
        # ---- blocks
        joined = []
        buf = ''
        for ln in f.body:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if buf:
                buf += ' ' + s
                if buf.count('[') == buf.count(']'):
                    joined.append(buf)
                    buf = ''
                continue
            if s.startswith('switch ') and s.count('[') != s.count(']'):
                buf = s
                continue
            joined.append(s)
        blocks = []
        cur = None
        unn = 0
        for t, nm, at in f.params:
            if re.fullmatch(r'%\d+', nm):
                unn = max(unn, int(nm[1:]) + 1)
        for s in joined:
            mm = re.match(r'((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', s)
            if mm:
                cur = ('%' + mm.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ('%' + str(unn), [])
                blocks.append(cur)
            if s.startswith('#dbg'):
                continue
            cur[1].append(s)
        self.order = [b for b, _ in blocks]
        self.has_allocas = any(' = alloca ' in s for s in blocks[0][1])
        self.bidx = {b: i for i, b in enumerate(self.order)}
        self.ins = {}
        self.phis = {}
        preds = {b: 0 for b in self.order}
        self.nins = 0
        for b, inss in blocks:
            out = []
            for s in inss:
                p = Parser(lex(s), m)
                if p.peek()[0] == 'lname' and p.peek(1)[1] == '=' and p.peek(2)[1] == 'phi':
                    res = p.next()[1]
                    p.next(); p.next()
                    while p.pv() in FLAGS:
                        p.next()
                    t = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = p.value(t)
                        p.expect(',')
                        l = p.next()[1]
                        p.expect(']')
                        inc[l] = v
                        if not p.eat(',') or p.peek()[0] == 'meta':
                            break
                    self.phis.setdefault(b, []).append((res, t, inc))
                else:
                    out.append((s, p))
                self.nins += 1
            self.ins[b] = out
            term = inss[-1] if inss else ''
            for l in re.findall(r'label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', term if not term.startswith('%') or ' invoke ' in term else ''):
                if l in preds:
                    preds[l] += 1
        preds[self.order[0]] += 2
        self.preds = preds
        # ---- params
        self.sigs = []
        params = []
        pre = []
        k = 0
        for (t, nm, at) in f.params:
            if 'byval' in at:
                params.append('a%d' % k)
                pre.append('%s = a%d' % (self.ln(nm), k))
                self.sigs.append(64)
                k += 1
                continue
            rt = m.res(t)
            lv = self.leaves(rt)
            ps = []
            for lt, path, o in lv:
                params.append('a%d' % k)
                self.sigs.append(leafcls(m, lt))
                ps.append('a%d' % k)
                k += 1
            if rt[0] in ('struct', 'arr'):
                it = iter(ps)

                def go(t):
                    t = m.res(t)
                    if t[0] in ('struct', 'arr'):
                        return '(%s,)' % ','.join(go(e) for e in self.elems(t)) if self.elems(t) else '()'
                    return next(it)
                pre.append('%s = %s' % (self.ln(nm), go(rt)))
            elif ps:
                pre.append('%s = %s' % (self.ln(nm), ps[0]))
        if f.va:
            params.append('va')
        rec.sig = self.sigs
        rec.va = f.va
        rec.retkey = self.retkey(f.ret)
        rec.ret = f.ret
        # ---- emit
        self.out = []
        heads = [b for b in self.order if preds[b] != 1]
        self.headid = {b: i for i, b in enumerate(heads)}
        loop = len(heads) > 1
        self.bodies = {}
        self.todo = list(heads)
        self.done = set()
        texts = []
        self.looped = True
        i = 0
        while i < len(self.todo):
            b = self.todo[i]
            i += 1
            self.out = []
            self.emit_block(b, 0)
            texts.append((b, self.out))
        name = 'f%d' % rec.id
        L = ['def %s(%s):' % (name, ', '.join(params))]
        for s in pre:
            L.append(' ' + s)
        for r, sz, al in self.static_allocas:
            L.append(' %s = ALLOCA(%d, %d)' % (r, sz, al))
        if len(texts) == 1 and not any('continue' in x for x in texts[0][1]):
            for x in texts[0][1]:
                L.append(' ' + x)
        else:
            L.append(' b = 0')
            L.append(' while 1:')
            L.append('  TICK()')
            order = [b for b, _ in texts]

            def disp(lo, hi, ind):
                if hi - lo == 1:
                    for x in texts[lo][1]:
                        L.append(' ' * ind + x)
                    return
                mid = (lo + hi) // 2
                L.append(' ' * ind + 'if b < %d:' % mid)
                disp(lo, mid, ind + 1)
                L.append(' ' * ind + 'else:')
                disp(mid, hi, ind + 1)
            disp(0, len(texts), 2)
        dead = 'DEAD(%s)' % ', '.join(r for r, _, _ in self.static_allocas)
        src = '\n'.join(L).replace('#DEAD#', dead) + '\n'
        env = self.prog.env
        try:
            code = compile(src, '<%s>' % cname(rec.name), 'exec')
        except (SyntaxError, IndentationError, MemoryError) as e:
            raise Unsupported('codegen %s: %s\n%s' % (rec.name, e, src[:3000]))
        exec(code, env)
        self.prog.compiled.append(cname(rec.name))
        self.prog.src[rec.name] = src
        return env[name]

    def emit_block(self, b, ind):
        self.cur = b
        for s, p in self.ins[b]:
            try:
                r = self.emit_ins(s, p, ind)
            except Unsupported as e:
                self.e(ind, 'raise Unsupported(%r)' % ('%s in %s: %s' % (e, cname(self.rec.name), s[:160])))
                r = True
            except llir.LexError as e:
                self.e(ind, 'raise Unsupported(%r)' % ('lex %s' % s[:160]))
                r = True
            if r:
                return
        self.e(ind, 'pass')

    def e(self, ind, s):
        self.out.append(' ' * ind + s)

    def goto(self, tgt, ind):
        src = self.cur
        if tgt in self.phis:
            ls, rs = [], []
            for res, t, inc in self.phis[tgt]:
                ls.append(self.ln(res))
                rs.append(self.val(t, inc[src]))
            if len(ls) == 1:
                if ls[0] != rs[0]:
                    self.e(ind, '%s = %s' % (ls[0], rs[0]))
            else:
                self.e(ind, '%s = %s' % (', '.join(ls), ', '.join(rs)))
        if tgt in self.headid:
            self.e(ind, 'b = %d; continue' % self.headid[tgt])
        elif ind > 60:
            # too deep: make it a dispatch head
            self.headid[tgt] = len(self.headid)
            self.todo.append(tgt)
            self.e(ind, 'b = %d; continue' % self.headid[tgt])
        else:
            self.emit_block(tgt, ind)
            self.cur = src

    def two(self, a, b):
        """test that both operands are concrete"""
        c = []
        if not self.isint(a):
            c.append('type(%s) is int' % a)
        if not self.isint(b) and b != a:
            c.append('type(%s) is int' % b)
        return ' and '.join(c)

    def binop(self, op, t, a, b):
        w = self.w(t)
        if op[0] == 'f' and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return 'FBIN(%r, %s, %s, %d)' % (op, a, b, w)
        c = self.two(a, b)
        M = (1 << w) - 1
        if w == 1:
            o = {'add': 'xor', 'sub': 'xor', 'mul': 'and'}.get(op, op)
            if o in ('and', 'or', 'xor'):
                return 'B_%s(%s, %s)' % (o, a, b)
            raise Unsupported('i1 ' + op)
        if op in BIN:
            ce = '(%s %s %s)' % (a, BIN[op], b)
            if op in ('add', 'sub', 'mul'):
                ce = '(%s & %d)' % (ce, M)
            if not c:
                return ce
            return '(%s if %s else A_%s(%s, %s, %d))' % (ce, c, op, a, b, w)
        return 'A_%s(%s, %s, %d)' % (op, a, b, w)

    def cmp(self, op, t, a, b):
        w = self.w(t)
        if w == 1:
            return 'CMP(%r, %s, %s, 1)' % (op, a, b)
        c = self.two(a, b)
        if op in CMPOP:
            ce = '(1 if %s %s %s else 0)' % (a, CMPOP[op], b)
            if not c:
                return ce
            return '(%s if %s else CMP(%r, %s, %s, %d))' % (ce, c, op, a, b, w)
        return 'CMP(%r, %s, %s, %d)' % (op, a, b, w)

    def cast(self, op, ft, tt, e):
        fw, tw = self.w(ft), self.w(tt)
        if op == 'trunc' or (op in ('ptrtoint', 'ptrtoaddr') and tw < 64):
            return '(%s & %d if type(%s) is int else TRUNC(%s, %d))' % (e, (1 << tw) - 1, e, e, tw)
        if op == 'zext' or (op == 'inttoptr' and fw < 64):
            return '(%s if type(%s) is int else ZEXT(%s, %d, %d))' % (e, e, e, fw, tw)
        if op == 'sext':
            return 'SEXT(%s, %d, %d)' % (e, fw, tw)
        if op in ('ptrtoint', 'ptrtoaddr', 'inttoptr', 'addrspacecast', 'bitcast'):
            if fw != tw:
                raise Unsupported('cast %s' % op)
            return e
        return 'FCAST(%r, %s, %d, %d)' % (op, e, fw, tw)

    def atom(self, ind, e):
        """bind expression to a name if it is not simple"""
        if re.fullmatch(r'[av]\d+|\d+|t\d+_', e):
            return e
        self.uid += 1
        n = 't%d_' % self.uid
        self.e(ind, '%s = %s' % (n, e))
        return n

    def ld(self, t, pe):
        """expression loading type t at address expr pe"""
        t = self.m.res(t)
        k = t[0]
        if k in ('struct', 'arr', 'vec'):
            if k == 'vec' and self.m.res(t[2]) == I(1):
                if t[1] % 8:
                    raise Unsupported('load <n x i1>')
                return 'VEC_OF_BITS(LD(%s, %d), 1, %d)' % (pe, t[1] // 8, t[1])
            es = []
            for i, et in enumerate(self.elems(t)):
                o, _ = self.m.field_off(t, i)
                es.append(self.ld(et, self.off(pe, o)))
            return '(%s,)' % ','.join(es) if es else '()'
        n = self.m.size(t) if k != 'i' else (t[1] + 7) // 8
        x = 'LD(%s, %d)' % (pe, n)
        if k == 'i' and t[1] % 8:
            return 'LDX(%s, %d)' % (x, t[1])
        return x

    def off(self, pe, o):
        if o == 0:
            return pe
        if self.isint(pe):
            return str(int(pe) + o)
        return '(%s + %d)' % (pe, o)

    def st(self, ind, t, v, pe):
        t = self.m.res(t)
        k = t[0]
        if k in ('struct', 'arr', 'vec'):
            if k == 'vec' and self.m.res(t[2]) == I(1):
                if t[1] % 8:
                    raise Unsupported('store <n x i1>')
                self.e(ind, 'ST(%s, %d, BITS_OF_VEC(%s, 1))' % (pe, t[1] // 8, v))
                return
            for i, et in enumerate(self.elems(t)):
                o, _ = self.m.field_off(t, i)
                self.st(ind, et, '%s[%d]' % (v, i), self.off(pe, o))
            return
        n = self.m.size(t) if k != 'i' else (t[1] + 7) // 8
        self.e(ind, 'ST(%s, %d, %s)' % (pe, n, v))

    def emit_ins(self, s, p, ind):
        m = self.m
        res = None
        if p.peek()[0] == 'lname' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]

        def setr(x):
            self.e(ind, '%s = %s' % (self.ln(res), x))

        if op == 'ret':
            t = p.type()
            if t == VOID:
                v = 'None'
            else:
                v = self.val(t, p.value(t))
            if self.has_allocas:
                v = self.atom(ind, v) if t != VOID else v
                self.e(ind, '#DEAD#')
            self.e(ind, 'return ' + v)
            return True
        if op == 'br':
            if p.eat('label'):
                self.goto(p.next()[1], ind)
                return True
            t = p.type()
            c = self.val(t, p.value(t))
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            b = p.next()[1]
            if self.isint(c):
                self.goto(a if int(c) else b, ind)
                return True
            self.e(ind, 'if (%s if type(%s) is int else BR(%s)):' % (c, c, c))
            self.goto(a, ind + 1)
            self.e(ind, 'else:')
            self.goto(b, ind + 1)
            return True
        if op == 'switch':
            t = p.type()
            c = self.val(t, p.value(t))
            p.expect(',')
            p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((self.prog.const(m, ct, cv), p.next()[1]))
            c = self.atom(ind, c)
            tg = []
            for k, l in cases + [(None, d)]:
                if l not in tg:
                    tg.append(l)
            self.uid += 1
            n = 't%d_' % self.uid
            tbl = {k: tg.index(l) for k, l in cases}
            self.e(ind, '%s = %r.get(%s, %d) if type(%s) is int else PICK(%s, %r, %d)' % (n, tbl, c, tg.index(d), c, c, [(k, tg.index(l)) for k, l in cases], tg.index(d)))
            for i, l in enumerate(tg):
                if i < len(tg) - 1:
                    self.e(ind, '%s %s == %d:' % ('if' if i == 0 else 'elif', n, i))
                    self.goto(l, ind + 1)
                elif len(tg) > 1:
                    self.e(ind, 'else:')
                    self.goto(l, ind + 1)
                else:
                    self.goto(l, ind)
            return True
        if op == 'unreachable':
            self.e(ind, 'UNREACH(%r)' % cname(self.rec.name))
            return True
        if op == 'resume':
            raise Unsupported('resume')
        if op == 'fence':
            return
        if op in BIN or op in ('udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.pv() in FLAGS:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            rt = m.res(t)
            if rt[0] == 'vec':
                x, y = self.atom(ind, self.val(rt, a)), self.atom(ind, self.val(rt, b))
                setr('(%s,)' % ','.join(self.binop(op, rt[2], '%s[%d]' % (x, i), '%s[%d]' % (y, i)) for i in range(rt[1])))
                return
            setr(self.binop(op, rt, self.atom(ind, self.val(t, a)), self.atom(ind, self.val(t, b))))
            return
        if op == 'fneg':
            while p.pv() in FLAGS:
                p.next()
            t = p.type()
            a = self.atom(ind, self.val(t, p.value(t)))
            w = self.w(t)
            setr('(%s ^ %d)' % (a, 1 << (w - 1)))
            return
        if op in ('icmp', 'fcmp'):
            while p.pv() in FLAGS:
                p.next()
            pred = p.next()[1]
            while p.pv() in FLAGS:
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            rt = m.res(t)

            def one(et, x, y):
                if op == 'icmp':
                    return self.cmp(pred, et, x, y)
                return 'FCMP(%r, %s, %s, %d)' % (pred, x, y, self.w(et))
            x, y = self.atom(ind, self.val(rt, a)), self.atom(ind, self.val(rt, b))
            if rt[0] == 'vec':
                setr('(%s,)' % ','.join(one(rt[2], '%s[%d]' % (x, i), '%s[%d]' % (y, i)) for i in range(rt[1])))
            else:
                setr(one(rt, x, y))
            return
        if op == 'select':
            while p.pv() in FLAGS:
                p.next()
            ct = p.type()
            c = self.atom(ind, self.val(ct, p.value(ct)))
            p.expect(',')
            t = p.type()
            a = self.val(t, p.value(t))
            p.expect(',')
            t2 = p.type()
            b = self.val(t2, p.value(t2))
            rt = m.res(t)
            if m.res(ct)[0] == 'vec':
                a, b = self.atom(ind, a), self.atom(ind, b)
                w = self.w(rt[2])
                setr('(%s,)' % ','.join('SEL(%s[%d], %s[%d], %s[%d], %d)' % (c, i, a, i, b, i, w) for i in range(rt[1])))
                return
            w = 0 if rt[0] in ('ptr', 'struct', 'arr', 'vec') else self.w(rt)
            setr('(%s if %s else %s) if type(%s) is int else SEL(%s, %s, %s, %d)' % (a, c, b, c, c, a, b, w))
            return
        if op == 'freeze':
            t = p.type()
            setr(self.val(t, p.value(t)))
            return
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast', 'ptrtoaddr'):
            while p.pv() in FLAGS:
                p.next()
            ft = p.type()
            v = p.value(ft)
            p.expect('to')
            tt = p.type()
            rf, rt = m.res(ft), m.res(tt)
            e = self.atom(ind, self.val(rf, v))
            if op == 'bitcast' and (rf[0] == 'vec' or rt[0] == 'vec'):
                x = e
                if rf[0] == 'vec':
                    x = 'BITS_OF_VEC(%s, %d)' % (e, self.w(rf[2]))
                if rt[0] == 'vec':
                    x = 'VEC_OF_BITS(%s, %d, %d)' % (x, self.w(rt[2]), rt[1])
                setr(x)
                return
            if rf[0] == 'vec':
                setr('(%s,)' % ','.join(self.cast(op, rf[2], rt[2], '%s[%d]' % (e, i)) for i in range(rt[1])))
                return
            setr(self.cast(op, rf, rt, e))
            return
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            n = 1
            al = m.align(t)
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next()[1])
                elif p.eat('addrspace'):
                    p.next(); p.next(); p.next()
                else:
                    ct = p.type()
                    cv = p.value(ct)
                    if cv[0] != 'int':
                        raise Unsupported('dynamic alloca')
                    n = cv[1]
            r = self.ln(res)
            if self.cur == self.order[0]:
                self.static_allocas.append((r, m.size(t) * n, al))
            else:
                self.e(ind, '%s = ALLOCA(%d, %d)' % (r, m.size(t) * n, al))
            return
        if op == 'load':
            p.eat('atomic')
            while p.pv() in FLAGS:
                p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            pe = self.atom(ind, self.val(pt, p.value(pt)))
            setr(self.ld(t, pe))
            return
        if op == 'store':
            p.eat('atomic')
            while p.pv() in FLAGS:
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            pe = self.atom(ind, self.val(pt, p.value(pt)))
            if v[0] == 'undef':
                return
            e = self.val(t, v)
            if m.res(t)[0] in ('struct', 'arr', 'vec'):
                e = self.atom(ind, e)
            self.st(ind, t, e, pe)
            return
        if op == 'getelementptr':
            while p.pv() in FLAGS:
                p.next()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = self.val(pt, p.value(pt))
            if m.res(pt)[0] == 'vec':
                raise Unsupported('vector gep')
            off = 0
            dyn = []
            t = bt
            first = True
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                it = p.type()
                iv = p.value(it)
                rt = m.res(t)
                if first:
                    sz = m.size(t)
                    first = False
                elif rt[0] == 'struct':
                    i = iv[1] if iv[0] == 'int' else 0
                    o, t = m.field_off(rt, i)
                    off += o
                    continue
                else:
                    t = rt[2]
                    sz = m.size(t)
                if iv[0] == 'int':
                    off += iv[1] * sz
                elif iv[0] == 'zero':
                    pass
                else:
                    ie = self.atom(ind, self.val(it, iv))
                    wi = self.w(it)
                    if wi < 64:
                        ie = 'SEXT(%s, %d, 64)' % (ie, wi)
                    dyn.append((ie, sz))
            e = self.atom(ind, base)
            for ie, sz in dyn:
                ie = self.atom(ind, ie)
                e = self.atom(ind, '(%s + %s * %d) & %d if type(%s) is int and type(%s) is int else A_gep(%s, %s, %d)' % (e, ie, sz, M64, e, ie, e, ie, sz))
            if off:
                if self.isint(e):
                    e = str((int(e) + off) & M64)
                else:
                    e = '((%s + %d) & %d if type(%s) is int else A_add(%s, %d, 64))' % (e, off, M64, e, e, off & M64)
            setr(e)
            return
        if op == 'extractvalue':
            t = p.type()
            v = self.val(t, p.value(t))
            path = ''
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                path += '[%s]' % p.next()[1]
            setr(v + path)
            return
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = self.val(et, p.value(et))
            path = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                path.append(int(p.next()[1]))
            if v[0] == 'undef':
                base = self.undef_tuple(t, path)
            else:
                base = self.val(t, v)
            setr('INSV(%s, %s, %s)' % (base, tuple(path), ev))
            return
        if op == 'extractelement':
            t = p.type()
            v = self.val(t, p.value(t))
            p.expect(',')
            it = p.type()
            iv = self.val(it, p.value(it))
            setr('%s[conc(%s, "lane")]' % (v, iv))
            return
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = self.val(et, p.value(et))
            p.expect(',')
            it = p.type()
            iv = self.val(it, p.value(it))
            base = self.undef_tuple(t, [int(iv)] if self.isint(iv) else []) if v[0] == 'undef' else self.val(t, v)
            setr('INSV(%s, (conc(%s, "lane"),), %s)' % (base, iv, ev))
            return
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            p.expect(',')
            mt = p.type()
            mv = p.value(mt)
            rt = m.res(t)
            n = m.res(mt)[1]
            ea = self.atom(ind, self.val(t, a)) if a[0] != 'undef' else None
            eb = self.atom(ind, self.val(t, b)) if b[0] != 'undef' else None
            es = []
            for i in range(n):
                k = 0
                if mv[0] == 'agg':
                    x = mv[1][i][1]
                    if x[0] == 'undef':
                        es.append('UNDEF(%d)' % self.w(rt[2]))
                        continue
                    k = x[1] if x[0] == 'int' else 0
                src, kk = (ea, k) if k < rt[1] else (eb, k - rt[1])
                es.append('%s[%d]' % (src, kk) if src else 'UNDEF(%d)' % self.w(rt[2]))
            setr('(%s,)' % ','.join(es))
            return
        if op == 'cmpxchg':
            while p.pv() in FLAGS or p.pv() == 'weak':
                p.next()
            pt = p.type()
            pe = self.atom(ind, self.val(pt, p.value(pt)))
            p.expect(',')
            t = p.type()
            ce = self.atom(ind, self.val(t, p.value(t)))
            p.expect(',')
            t2 = p.type()
            ne = self.val(t2, p.value(t2))
            n = m.size(t)
            w = self.w(t)
            old = self.atom(ind, 'LD(%s, %d)' % (pe, n))
            eq = self.atom(ind, self.cmp('eq', m.res(t), old, ce))
            self.e(ind, 'if type(%s) is not int: %s = BR(%s)' % (eq, eq, eq))
            self.e(ind, 'if %s: ST(%s, %d, %s)' % (eq, pe, n, ne))
            setr('(%s, %s)' % (old, eq))
            return
        if op == 'atomicrmw':
            while p.pv() in FLAGS:
                p.next()
            o = p.next()[1]
            pt = p.type()
            pe = self.atom(ind, self.val(pt, p.value(pt)))
            p.expect(',')
            t = p.type()
            ve = self.atom(ind, self.val(t, p.value(t)))
            rt = m.res(t)
            n = m.size(t)
            setr('LD(%s, %d)' % (pe, n))
            r = self.ln(res)
            if o == 'xchg':
                x = ve
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                x = self.binop(o, rt, r, ve)
            elif o in ('umax', 'umin', 'max', 'min'):
                x = 'SEL(CMP(%r, %s, %s, %d), %s, %s, %d)' % ({'umax': 'ugt', 'umin': 'ult', 'max': 'sgt', 'min': 'slt'}[o], r, ve, self.w(t), r, ve, self.w(t))
            else:
                raise Unsupported('atomicrmw ' + o)
            self.e(ind, 'ST(%s, %d, %s)' % (pe, n, x))
            return
        if op in ('call', 'invoke'):
            return self.call(res, op, p, s, ind, setr)
        raise Unsupported('instr ' + op)

    def undef_tuple(self, t, path):
        """undef aggregate about to get `path` set: scalars other than path stay undef"""
        t = self.m.res(t)
        es = []
        for i, et in enumerate(self.elems(t)):
            if path and path[0] == i and self.m.res(et)[0] not in ('struct', 'arr', 'vec'):
                es.append('0')
            elif path and path[0] == i:
                es.append(self.undef_tuple(et, path[1:]))
            elif self.m.res(et)[0] in ('struct', 'arr', 'vec'):
                es.append(self.undef_tuple(et, []))
            else:
                es.append('LZ')
        return '(%s,)' % ','.join(es) if es else '()'

    def call(self, res, op, p, s, ind, setr):
        m = self.m
        while True:
            k, v = p.peek()
            if v in FLAGS or v in ('fastcc', 'coldcc', 'ccc', 'preserve_mostcc'):
                p.next()
            elif v == 'cc':
                p.next(); p.next()
            else:
                n0 = p.i
                p.skip_attrs()
                if p.i == n0:
                    break
        p.allow_fn = True
        rt = p.type()
        p.allow_fn = False
        va = False
        if rt[0] == 'fn':
            va = rt[3]
            rt = rt[1]
        if p.pv() == 'asm':
            p.next()
            while p.pv() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            tmpl = p.next()[1]
            if tmpl != '""' or res is not None:
                if tmpl.startswith('"pause'):
                    return
                raise Unsupported('inline asm ' + tmpl)
            return
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.eat(')'):
            t = p.type()
            at = p.skip_attrs()
            if t == ('metadata',):
                depth = 0
                while True:
                    x = p.pv()
                    if x in (',', ')') and depth == 0:
                        break
                    if x in ('(', '{'):
                        depth += 1
                    if x in (')', '}'):
                        depth -= 1
                    p.next()
                args.append((t, None, at))
            else:
                args.append((t, p.value(t), at))
            p.eat(',')

        def after():
            if op == 'invoke':
                while p.pv() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                self.goto(p.next()[1], ind)
                return True

        if callee[0] == 'global' and callee[1].startswith('@llvm.'):
            self.intrinsic(res, callee[1], rt, args, s, ind, setr)
            return after()
        # flatten
        ex, cls = [], []
        for t, v, at in args:
            if 'byval' in at:
                b = m.res(at['byval'])
                sz = m.size(b)
                self.uid += 1
                n = 't%d_' % self.uid
                self.e(ind, '%s = ALLOCA(%d, 16); MEMCPY(%s, %s, %d)' % (n, max(sz, 1), n, self.val(t, v), sz))
                ex.append(n)
                cls.append(64)
            else:
                ex += self.leaf_exprs(t, v)
                cls += [leafcls(m, lt) for lt, _, _ in self.leaves(t)]
        key = self.retkey(rt)
        if callee[0] == 'global':
            rec = self.prog.fn_rec(m, callee[1])
            fn = 'f%d' % rec.id
            env = self.prog.env
            if fn not in env:
                prog = self.prog

                def stub(*a, rec=rec, fn=fn):
                    g = prog.get(rec)
                    prog.env[fn] = g
                    return g(*a)
                env[fn] = stub
            if rec.is_def and not is_builtin(cname(rec.name)):
                f2 = rec.mod.func(rec.name)
                c2 = FnC.__new__(FnC)
                c2.m = rec.mod
                want = []
                for (t, nm, at) in f2.params:
                    want += [64] if 'byval' in at else [leafcls(rec.mod, lt) for lt, _, _ in c2.leaves(t)]
                rk = c2.retkey(f2.ret)
                if f2.va:
                    k = len(want)
                    if cls[:k] != want:
                        raise Unsupported('variadic prefix mismatch')
                    a = ', '.join(ex[:k] + ['[%s]' % ', '.join('(%r, %s)' % (c, e) for c, e in zip(cls[k:], ex[k:]))])
                elif want != cls:
                    if len(want) != len(cls):
                        self.e(ind, 'raise Fault("abi", %r)' % ('call of %s with %d register arguments, it takes %d' % (rec.name, len(cls), len(want))))
                        return True
                    a = ', '.join(e if h == w else 'coerce(%s, %r, %r, %r)' % (e, h, w, rec.name) for e, h, w in zip(ex, cls, want))
                else:
                    a = ', '.join(ex)
                call = '%s(%s)' % (fn, a)
                if rt != VOID and rk != key:
                    self.prog.env['R%d' % rec.id] = rec
                    rec.retkey = rk
                    call = 'retconv(%s, R%d, %r)' % (call, rec.id, key)
                    if self.m.res(rt)[0] in ('struct', 'arr'):
                        call = 'RESHAPE(%s, %s)' % (self.shape(rt), call)
                elif rt != VOID and self.m.res(rt)[0] in ('struct', 'arr') and self.shape(rt) != c2.shape(f2.ret):
                    call = 'RESHAPE(%s, %s)' % (self.shape(rt), call)
            else:
                call = '%s(%s)' % (fn, ', '.join(ex))
        else:
            call = 'ICALL(%s, %r, %r, %r, [%s])' % (self.val(PTR, callee), key, cls, va, ', '.join(ex))
            if rt != VOID and self.m.res(rt)[0] in ('struct', 'arr'):
                call = 'RESHAPE(%s, %s)' % (self.shape(rt), call)
        if res is None:
            self.e(ind, call)
        else:
            setr(call)
        return after()

    def intrinsic(self, res, name, rt, args, s, ind, setr):
        m = self.m
        n = name[6:]
        base = n.split('.')[0]

        def A(i):
            return self.atom(ind, self.val(args[i][0], args[i][1]))
        if base == 'lifetime':
            self.e(ind, 'LIFE(%d, %s)' % (int('.start' in n), A(len(args) - 1)))
            return
        if base in ('assume', 'donothing', 'prefetch', 'dbg', 'sideeffect', 'pseudoprobe', 'stackrestore', 'va_end') or n.startswith(('experimental.noalias', 'invariant.', 'allow.', 'fake.use')):
            if base == 'assume' and args[0][1][0] == 'local':
                self.e(ind, 'LASSUME(%s)' % A(0))
            if res is not None:
                setr('0')
            return
        if base in ('memcpy', 'memmove'):
            self.e(ind, 'MEMCPY(%s, %s, %s)' % (A(0), A(1), A(2)))
            return
        if base == 'memset':
            self.e(ind, 'MEMSET(%s, %s, %s)' % (A(0), A(1), A(2)))
            return
        t = m.res(rt) if rt != VOID else VOID
        if base in ('umax', 'umin', 'smax', 'smin'):
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base]
            a, b = A(0), A(1)

            def one(x, y, w):
                return 'SEL(CMP(%r, %s, %s, %d), %s, %s, %d)' % (pred, x, y, w, x, y, w)
            if t[0] == 'vec':
                w = self.w(t[2])
                setr('(%s,)' % ','.join(one('%s[%d]' % (a, i), '%s[%d]' % (b, i), w) for i in range(t[1])))
            else:
                setr(one(a, b, self.w(t)))
            return
        mm = re.match(r'([us])(add|sub|mul)\.with\.overflow', n)
        if mm:
            setr('OVF(%r, %r, %s, %s, %d)' % (mm.group(1), mm.group(2), A(0), A(1), self.w(args[0][0])))
            return
        mm = re.match(r'([us])(add|sub)\.sat', n)
        if mm:
            w = self.w(t)
            if mm.group(1) == 'u':
                setr('USAT(%r, %s, %s, %d)' % (mm.group(2), A(0), A(1), w))
                return
            raise Unsupported(n)
        if base in ('ucmp', 'scmp'):
            w = self.w(args[0][0])
            a, b = A(0), A(1)
            rw = self.w(t)
            pl = 'ult' if base == 'ucmp' else 'slt'
            setr('SEL(CMP(%r, %s, %s, %d), %d, SEL(CMP("eq", %s, %s, %d), 0, 1, %d), %d)' % (pl, a, b, w, (1 << rw) - 1, a, b, w, rw, rw))
            return
        if base == 'expect':
            setr(A(0))
            return
        if n.startswith('is.constant'):
            setr('0')
            return
        if base in ('threadlocal', 'launder', 'strip', 'ssa') or n.startswith('ptr.annotation'):
            setr(A(0))
            return
        if base == 'ptrmask':
            a, b = A(0), A(1)
            setr('(%s & %s)' % (a, b))
            return
        if base in ('trap', 'ubsantrap', 'debugtrap'):
            self.e(ind, 'raise PathEnd("abort", "trap")')
            return
        if base in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'abs', 'fshl', 'fshr'):
            if t[0] == 'vec':
                w = self.w(t[2])
                if base in ('fshl', 'fshr'):
                    a, b, c = A(0), A(1), A(2)
                    setr('(%s,)' % ','.join('BITOP(%r, %s[%d], %d, %s[%d], %s[%d])' % (base, a, i, w, b, i, c, i) for i in range(t[1])))
                else:
                    a = A(0)
                    setr('(%s,)' % ','.join('BITOP(%r, %s[%d], %d)' % (base, a, i, w) for i in range(t[1])))
                return
            w = self.w(t)
            if base in ('fshl', 'fshr'):
                setr('BITOP(%r, %s, %d, %s, %s)' % (base, A(0), w, A(1), A(2)))
            else:
                setr('BITOP(%r, %s, %d)' % (base, A(0), w))
            return
        if n.startswith('vector.reduce.'):
            o = n.split('.')[2]
            vt = m.res(args[0][0])
            a = A(0)
            et = m.res(vt[2])
            e = '%s[0]' % a
            for i in range(1, vt[1]):
                if o in ('add', 'or', 'and', 'xor', 'mul'):
                    e = self.atom(ind, self.binop(o, et, self.atom(ind, e), self.atom(ind, '%s[%d]' % (a, i))))
                else:
                    raise Unsupported(n)
            setr(e)
            return
        if base == 'fabs':
            w = self.w(t)
            setr('(%s & %d)' % (A(0), (1 << (w - 1)) - 1))
            return
        if n.startswith('is.fpclass'):
            setr('FPCLASS(%s, %d, %s)' % (A(0), self.w(args[0][0]), A(1)))
            return
        mm = re.match(r'fpto([us])i\.sat', n)
        if mm:
            setr('FSAT(%r, %s, %d, %d)' % (mm.group(1) == 's', A(0), self.w(args[0][0]), self.w(t)))
            return
        if base == 'stacksave':
            setr('0')
            return
        if base == 'va_start':
            ngp = sum(1 for c in self.sigs if type(c) is int)
            nfp = len(self.sigs) - ngp
            self.e(ind, 'VASTART(%s, va, %d, %d)' % (A(0), ngp, nfp))
            return
        if base == 'va_copy':
            self.e(ind, 'MEMCPY(%s, %s, 24)' % (A(0), A(1)))
            return
        if n.startswith('load.relative'):
            a = A(0)
            b = A(1)
            setr('(%s + SEXT(LD((%s + %s) & %d, 4), 32, 64)) & %d' % (a, a, b, M64, M64))
            return
        if n in ('x86.sse2.pause', 'aarch64.hint'):
            return
        if n.startswith('eh.typeid'):
            setr('0')
            return
        raise Unsupported('intrinsic ' + n)


def FPCLASS(x, w, mask):
    mb = {16: 10, 32: 23, 64: 52}[w]
    inf = ((1 << (w - 1 - mb)) - 1) << mb
    top = 1 << (w - 1)
    pos = {6: (0, 0), 7: (1, (1 << mb) - 1), 8: (1 << mb, inf - 1), 9: (inf, inf)}
    rs = [(lo + s, hi + s) for s, ks in ((0, (6, 7, 8, 9)), (top, (5, 4, 3, 2))) for k, (lo, hi) in zip(ks, pos.values()) if mask >> k & 1]
    for s in (0, top):
        if mask & 1:
            rs.append((inf + 1 + s, inf + (1 << (mb - 1)) - 1 + s))
        if mask & 2:
            rs.append((inf + (1 << (mb - 1)) + s, top - 1 + s))
    r = 0
    for lo, hi in rs:
        r = SEL(CMP('ult', x, lo, w), r, SEL(CMP('ult', hi, x, w), r, 1, 1), 1)
    return r


def LASSUME(c):
    # llvm.assume: a false assumption is undefined behaviour
    if type(c) is int:
        if not c:
            raise Fault('ub', 'a compiler assumption does not hold')
        return
    if not BR(c):
        raise Fault('ub', 'a compiler assumption does not hold')


class _LZ:
    """undef slot of an aggregate under construction"""
    def __repr__(self):
        return 'LZ'


LZ = _LZ()


def INSV(base, path, v):
    i = path[0]
    if len(path) > 1:
        v = INSV(base[i], path[1:], v)
    return base[:i] + (v,) + base[i + 1:]


def LDX(v, w):
    """low w bits of a loaded value"""
    if type(v) is int:
        return v & ((1 << w) - 1)
    return TRUNC(v, w)


def A_gep(a, i, sz):
    if type(i) is int:
        return bv(a, 64) + ((i * sz) & M64)
    return simp(bv(a, 64) + i * z3.BitVecVal(sz, 64))


def USAT(op, a, b, w):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        return min(a + b, m) if op == 'add' else max(a - b, 0)
    a, b = bv(a, w), bv(b, w)
    if op == 'add':
        return simp(z3.If(z3.ULT(a + b, a), z3.BitVecVal(m, w), a + b))
    return simp(z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b))


def run_harness(paths, name, limits):
    sys.setrecursionlimit(20000)
    prog = Program(paths)
    eng = Engine(prog, limits)
    eng.reset()
    rec = None
    for m in prog.mods:
        if '@' + name in m.ftext:
            rec = prog.fn_rec(m, '@' + name)
    if rec is None:
        raise Unsupported('no harness ' + name)
    return eng.run(rec)
