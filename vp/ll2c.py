#!/usr/bin/env python3
"""Mechanical translation of LLVM IR (clang -O0 + mem2reg) to C for CBMC.

Used for the C++ sources, which CBMC's C++ front end does not accept.  The C
text is regenerated from /repo on every run.  Each IR instruction becomes one C
statement; what is dropped: metadata, attributes (noalias, nonnull, align, ...),
lifetime/assume/debug intrinsics, exception landing pads (-fno-exceptions) and
`inbounds`/`exact`/fast-math flags.  `nsw`/`nuw` become overflow obligations.
Anything not understood is an error, never skipped.
"""
import re, sys


class LLErr(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    pass


def tok(s):
    return re.findall(r'c"(?:[^"])*"|%"[^"]*"|@"[^"]*"|"[^"]*"|%[\w.$-]+|@[\w.$-]+|![\w.]*|#\d+|-?\d+\.\d+e[+-]?\d+|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[\w.$]+|[()\[\]{}<>,=*:]', s)


class Types:
    def __init__(self):
        self.named = {}
        self.emitted = {}
        self.out = []
        self.n = 0

    def parse(self, ts, i):
        """returns (type, next)"""
        t = ts[i]
        if t == 'ptr':
            r = ('ptr',)
            i += 1
            if i < len(ts) and ts[i] == 'addrspace':
                i += 4
            return r, i
        if t == 'void':
            return ('void',), i + 1
        if t in ('float', 'double'):
            return (t,), i + 1
        if t == 'x86_fp80':
            return ('ldouble',), i + 1
        m = re.fullmatch(r'i(\d+)', t)
        if m:
            return ('i', int(m.group(1))), i + 1
        if t == '[':
            n = int(ts[i + 1])
            assert ts[i + 2] == 'x'
            e, j = self.parse(ts, i + 3)
            assert ts[j] == ']'
            return ('arr', n, e), j + 1
        if t == '<' and ts[i + 1] == '{':
            f, j = self.fields(ts, i + 2)
            assert ts[j] == '>'
            return ('struct', tuple(f), True), j + 1
        if t == '{':
            f, j = self.fields(ts, i + 1)
            return ('struct', tuple(f), False), j
        if t.startswith('%'):
            return ('named', t), i + 1
        if t == '<':
            n = int(ts[i + 1])
            e, j = self.parse(ts, i + 3)
            assert ts[j] == '>'
            return ('vec', n, e), j + 1
        raise LLErr('type? ' + ' '.join(ts[i:i + 8]))

    def fields(self, ts, i):
        f = []
        while ts[i] != '}':
            t, i = self.parse(ts, i)
            f.append(t)
            if ts[i] == ',':
                i += 1
        return f, i + 1

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], 8 if t[1] > 32 else 4)
        if t[0] == 'float':
            return 4
        if t[0] in ('ptr', 'double'):
            return 8
        if t[0] == 'ldouble':
            return 16
        if t[0] in ('arr', 'vec'):
            return self.align(t[2]) if t[0] == 'arr' else self.size(t)
        if t[0] == 'struct':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        raise LLErr('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t[0] == 'float':
            return 4
        if t[0] in ('ptr', 'double'):
            return 8
        if t[0] == 'ldouble':
            return 16
        if t[0] in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if t[0] == 'struct':
            o = self.offsets(t)[1]
            return o
        raise LLErr('size %r' % (t,))

    def offsets(self, t):
        o, r = 0, []
        for f in t[1]:
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            r.append(o)
            o += self.size(f)
        a = self.align(t)
        return r, (o + a - 1) // a * a

    def c(self, t):
        """C type name"""
        if t[0] == 'void':
            return 'void'
        if t[0] == 'ptr':
            return 'u8p'
        if t[0] == 'i':
            n = t[1]
            for w in (8, 16, 32, 64):
                if n <= w:
                    return 'uint%d_t' % w
            if n <= 128:
                return 'u128'
            raise LLErr('i%d' % n)
        if t[0] in ('float', 'double'):
            return t[0]
        if t[0] == 'ldouble':
            return 'long double'
        if t in self.emitted:
            return self.emitted[t]
        r = self.resolve(t)
        if r in self.emitted:
            self.emitted[t] = self.emitted[r]
            return self.emitted[r]
        self.n += 1
        name = 'ty%d' % self.n
        if r[0] in ('arr', 'vec'):
            e = self.c(r[2])
            self.out.append('typedef struct { %s a[%d]; } %s;' % (e, max(r[1], 1), name))
        elif r[0] == 'struct':
            fs = [self.c(f) for f in r[1]]
            if not fs:
                self.out.append('typedef struct { uint8_t dummy; } %s;' % name)
            else:
                self.out.append('typedef struct%s { %s } %s;' % (
                    ' __attribute__((packed))' if r[2] else '',
                    ' '.join('%s f%d;' % (x, k) for k, x in enumerate(fs)), name))
        else:
            raise LLErr('ctype %r' % (r,))
        self.emitted[r] = name
        self.emitted[t] = name
        return name


ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'noalias',
         'returned', 'immarg', 'inreg', 'nest', 'swiftself', 'allocptr', 'nofree', 'mustprogress', 'noinline', 'captures', 'dead_on_unwind', 'writable'}


class Tr:
    def __init__(self, text):
        self.ty = Types()
        self.text = text
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.out = []
        self.gout = []
        self.internal = set()
        self.ptrcasts = []

    # ---- names
    @staticmethod
    def cn(s):
        s = s[1:]
        if s.startswith('"'):
            s = s[1:-1]
        return re.sub(r'[^\w]', '_', s)

    def gname(self, s):
        n = self.cn(s)
        if n == 'memmove':
            return 'LL_MEMMOVE'
        if n in ('memcpy', 'memset', 'memcmp', 'abort', 'strlen'):
            return n
        return n

    def skip_attrs(self, ts, i):
        while i < len(ts):
            if ts[i] in ATTRS:
                i += 1
            elif ts[i] in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                i += 1
                if ts[i] == '(':
                    i += 3
                else:
                    i += 1
            elif ts[i] in ('sret', 'byval', 'elementtype', 'range', 'initializes', 'nofpclass', 'memory', 'allocsize'):
                i += 1
                dp = 0
                while True:
                    if ts[i] == '(':
                        dp += 1
                    if ts[i] == ')':
                        dp -= 1
                    i += 1
                    if dp == 0:
                        break
            else:
                return i
        return i

    # ---- constants / operands
    def const(self, t, ts, i):
        """C expression of an operand of type t at ts[i]"""
        x = ts[i]
        if x.startswith('%'):
            return 'v_' + self.cn(x), i + 1
        if x.startswith('@'):
            self.used.add(x)
            return '((u8p)%s%s)' % ('' if x in self.funcs or x in self.decls else '&', self.gname(x)), i + 1
        if x == 'null':
            return '((u8p)0)', i + 1
        if x in ('undef', 'poison', 'zeroinitializer'):
            r = self.ty.resolve(t)
            if r[0] in ('i', 'float', 'double', 'ldouble'):
                return '((%s)0)' % self.ty.c(t), i + 1
            if r[0] == 'ptr':
                return '((u8p)0)', i + 1
            return '((%s){0})' % self.ty.c(t), i + 1
        if x == 'true':
            return '1', i + 1
        if x == 'false':
            return '0', i + 1
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast'):
            return self.constexpr(ts, i)
        if t[0] == 'i':
            v = int(x, 0)
            n = t[1]
            v &= (1 << n) - 1
            if n > 64:
                return '(((u128)0x%xull << 64) | 0x%xull)' % (v >> 64, v & (2 ** 64 - 1)), i + 1
            return '((%s)0x%xu%s)' % (self.ty.c(t), v, 'll' if n > 32 else ''), i + 1
        if t[0] in ('float', 'double'):
            if x.startswith('0x'):
                import struct
                d = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
            else:
                d = float(x)
            if d != d:
                return '((%s)__builtin_nan(""))' % t[0], i + 1
            if d in (float('inf'), float('-inf')):
                return '((%s)%s__builtin_inf())' % (t[0], '-' if d < 0 else ''), i + 1
            return '((%s)%s)' % (t[0], d.hex()), i + 1
        if ts[i] == '{' or ts[i] == '[' or ts[i] == '<':
            return '((%s)%s)' % (self.ty.c(t), self.init(t, ts, i)[0]), self.init(t, ts, i)[1]
        raise LLErr('operand? ' + ' '.join(ts[i:i + 8]))

    def constexpr(self, ts, i):
        op = ts[i]
        i += 1
        while ts[i] in ('inbounds', 'nuw', 'nusw', 'exact'):
            i += 1
        assert ts[i] == '(', ts[i:i + 5]
        i += 1
        if op == 'getelementptr':
            bt, i = self.ty.parse(ts, i)
            i += 1
            ops = []
            while True:
                t, i = self.ty.parse(ts, i)
                if ts[i] == 'inrange':
                    i += 1
                e, i2 = self.const(t, ts, i)
                ops.append((t, e, ts[i]))
                i = i2
                if ts[i] == ')':
                    break
                i += 1
            return self.gep(bt, ops), i + 1
        t, i = self.ty.parse(ts, i)
        e, i = self.const(t, ts, i)
        assert ts[i] == 'to'
        t2, i = self.ty.parse(ts, i + 1)
        if op == 'inttoptr':
            e = '((u8p)%s)' % e
        elif op == 'ptrtoint':
            e = '((%s)(uint64_t)%s)' % (self.ty.c(t2), e)
        return e, i + 1

    def gep(self, bt, ops):
        base = ops[0][1]
        off, terms = 0, []
        cur = None
        for k, (t, e, raw) in enumerate(ops[1:]):
            if k == 0:
                sz, cur = self.ty.size(bt), bt
            else:
                r = self.ty.resolve(cur)
                if r[0] == 'struct':
                    f = int(raw)
                    off += self.ty.offsets(r)[0][f]
                    cur = r[1][f]
                    continue
                if r[0] not in ('arr', 'vec'):
                    raise LLErr('gep into %r' % (r,))
                cur = r[2]
                sz = self.ty.size(cur)
            if re.fullmatch(r'-?\d+', raw):
                off += int(raw) * sz
            else:
                w = t[1]
                terms.append('(int64_t)(int%d_t)%s * %d' % (w, e, sz) if sz != 1 else '(int64_t)(int%d_t)%s' % (w, e))
        s = base
        for x in terms:
            s = '(%s + %s)' % (s, x)
        if off:
            s = '(%s + (%d))' % (s, off)
        return s

    def init(self, t, ts, i):
        """C initializer"""
        r = self.ty.resolve(t)
        x = ts[i]
        if x in ('zeroinitializer', 'undef', 'poison'):
            return '{0}' if r[0] in ('arr', 'struct', 'vec') else '0', i + 1
        if r[0] == 'arr':
            if x.startswith('c"'):
                b, k, s = [], 0, x[2:-1]
                while k < len(s):
                    if s[k] == '\\':
                        b.append(int(s[k + 1:k + 3], 16))
                        k += 3
                    else:
                        b.append(ord(s[k]))
                        k += 1
                return '{{%s}}' % ','.join(map(str, b)), i + 1
            assert x == '[', x
            i += 1
            el = []
            while ts[i] != ']':
                et, i = self.ty.parse(ts, i)
                e, i = self.init(et, ts, i)
                el.append(e)
                if ts[i] == ',':
                    i += 1
            return '{{%s}}' % ','.join(el or ['0']), i + 1
        if r[0] == 'struct':
            packed = x == '<'
            i += 2 if packed else 1
            el = []
            while ts[i] != '}':
                et, i = self.ty.parse(ts, i)
                e, i = self.init(et, ts, i)
                el.append(e)
                if ts[i] == ',':
                    i += 1
            return '{%s}' % ','.join(el or ['0']), i + (2 if packed else 1)
        return self.const(t, ts, i)

    # ---- module
    def run(self, only=None, drop=()):
        self.ctors = []
        self.aliases = []
        lines = self.text.split('\n')
        bodies = []
        k = 0
        glines = []
        while k < len(lines):
            l = lines[k]
            if re.match(r'%[^=]+ = type ', l):
                n, rhs = l.split(' = type ', 1)
                if rhs.strip() == 'opaque':
                    self.ty.named[n] = ('struct', (), False)
                else:
                    self.ty.named[n] = rhs
            elif l.startswith('@'):
                glines.append(l)
            elif l.startswith('define') or l.startswith('declare'):
                isdef = l.startswith('define')
                body = []
                if isdef:
                    k += 1
                    while lines[k] != '}':
                        body.append(lines[k])
                        k += 1
                bodies.append((l, body, isdef))
            k += 1
        for n, r in list(self.ty.named.items()):
            if isinstance(r, str):
                self.ty.named[n] = self.ty.parse(tok(r), 0)[0]
        self.used = set()
        sigs = []
        for l, body, isdef in bodies:
            h = self.header(l)
            if h['name'] in drop:
                isdef = False
            (self.funcs if isdef else self.decls)[h['name']] = h
            sigs.append((h, body, isdef))
        gl = []
        for l in glines:
            n, rhs = l.split(' = ', 1)
            ts = tok(rhs)
            i = 0
            internal = False
            ext = False
            isconst = False
            while ts[i] not in ('global', 'constant', 'alias'):
                if ts[i] in ('internal', 'private', 'linkonce_odr'):
                    internal = True
                if ts[i] == 'external':
                    ext = True
                i += 1
            if ts[i] == 'alias':
                m = re.search(r', ptr (@[\w.$]+|@"[^"]+")', rhs)
                if not m or m.group(1) not in self.funcs:
                    raise LLErr('alias ' + l[:100])
                self.aliases.append((n, m.group(1)))
                continue
            if n.startswith('@llvm.'):
                continue
            gl.append((n, ts, i, internal, ext))
            self.globals[n] = 1
        if '@llvm.global_ctors' in self.text and re.search(r'@llvm\.global_ctors = appending global \[0', self.text) is None:
            m = re.search(r'@llvm\.global_ctors.*', self.text)
            self.ctors = re.findall(r'ptr (@[\w.$"]+), ptr', m.group(0))
        else:
            self.ctors = []
        work = [(h, b) for h, b, d in sigs if d]
        fouts = {}
        for h, b in work:
            save, self.used = self.used, set()
            try:
                fouts[h['name']] = (self.function(h, b), self.used)
            except LLErr as e:
                fouts[h['name']] = (e, self.used)
            self.used = save
        # reachability from the external functions (or `only`)
        gtxt = {}
        for n, ts, i, internal, ext in gl:
            save, self.used = self.used, set()
            t, j = self.ty.parse(ts, i + 1)
            if ext:
                gtxt[n] = ('extern %s %s;' % (self.ty.c(t), self.gname(n)), None, self.used)
            else:
                ini, _ = self.init(t, ts, j)
                st = 'static ' if internal else ''
                gtxt[n] = ('%s%s %s;' % (st if internal else 'extern ', self.ty.c(t), self.gname(n)),
                           '%s%s %s = %s;' % (st, self.ty.c(t), self.gname(n), ini), self.used)
            self.used = save
        roots = [h['name'] for h, b, d in sigs if d and not h['internal'] and (only is None or self.cn(h['name']) in only)]
        need, stack = set(), list(roots) + ([] if only is not None else list(self.ctors))
        while stack:
            x = stack.pop()
            if x in need:
                continue
            need.add(x)
            if x in fouts:
                r, u = fouts[x]
                if isinstance(r, LLErr):
                    raise LLErr('%s: %s' % (x, r))
                stack += list(u)
            elif x in gtxt:
                stack += list(gtxt[x][2])
        res = ['/* generated by ll2c.py - do not edit */', PRELUDE]
        res += self.ty.out
        for h, b, d in sigs:
            if h['name'] in need and not h['name'].startswith('@llvm.'):
                if h['name'] in BUILTIN:
                    continue
                res.append(self.proto(h, d and h['internal']) + ';')
        for n in gtxt:
            if n in need:
                res.append(gtxt[n][0])
        for n in gtxt:
            if n in need and gtxt[n][1]:
                res.append(gtxt[n][1])
        for h, b, d in sigs:
            if d and h['name'] in need:
                res.append(fouts[h['name']][0])
        for a, f in self.aliases:
            if f in need:
                h = self.funcs[f]
                hh = dict(h, name=a, args=[(t, '%%p%d' % k) for k, (t, n) in enumerate(h['args'])])
                res.append('%s { %s%s(%s); }' % (self.proto(hh, False), '' if h['ret'][0] == 'void' else 'return ', self.gname(f),
                                                ', '.join('v_p%d' % k for k in range(len(h['args'])))))
        return '\n'.join(res) + '\n'

    def header(self, l):
        ts = tok(l)
        i = 1
        internal = False
        while True:
            if ts[i] in ('internal', 'linkonce_odr', 'private', 'available_externally'):
                internal = True
            try:
                i2 = self.skip_attrs(ts, i)
                if i2 != i:
                    i = i2
                    continue
                t, j = self.ty.parse(ts, i)
                if ts[j].startswith('@'):
                    break
            except (LLErr, AssertionError, ValueError, IndexError):
                pass
            i += 1
        name = ts[j]
        i = j + 1
        assert ts[i] == '('
        i += 1
        args, va = [], False
        while ts[i] != ')':
            if ts[i] == '...':
                va = True
                i += 1
                continue
            at, i = self.ty.parse(ts, i)
            i = self.skip_attrs(ts, i)
            an = None
            if ts[i].startswith('%'):
                an = ts[i]
                i += 1
            args.append((at, an))
            if ts[i] == ',':
                i += 1
        return {'name': name, 'ret': t, 'args': args, 'va': va, 'internal': internal}

    def proto(self, h, static):
        ctor = '__attribute__((constructor)) ' if h['name'] in self.ctors else ''
        a = ', '.join('%s%s' % (self.ty.c(t), ' v_' + self.cn(n) if n else '') for t, n in h['args'])
        if h['va']:
            a += ', ...' if a else ''
        return '%s%s%s %s(%s)' % (ctor, 'static ' if static else '', self.ty.c(h['ret']), self.gname(h['name']), a or 'void')

    def function(self, h, body):
        blocks, cur = [], ('entry', [])
        # the entry block's implicit label is the number of arguments
        k = 0
        for l in body:
            l = re.sub(r',? ![\w.]+ !\d+', '', l)
            m = re.match(r'^([\w.$-]+|"[^"]+"):', l)
            if m:
                blocks.append(cur)
                cur = (m.group(1), [])
            elif l.strip() and not l.strip().startswith(';'):
                l = l.strip()
                if cur[1] and cur[1][-1].startswith('switch') and ']' not in cur[1][-1]:
                    cur[1][-1] += ' ' + l
                else:
                    cur[1].append(l)
        blocks.append(cur)
        nargs = len(h['args'])
        if not re.match(r'^[\w.$-]+:', body[0] if body else ''):
            # unnamed entry label
            pass
        else:
            blocks = blocks[1:]
        self.locals = []
        self.vt = {}
        for t, n in h['args']:
            self.vt[n] = t
        phis = {}
        code = []
        # unnamed entry label number
        num = sum(1 for t, n in h['args'] if re.fullmatch(r'%\d+', n or ''))
        entry = blocks[0][0]
        if entry == 'entry' and not (body and re.match(r'^entry:', body[0])):
            blocks[0] = (str(num), blocks[0][1])
        for lab, ins in blocks:
            for s in ins:
                m = re.match(r'(%[\w.$-]+) = phi (.*)', s)
                if m:
                    ts = tok(m.group(2))
                    t, i = self.ty.parse(ts, 0)
                    self.vt[m.group(1)] = t
                    self.locals.append('%s v_%s; %s p_%s;' % (self.ty.c(t), self.cn(m.group(1)), self.ty.c(t), self.cn(m.group(1))))
                    while i < len(ts) and ts[i] == '[':
                        e, i = self.const(t, ts, i + 1)
                        assert ts[i] == ','
                        phis.setdefault((ts[i + 1][1:], lab), []).append((self.cn(m.group(1)), e))
                        i += 3
                        if i < len(ts) and ts[i] == ',':
                            i += 1
        self.phis = phis
        for lab, ins in blocks:
            code.append('L_%s:;' % re.sub(r'[^\w]', '_', lab))
            for s in ins:
                m = re.match(r'(%[\w.$-]+) = phi ', s)
                if m:
                    code.append('  v_%s = p_%s;' % (self.cn(m.group(1)), self.cn(m.group(1))))
            for s in ins:
                if re.match(r'%[\w.$-]+ = phi ', s):
                    continue
                code += ['  ' + x for x in self.instr(s, lab, h)]
        return '%s\n{\n%s\n%s\n}\n' % (self.proto(h, h['internal']), '\n'.join('  ' + x for x in self.locals), '\n'.join(code))

    def jump(self, frm, to):
        to = to[1:]
        s = ''.join('p_%s = %s; ' % x for x in self.phis.get((frm, to), []))
        return '{ %sgoto L_%s; }' % (s, re.sub(r'[^\w]', '_', to))

    def setv(self, d, t, e):
        if d not in self.vt:
            self.vt[d] = t
            self.locals.append('%s v_%s;' % (self.ty.c(t), self.cn(d)))
        if t[0] == 'i' and t[1] not in (8, 16, 32, 64, 128):
            e = '((%s)(%s) & %s)' % (self.ty.c(t), e, '(((u128)1 << %d) - 1)' % t[1] if t[1] > 64 else '0x%xull' % ((1 << t[1]) - 1))
        return 'v_%s = %s;' % (self.cn(d), e)

    def sx(self, t, e):
        """signed view"""
        n = t[1]
        if n == 128:
            return '((s128)%s)' % e
        if n in (8, 16, 32, 64):
            return '((int%d_t)%s)' % (n, e)
        w = 64 if n > 32 else 32
        return '(((int%d_t)((uint%d_t)%s << %d)) >> %d)' % (w, w, e, w - n, w - n)

    def instr(self, s, lab, h):
        d = None
        m = re.match(r'(%[\w.$-]+) = (.*)', s)
        if m:
            d, s = m.group(1), m.group(2)
        ts = tok(s)
        op = ts[0]
        ty = self.ty
        i = 1
        flags = []
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            while ts[i] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp', 'afn', 'reassoc'):
                flags.append(ts[i])
                i += 1
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            b, i = self.const(t, ts, i + 1)
            ct = ty.c(t)
            pre = []
            if op in ('add', 'sub', 'mul') and 'nsw' in flags and t[1] in (8, 16, 32, 64):
                pre.append('LL_NSW_%s(%s, %s);' % (op, self.sx(t, a), self.sx(t, b)))
            if op == 'mul' and t[1] < 32:
                e = '(%s)((uint32_t)%s * (uint32_t)%s)' % (ct, a, b)
            elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                e = '(%s)(%s %s %s)' % (ct, a, {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op], b)
            elif op in ('shl', 'lshr'):
                w = 'uint64_t' if t[1] > 32 else 'uint32_t'
                if t[1] > 64:
                    w = 'u128'
                pre.append('LL_SHIFT(%s, %d);' % (b, t[1]))
                e = '(%s)((%s)%s %s %s)' % (ct, w, a, '<<' if op == 'shl' else '>>', b)
            elif op == 'ashr':
                pre.append('LL_SHIFT(%s, %d);' % (b, t[1]))
                e = '(%s)(%s >> %s)' % (ct, self.sx(t, a), b)
            elif op in ('udiv', 'urem'):
                e = '(%s)(%s %s %s)' % (ct, a, '/' if op == 'udiv' else '%', b)
            elif op in ('sdiv', 'srem'):
                e = '(%s)(%s %s %s)' % (ct, self.sx(t, a), '/' if op == 'sdiv' else '%', self.sx(t, b))
            else:
                e = '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], b)
            return pre + [self.setv(d, t, e)]
        if op == 'fneg':
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            return [self.setv(d, t, '-' + a)]
        if op == 'alloca':
            t, i = ty.parse(ts, i)
            if i < len(ts) and ts[i] == ',' and ts[i + 1] != 'align':
                raise LLErr('dynamic alloca')
            self.locals.append('%s a_%s;' % (ty.c(t), self.cn(d)))
            return [self.setv(d, ('ptr',), '(u8p)&a_%s' % self.cn(d))]
        if op == 'load':
            if ts[i] == 'volatile':
                i += 1
            t, i = ty.parse(ts, i)
            pt, i = ty.parse(ts, i + 1)
            p, i = self.const(pt, ts, i)
            return [self.setv(d, t, '*(%s *)%s' % (ty.c(t), p))]
        if op == 'store':
            if ts[i] == 'volatile':
                i += 1
            t, i = ty.parse(ts, i)
            v, i = self.const(t, ts, i)
            pt, i = ty.parse(ts, i + 1)
            p, i = self.const(pt, ts, i)
            return ['*(%s *)%s = %s;' % (ty.c(t), p, v)]
        if op == 'getelementptr':
            while ts[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            bt, i = ty.parse(ts, i)
            ops = []
            while i < len(ts) and ts[i] == ',':
                t, i = ty.parse(ts, i + 1)
                e, j = self.const(t, ts, i)
                ops.append((t, e, ts[i]))
                i = j
            return [self.setv(d, ('ptr',), self.gep(bt, ops))]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            while ts[i] in ('nneg', 'nsw', 'nuw'):
                i += 1
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            assert ts[i] == 'to'
            t2, i = ty.parse(ts, i + 1)
            c2 = ty.c(t2)
            if op == 'sext':
                if t == ('i', 1):
                    e = '(%s)(%s ? -1 : 0)' % (c2, a)
                else:
                    w = 'int64_t' if t2[1] <= 64 else 's128'
                    e = '(%s)(%s)%s' % (c2, w, self.sx(t, a))
            elif op == 'sitofp':
                e = '(%s)%s' % (c2, self.sx(t, a))
            elif op in ('fptosi', 'fptoui'):
                n = t2[1]
                lo = -(2.0 ** (n - 1)) if op == 'fptosi' else 0.0
                hi = 2.0 ** (n - 1) if op == 'fptosi' else 2.0 ** n
                sc = 'int%d_t' % n if op == 'fptosi' else c2
                return ['LL_FPTOI(%s, %s, %s);' % (a, (lo - 1).hex() if n < 53 else lo.hex() + ' * 1.0000000000000003', hi.hex()),
                        self.setv(d, t2, '(%s)(%s)%s' % (c2, sc, a))]
            elif op == 'bitcast':
                if (t[0] == 'i') != (t2[0] == 'i') or t[0] in ('float', 'double') or t2[0] in ('float', 'double'):
                    self.locals.append('%s b_%s;' % (ty.c(t), self.cn(d)))
                    return ['b_%s = %s;' % (self.cn(d), a), self.setv(d, t2, '*(%s *)&b_%s' % (c2, self.cn(d)))]
                e = a
            elif op == 'inttoptr':
                e = '(u8p)(uint64_t)%s' % a
            elif op == 'ptrtoint':
                e = '(%s)(uint64_t)%s' % (c2, a)
            else:
                e = '(%s)%s' % (c2, a)
            return [self.setv(d, t2, e)]
        if op == 'freeze':
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            return [self.setv(d, t, a)]
        if op == 'icmp':
            pr = ts[i]
            i += 1
            if pr == 'samesign':
                pr = ts[i]
                i += 1
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            b, i = self.const(t, ts, i + 1)
            c = {'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}
            if pr[0] == 's':
                e = '(%s %s %s)' % (self.sx(t, a), c[pr[1:]], self.sx(t, b))
            else:
                e = '(%s %s %s)' % (a, c[pr if pr in ('eq', 'ne') else pr[1:]], b)
            return [self.setv(d, ('i', 1), e)]
        if op == 'fcmp':
            while ts[i] in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
                i += 1
            pr = ts[i]
            t, i = ty.parse(ts, i + 1)
            a, i = self.const(t, ts, i)
            b, i = self.const(t, ts, i + 1)
            c = {'eq': '==', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}
            if pr == 'ord':
                e = '(%s == %s && %s == %s)' % (a, a, b, b)
            elif pr == 'uno':
                e = '(%s != %s || %s != %s)' % (a, a, b, b)
            elif pr == 'une':
                e = '(%s != %s)' % (a, b)
            elif pr == 'one':
                e = '(%s < %s || %s > %s)' % (a, b, a, b)
            elif pr[0] == 'o':
                e = '(%s %s %s)' % (a, c[pr[1:]], b)
            elif pr[0] == 'u':
                e = '(%s != %s || %s != %s || %s %s %s)' % (a, a, b, b, a, c[pr[1:]], b)
            else:
                raise LLErr('fcmp ' + pr)
            return [self.setv(d, ('i', 1), e)]
        if op == 'select':
            while ts[i] in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
                i += 1
            ct, i = ty.parse(ts, i)
            c, i = self.const(ct, ts, i)
            t, i = ty.parse(ts, i + 1)
            a, i = self.const(t, ts, i)
            t, i = ty.parse(ts, i + 1)
            b, i = self.const(t, ts, i)
            return [self.setv(d, t, '%s ? %s : %s' % (c, a, b))]
        if op == 'br':
            if ts[1] == 'label':
                return [self.jump(lab, ts[2])]
            c, i = self.const(('i', 1), ts, 2)
            return ['if (%s) %s else %s' % (c, self.jump(lab, ts[i + 2]), self.jump(lab, ts[i + 5]))]
        if op == 'switch':
            t, i = ty.parse(ts, i)
            v, i = self.const(t, ts, i)
            dflt = ts[i + 2]
            i += 4
            r = []
            while ts[i] != ']':
                ct, i = ty.parse(ts, i)
                cv, i = self.const(ct, ts, i)
                r.append('if (%s == %s) %s' % (v, cv, self.jump(lab, ts[i + 2])))
                i += 3
            r.append(self.jump(lab, dflt))
            return r
        if op == 'ret':
            if ts[1] == 'void':
                return ['return;']
            t, i = ty.parse(ts, 1)
            a, i = self.const(t, ts, i)
            return ['return %s;' % a]
        if op == 'unreachable':
            return ['LL_UNREACHABLE();']
        if op == 'extractvalue':
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            path = ''
            while i < len(ts) and ts[i] == ',':
                n = int(ts[i + 1])
                r = ty.resolve(t)
                if r[0] == 'struct':
                    path += '.f%d' % n
                    t = r[1][n]
                else:
                    path += '.a[%d]' % n
                    t = r[2]
                i += 2
            ty.c(t)
            return [self.setv(d, t, a + path)]
        if op == 'insertvalue':
            t, i = ty.parse(ts, i)
            a, i = self.const(t, ts, i)
            et, i = ty.parse(ts, i + 1)
            e, i = self.const(et, ts, i)
            path, tt = '', t
            while i < len(ts) and ts[i] == ',':
                n = int(ts[i + 1])
                r = ty.resolve(tt)
                if r[0] == 'struct':
                    path += '.f%d' % n
                    tt = r[1][n]
                else:
                    path += '.a[%d]' % n
                    tt = r[2]
                i += 2
            return [self.setv(d, t, a), 'v_%s%s = %s;' % (self.cn(d), path, e)]
        if op in ('call', 'tail', 'notail', 'musttail'):
            if op != 'call':
                i = 2
            while ts[i] in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'fastcc', 'ccc') or ts[i] in ATTRS:
                i += 1
            i = self.skip_attrs(ts, i)
            rt, i = ty.parse(ts, i)
            if ts[i] == '(':  # explicit function type
                dp = 0
                while True:
                    dp += ts[i] == '('
                    dp -= ts[i] == ')'
                    i += 1
                    if dp == 0:
                        break
            callee = ts[i]
            i += 1
            assert ts[i] == '(', s
            i += 1
            args = []
            while ts[i] != ')':
                if ts[i] == 'metadata':
                    return []
                at, i = ty.parse(ts, i)
                i = self.skip_attrs(ts, i)
                e, i = self.const(at, ts, i)
                args.append((at, e))
                if ts[i] == ',':
                    i += 1
            return self.call(d, rt, callee, args)
        raise LLErr('instruction: ' + s)

    def call(self, d, rt, callee, args):
        ty = self.ty
        A = [e for _, e in args]
        if callee.startswith('@llvm.'):
            n = callee[1:]
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.invariant', 'llvm.donothing')):
                if d:
                    return [self.setv(d, rt, '((u8p)0)')]
                return []
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                return ['%s(%s, %s, %s);' % ('memcpy' if 'memcpy' in n else 'LL_MEMMOVE', A[0], A[1], A[2])]
            if n.startswith('llvm.memset'):
                return ['memset(%s, %s, %s);' % tuple(A[:3])]
            m = re.match(r'llvm\.([us])(max|min)\.i(\d+)', n)
            if m:
                f = (lambda x: self.sx(rt, x)) if m.group(1) == 's' else (lambda x: x)
                return [self.setv(d, rt, '%s %s %s ? %s : %s' % (f(A[0]), '>' if m.group(2) == 'max' else '<', f(A[1]), A[0], A[1]))]
            m = re.match(r'llvm\.(fabs|floor|ceil|trunc|rint|round|sqrt|copysign|nearbyint|fmuladd|fma|pow|sin|cos|exp|log)\.f(32|64)', n)
            if m:
                f = m.group(1)
                if f == 'fmuladd':
                    return [self.setv(d, rt, '%s * %s + %s' % tuple(A))]
                self.mathfn = True
                return [self.setv(d, rt, '%s%s(%s)' % (f, 'f' if m.group(2) == '32' else '', ', '.join(A)))]
            m = re.match(r'llvm\.abs\.i(\d+)', n)
            if m:
                return ['LL_NSW_sub((int%s_t)0, %s);' % (m.group(1), self.sx(rt, A[0])),
                        self.setv(d, rt, '%s < 0 ? (%s)(0 - %s) : %s' % (self.sx(rt, A[0]), ty.c(rt), A[0], A[0]))]
            m = re.match(r'llvm\.bswap\.i(\d+)', n)
            if m:
                return [self.setv(d, rt, '__builtin_bswap%s(%s)' % (m.group(1), A[0]))]
            m = re.match(r'llvm\.ctpop\.i(\d+)', n)
            if m:
                return [self.setv(d, rt, '(%s)__builtin_popcountll((uint64_t)%s)' % (ty.c(rt), A[0]))]
            m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
            if m:
                w = int(m.group(3))
                ct = ('int%d_t' if m.group(1) == 's' else 'uint%d_t') % w
                if d not in self.vt:
                    self.vt[d] = rt
                    self.locals.append('%s v_%s;' % (ty.c(rt), self.cn(d)))
                return ['{ %s t_; v_%s.f1 = __builtin_%s_overflow((%s)%s, (%s)%s, &t_); v_%s.f0 = (uint%d_t)t_; }' % (
                    ct, self.cn(d), m.group(2), ct, A[0], ct, A[1], self.cn(d), w)]
            if n.startswith('llvm.trap'):
                return ['LL_TRAP();']
            if n.startswith('llvm.is.constant'):
                return [self.setv(d, rt, '0')]
            if n.startswith('llvm.expect'):
                return [self.setv(d, rt, A[0])]
            if n.startswith(('llvm.va_start', 'llvm.va_end', 'llvm.va_copy')):
                return ['/* %s */' % n]
            raise LLErr('intrinsic ' + n)
        if callee.startswith('@'):
            self.used.add(callee)
            n = self.gname(callee)
            if n == '__assert_fail':
                return ['LL_ASSERT_FAIL();']
            if n in BUILTIN_PTR:
                e = '%s(%s)' % (n, ', '.join(A))
            else:
                e = '%s(%s)' % (n, ', '.join(A))
        else:
            e = '((%s (*)(%s))v_%s)(%s)' % (ty.c(rt), ', '.join(ty.c(t) for t, _ in args) or 'void', self.cn(callee), ', '.join(A))
        if d:
            if rt[0] == 'ptr':
                e = '(u8p)' + e
            return [self.setv(d, rt, e)]
        return [e + ';']


BUILTIN = {'@memcpy', '@memset', '@memmove', '@memcmp', '@strlen', '@abort', '@__assert_fail', '@free', '@malloc', '@fabs', '@floor', '@ceil',
           '@round', '@lround', '@sqrt', '@pow', '@sin', '@cos', '@fmod', '@rint', '@lrint', '@isnan', '@isinf', '@exit', '@strcmp', '@strncmp', '@memchr',
           '@fmodf', '@roundf', '@lroundf', '@atan2', '@abs', '@tan', '@asin', '@acos', '@atan', '@exp', '@log', '@llround'}
BUILTIN_PTR = set()

PRELUDE = r'''
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
typedef uint8_t *u8p;
#ifdef LL_MEMMOVE
void LL_MEMMOVE(void *, const void *, size_t);
#else
#define LL_MEMMOVE memmove
#endif
typedef unsigned __int128 u128;
typedef __int128 s128;
#define LL_NSW_add(a, b) __CPROVER_assert(!__CPROVER_overflow_plus(a, b), "signed overflow in +")
#define LL_NSW_sub(a, b) __CPROVER_assert(!__CPROVER_overflow_minus(a, b), "signed overflow in -")
#define LL_NSW_mul(a, b) __CPROVER_assert(!__CPROVER_overflow_mult(a, b), "signed overflow in *")
#define LL_SHIFT(b, n) __CPROVER_assert((b) < (n), "shift distance in range")
#define LL_FPTOI(a, lo, hi) __CPROVER_assert((a) > (lo) && (a) < (hi), "float to integer conversion in range")
#define LL_UNREACHABLE() { __CPROVER_assert(0, "unreachable code reached"); __CPROVER_assume(0); }
#define LL_TRAP() { __CPROVER_assert(0, "trap reached"); __CPROVER_assume(0); }
#define LL_ASSERT_FAIL() { __CPROVER_assert(0, "assertion of the program holds"); __CPROVER_assume(0); }
'''


def translate(ll_text, only=None, drop=(), skip=()):
    return Tr(ll_text).run(only, drop)


if __name__ == '__main__':
    sys.stdout.write(translate(open(sys.argv[1]).read()))
