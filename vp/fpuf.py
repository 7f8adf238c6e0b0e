"""Mechanical rewriting of C text: every floating-point + - * / with a
non-constant operand becomes a call of an uninterpreted function.

The proof then holds for *every* meaning of the operators that gives equal
results for equal operands, IEEE-754 included (sound abstraction).  Nothing
else is changed: the operand text, its conversions and its order stay.
Additions and multiplications are made commutative by ordering the operands.
"""
import json

HEAD = '''
double __CPROVER_uninterpreted_vpadd(double, double); double __CPROVER_uninterpreted_vpsub(double, double);
double __CPROVER_uninterpreted_vpmul(double, double); double __CPROVER_uninterpreted_vpdiv(double, double);
float __CPROVER_uninterpreted_vpaddf(float, float); float __CPROVER_uninterpreted_vpsubf(float, float);
float __CPROVER_uninterpreted_vpmulf(float, float); float __CPROVER_uninterpreted_vpdivf(float, float);
double __CPROVER_uninterpreted_vppow(double, double); double __CPROVER_uninterpreted_vpround(double);
long __CPROVER_uninterpreted_vplround(double); double __CPROVER_uninterpreted_vpfloor(double); double __CPROVER_uninterpreted_vpceil(double);
double __CPROVER_uninterpreted_vprint(double); double __CPROVER_uninterpreted_vpfmod(double, double); double __CPROVER_uninterpreted_vpsqrt(double);
long __CPROVER_uninterpreted_vpf2i(double); unsigned long __CPROVER_uninterpreted_vpf2u(double);
long __CPROVER_uninterpreted_vpf2if(float); unsigned long __CPROVER_uninterpreted_vpf2uf(float);
static inline double vp_add(double a, double b) { return a <= b ? __CPROVER_uninterpreted_vpadd(a, b) : __CPROVER_uninterpreted_vpadd(b, a); }
static inline double vp_mul(double a, double b) { return a <= b ? __CPROVER_uninterpreted_vpmul(a, b) : __CPROVER_uninterpreted_vpmul(b, a); }
static inline double vp_sub(double a, double b) { return __CPROVER_uninterpreted_vpsub(a, b); }
static inline double vp_div(double a, double b) { return __CPROVER_uninterpreted_vpdiv(a, b); }
static inline float vp_addf(float a, float b) { return a <= b ? __CPROVER_uninterpreted_vpaddf(a, b) : __CPROVER_uninterpreted_vpaddf(b, a); }
static inline float vp_mulf(float a, float b) { return a <= b ? __CPROVER_uninterpreted_vpmulf(a, b) : __CPROVER_uninterpreted_vpmulf(b, a); }
static inline float vp_subf(float a, float b) { return __CPROVER_uninterpreted_vpsubf(a, b); }
static inline float vp_divf(float a, float b) { return __CPROVER_uninterpreted_vpdivf(a, b); }
'''
OPS = {'+': 'vp_add', '-': 'vp_sub', '*': 'vp_mul', '/': 'vp_div'}
CALLS = {k: '__CPROVER_uninterpreted_vp' + k for k in ('pow', 'round', 'lround', 'floor', 'ceil', 'rint', 'fmod', 'sqrt')}


def qual(n):
    t = n.get('type', {})
    q = t.get('desugaredQualType', t.get('qualType', ''))
    return q.replace('const ', '').replace('volatile ', '')


def const(n):
    k = n.get('kind')
    if k in ('DeclRefExpr',):
        return n.get('referencedDecl', {}).get('kind') == 'EnumConstantDecl'
    if k in ('CallExpr', 'MemberExpr', 'ArraySubscriptExpr'):
        return False
    return all(const(c) for c in n.get('inner', []))


def rewrite(text, ast_json, skip=()):
    data = text.encode()
    ins = []  # (offset, order, bytes)
    seq = [0]

    def rng(n):
        b, e = n['range']['begin'], n['range']['end']
        return b['offset'], e['offset'] + e['tokLen']

    def put(off, s, closing):
        seq[0] += 1
        ins.append((off, 0 if closing else 1, seq[0], s))
    dele = []

    def visit(n):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if k == 'VarDecl' and n.get('storageClass') == 'static' and 'init' in n:
            return  # constant initialiser
        if k == 'FunctionDecl' and n.get('name') in skip:
            return
        if k == 'BinaryOperator' and n.get('opcode') in OPS and qual(n) in ('double', 'float') and not const(n):
            f = OPS[n['opcode']] + ('f' if qual(n) == 'float' else '')
            l, r = n['inner']
            lb, le = rng(l)
            rb, re_ = rng(r)
            put(lb, f + '(', False)
            visit(l)
            dele.append((le, rb, b','))
            visit(r)
            put(re_, ')', True)
            return
        if k == 'CompoundAssignOperator' and n.get('opcode', '')[:1] in OPS and n['opcode'][1:] == '=' and n.get('computeResultType', {}).get('qualType') in ('double', 'float'):
            q = n['computeResultType']['qualType']
            f = OPS[n['opcode'][0]] + ('f' if q == 'float' else '')
            l, r = n['inner']
            lb, le = rng(l)
            rb, re_ = rng(r)
            lt = data[lb:le].decode()
            assert '(' not in lt and '++' not in lt and '--' not in lt, 'compound assignment with side effects: ' + lt
            dele.append((le, rb, ('= %s(%s, ' % (f, lt)).encode()))
            visit(r)
            put(re_, ')', True)
            return
        if k == 'CallExpr' and n['inner'] and not const(n):
            c = n['inner'][0]
            while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                c = c['inner'][0]
            nm = c.get('referencedDecl', {}).get('name')
            if nm in CALLS and not all(const(a) for a in n['inner'][1:]):
                b, e = rng(c)
                dele.append((b, e, CALLS[nm].encode()))
        if n.get('castKind') == 'FloatingToIntegral' and not const(n):
            t = qual(n)
            o = n['inner'][0]
            b, e = rng(o)
            put(b, '__CPROVER_uninterpreted_vpf2%s%s(' % ('u' if t in ('unsigned long', 'unsigned long long') else 'i', 'f' if qual(o) == 'float' else ''), False)
            visit(o)
            put(e, ')', True)
            return
        for c in n.get('inner', []):
            visit(c)

    visit(ast_json)
    # assemble
    ev = [(o, a, s, t.encode(), None) for o, a, s, t in ins]
    out, pos = [], 0
    # opening calls: outermost first (in visiting order); closings: innermost first
    closes = {}
    opens = {}
    for o, a, s, t, _ in ev:
        (closes if a == 0 else opens).setdefault(o, []).append((s, t))
    cuts = {b: (e, t) for b, e, t in dele}
    points = sorted(set(closes) | set(opens) | set(cuts))
    for p in points:
        assert p >= pos
        out.append(data[pos:p])
        pos = p
        for s, t in sorted(closes.get(p, [])):
            out.append(t)
        for s, t in sorted(opens.get(p, [])):
            out.append(t)
        if p in cuts:
            e, t = cuts[p]
            out.append(t)  # replaces the operator (or the callee's name)
            pos = e
    out.append(data[pos:])
    return HEAD + b''.join(out).decode()
