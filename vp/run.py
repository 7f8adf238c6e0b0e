#!/usr/bin/env python3
"""Contract checker driver: python3 vp/run.py <property> [--unit NAME] [-v]

For every unit of the property: compile the harness together with the real
sources of /repo (goto-cc), enforce/replace code contracts (goto-instrument
--dfcc), discharge every generated obligation (cbmc), and - when one is not
discharged - replay the verifier's counterexample natively against the same
sources under ASan/UBSan.
Exit 0: all obligations discharged.  Exit 1: VIOLATION.  Exit 2: undecided.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'vp'))
import units as U

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NCPU = int(os.environ.get('VP_JOBS', str(os.cpu_count() or 4)))
VERBOSE = '-v' in sys.argv
DEADLINE = time.time() + (860 if TIER == 'quick' else 6 * 3600)


class Err(Exception):
    pass


RUNNING = set()


def sh(cmd, cwd, timeout, out=None):
    """run in its own process group with a memory limit; returns rc, stdout, stderr"""
    timeout = max(5, min(timeout, DEADLINE - time.time()))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, text=True, errors='replace')
    RUNNING.add(p.pid)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return 'timeout', '', ''
    finally:
        RUNNING.discard(p.pid)
    return p.returncode, o, e


def stop_all(*a):
    for p in list(RUNNING):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
    os._exit(3)


signal.signal(signal.SIGTERM, stop_all)


def incs(u):
    r = ['-I' + os.path.join(VERIF, 'vp'), '-I' + os.path.join(VERIF, 'h'), '-I' + os.path.join(VERIF, 'deps/include')]
    for i in U.REPO_INC + u.get('inc', []):
        r.append('-I' + os.path.join(REPO, i))
    return r


def sources(u):
    s = [os.path.join(VERIF, 'h', u['file'])]
    for x in u.get('repo_src', []):
        s.append(os.path.join(REPO, x))
    for x in u.get('shim', []):
        s.append(os.path.join(VERIF, 'h', x))
    for x in u.get('dep_src', []):
        s.append(os.path.join(VERIF, 'deps/src', x))
    return s


CXXFLAGS = ['-std=c++14', '-w', '-fno-exceptions', '-fno-rtti']


def cxx_to_c(u, d, srcs):
    """C++ sources go through LLVM IR (no optimisation but mem2reg) to C"""
    import ll2c
    out = []
    for k, x in enumerate(srcs):
        if not x.endswith('.cc'):
            out.append(x)
            continue
        b = os.path.join(d, 'cxx%d' % k)
        rc, o, e = sh(['clang++'] + CXXFLAGS + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-S', '-DVP_CPROVER']
                      + defs(u) + incs(u) + [x, '-o', b + '.ll'], d, 120)
        if rc != 0:
            raise Err('clang++ failed: ' + e[-1200:])
        rc, o, e = sh(['opt', '-S', '-passes=mem2reg', b + '.ll', '-o', b + '.opt.ll'], d, 120)
        if rc != 0:
            raise Err('opt failed: ' + e[-800:])
        try:
            c = ll2c.translate(open(b + '.opt.ll').read(), u.get('cxx_only') if x.startswith(VERIF) else None, u.get('cxx_drop', ()), u.get('cxx_skip', ()))
        except Exception as ex:
            raise Err('IR translation failed: %r' % ex)
        open(b + '.c', 'w').write(c)
        out.append(b + '.c')
    return out


def fp_abstract(u, d, srcs):
    """floating-point operators become uninterpreted functions (fpuf.py)"""
    import fpuf
    out = []
    fl = ['-DVP_CPROVER', '-DVP_UF'] + defs(u) + incs(u)
    for k, x in enumerate(srcs):
        if not x.endswith('.c') or os.path.dirname(x) == d:
            out.append(x)
            continue
        b = os.path.join(d, 'uf%d' % k)
        rc, o, e = sh(['clang', '-std=gnu11', '-E', '-P', '-D__NO_MATH_INLINES'] + fl + [x, '-o', b + '.pp.c'], d, 60)
        if rc != 0:
            raise Err('preprocessing failed: ' + e[-800:])
        rc, o, e = sh(['clang', '-std=gnu11', '-w', '-Wno-implicit-function-declaration', '-fsyntax-only', '-Xclang', '-ast-dump=json', b + '.pp.c'], d, 120)
        if rc != 0:
            raise Err('clang failed: ' + e[-800:])
        try:
            t = fpuf.rewrite(open(b + '.pp.c').read(), json.loads(o))
            t = re.sub(r'(?m)^typedef (float|double|long double) _Float\d+x?;$', '', t)
        except Exception as ex:
            raise Err('floating-point abstraction failed: %r' % ex)
        open(b + '.c', 'w').write(t)
        out.append(b + '.c')
    return out


def defs(u):
    return ['-DVP_REPO_%s' % u['entry']] + ['-D' + d for d in u.get('defs', [])]


def build_goto(u, d):
    """returns path of the instrumented goto binary"""
    gb = os.path.join(d, 'a.gb')
    cxx = u['file'].endswith('.cc')
    pre = u.get('pre')
    srcs = sources(u)
    if pre:
        srcs = pre(u, d, REPO, VERIF, srcs, sh, Err)
    srcs = cxx_to_c(u, d, srcs)
    if u.get('uf'):
        srcs = fp_abstract(u, d, srcs)
    cmd = ['goto-cc', '-DVP_CPROVER'] + defs(u) + incs(u) + ['--function', u['entry'], '-o', gb] + srcs
    rc, o, e = sh(cmd, d, 120)
    if rc != 0:
        raise Err('goto-cc failed: ' + (o + e)[-1500:])
    cmds = [' '.join(cmd)]
    for name, proto in u.get('ufun', {}).items():
        # over-approximate a pure function by an uninterpreted one (its own contract is another unit)
        g1, g2, st = os.path.join(d, 'r_%s.gb' % name), os.path.join(d, 'u_%s.gb' % name), os.path.join(d, 'u_%s.c' % name)
        ret, args = proto
        open(st, 'w').write('#include <stdint.h>\n%s __CPROVER_uninterpreted_%s(%s);\n%s %s(%s) { return __CPROVER_uninterpreted_%s(%s); }\n' % (
            ret, name, ', '.join(args), ret, name, ', '.join('%s a%d' % (t, i) for i, t in enumerate(args)), name, ', '.join('a%d' % i for i in range(len(args)))))
        for c in (['goto-instrument', '--remove-function-body', name, gb, g1], ['goto-cc', '--function', u['entry'], '-o', g2, g1, st]):
            rc, o, e = sh(c, d, 120)
            if rc != 0:
                raise Err('abstraction failed: ' + (o + e)[-1500:])
            cmds.append(' '.join(c))
        gb = g2
    for f, g in u.get('calls', {}).items():
        # calls of f are checked against its contract, which g states
        g1 = os.path.join(d, 'c_%s.gb' % f)
        c = ['goto-instrument', '--replace-calls', '%s:%s' % (f, g), gb, g1]
        rc, o, e = sh(c, d, 120)
        if rc != 0:
            raise Err('abstraction failed: ' + (o + e)[-1500:])
        cmds.append(' '.join(c))
        gb = g1
    if u.get('enforce') or u.get('replace') or u.get('loops'):
        gb2 = os.path.join(d, 'b.gb')
        c = ['goto-instrument', '--dfcc', u['entry']]
        for f in u.get('enforce', []):
            c += ['--enforce-contract', f]
        for f in u.get('replace', []):
            c += ['--replace-call-with-contract', f]
        if u.get('loops'):
            c += ['--apply-loop-contracts']
        c += [gb, gb2]
        rc, o, e = sh(c, d, 300)
        if rc != 0:
            raise Err('goto-instrument failed: ' + (o + e)[-1500:])
        cmds.append(' '.join(c))
        gb = gb2
    return gb, cmds


def cbmc_cmd(u, gb, extra=()):
    c = ['cbmc', '--json-ui', '--drop-unused-functions']
    c += u.get('flags', ['--sat-solver', 'cadical'])
    if not any(f in ('--z3', '--cvc5', '--smt2') for f in c) and '--sat-solver' not in c and '--external-sat-solver' not in c:
        c += ['--sat-solver', 'cadical']
    if 'unwind' in u:
        c += ['--unwind', str(u['unwind'])]
    if u.get('unwindset'):
        c += ['--unwindset', ','.join(u['unwindset'])]
    c += ['--object-bits', str(u.get('object_bits', 12))]
    if u.get('fs'):
        c += ['--max-field-sensitivity-array-size', str(u['fs'])]
    c += list(extra) + [gb]
    return c


def parse(o):
    try:
        d = json.loads(o)
    except Exception:
        return None, 'unparsable verifier output: ' + o[-800:]
    res, msgs, stat = None, [], {}
    for e in d:
        if 'result' in e:
            res = e['result']
        if e.get('messageType') == 'ERROR':
            msgs.append(e['messageText'])
        t = e.get('messageText', '')
        m = re.search(r'Runtime (?:decision procedure|Solver|Symex): ([0-9.e+-]+)s', t)
        if m and 'ecision' in t:
            stat['decision_s'] = stat.get('decision_s', 0) + float(m.group(1))
        m = re.search(r'(\d+) variables, (\d+) clauses', t)
        if m:
            stat['vars'], stat['clauses'] = int(m.group(1)), int(m.group(2))
    return res, ('; '.join(msgs)) or stat


def leaf_assigns(lhs, v, out):
    if 'members' in v:
        for m in v['members']:
            if m['name'].startswith('$'):
                continue
            leaf_assigns(lhs + '.' + m['name'], m['value'], out)
    elif v.get('name') == 'union' and 'member' in v:
        leaf_assigns(lhs + '.' + v['member']['name'], v['member']['value'], out)
    elif 'elements' in v:
        for el in v['elements']:
            leaf_assigns('%s[%s]' % (lhs, el['index']), el['value'], out)
    elif 'binary' in v:
        out[lhs] = (v.get('name'), v['width'], int(v['binary'], 2), v.get('type', ''))


def trace_inputs(trace):
    out = {}
    for s in trace:
        if s.get('stepType') != 'assignment':
            continue
        fn = s.get('sourceLocation', {}).get('function', '')
        if not fn.startswith('vp_havoc_'):
            continue
        base = fn[len('vp_havoc_'):]
        lhs = s.get('lhs', '')
        if not re.match(re.escape(base) + r'($|[.\[])', lhs) or '$pad' in lhs:
            continue
        lhs = re.sub(r'\[(\d+)[a-zA-Z]*\]', r'[\1]', lhs)
        leaf_assigns(lhs, s['value'], out)
    return out


def native_build(u, d, load_c, exe):
    cxx = u['file'].endswith('.cc')
    srcs = sources(u)
    main = os.path.join(d, 'native_main.c')
    h = srcs[0]
    with open(main, 'w') as f:
        f.write('#include "%s"\n' % h)
        if load_c is not None:
            f.write('void vp_load(void) {\n%s}\n' % load_c)
    ent = ['-DVP_ENTRY=' + u['entry']] + (['-DVP_LOAD'] if load_c is not None else [])
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment']
    san = u.get('san', san)
    cc = srcs[1:]
    srcs = srcs[:1] + [x for x in cc if not x.endswith('.cc')]
    for k, x in enumerate(x for x in cc if x.endswith('.cc')):
        rc, o, e = sh(['clang++'] + CXXFLAGS + ['-g', '-O1', '-c'] + san + defs(u) + incs(u) + [x, '-o', os.path.join(d, 'n%d.o' % k)], d, 120)
        if rc != 0:
            return 'native build failed: ' + e[-600:]
        srcs.append(os.path.join(d, 'n%d.o' % k))
    link = ['-lstdc++'] if any(x.endswith('.o') for x in srcs) else []
    objs = [main] + srcs[1:] + [os.path.join(VERIF, 'vp/native.c')] + [os.path.join(VERIF, x) for x in u.get('native_src', [])]
    cmd = ['clang', '-w', '-g', '-O1'] + san + ent + defs(u) + incs(u) + objs + link + ['-lm', '-o', exe]
    if u.get('native_cmd'):
        cmd = u['native_cmd'](u, d, REPO, VERIF, main, srcs, san + ent + defs(u) + incs(u), exe)
    rc, o, e = sh(cmd, d, 180)
    if rc != 0:
        return 'native build failed: ' + (o + e)[-600:]
    return None


def native_run(exe, args, d, timeout):
    env = dict(os.environ)
    p = subprocess.Popen([exe] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace',
                         env=dict(env, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0'))
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 'timeout', 'no termination within %ss' % timeout


def load_code(inp):
    body = []
    for k, (nm, w, val, ty) in inp.items():
        if nm == 'float' and w == 64:
            body.append('  { uint64_t b = 0x%xull; memcpy(&%s, &b, 8); }\n' % (val, k))
        elif nm == 'float' and w == 32:
            body.append('  { uint32_t b = 0x%xu; memcpy(&%s, &b, 4); }\n' % (val, k))
        else:
            body.append('  *(unsigned char(*)[sizeof(%s)])&%s; { uint64_t b = 0x%xull; memcpy((void *)&%s, &b, sizeof(%s) < 8 ? sizeof(%s) : 8); }\n'
                        % (k, k, val, k, k, k))
    return ''.join(body)


def confirm(u, d, gb, prop, desc):
    """counterexample -> native replay; returns (confirmed, info)"""
    info = {'obligation': prop, 'description': desc}
    extra = ['--trace', '--property', prop]
    rc, o, e = sh(cbmc_cmd(u, gb, extra), d, u.get('timeout', 300))
    inp = {}
    if rc != 'timeout':
        res, m = parse(o)
        for r in res or []:
            if r['property'] == prop and r['status'] == 'FAILURE':
                info['verifier_status'] = 'FAILURE'
                inp = trace_inputs(r.get('trace', []))
    info['inputs'] = {k: '0x%x' % v[2] for k, v in inp.items()}
    if inp:
        exe = os.path.join(d, 'replay')
        err = native_build(u, d, load_code(inp), exe)
        if err:
            info['native'] = err
        else:
            rc, out = native_run(exe, [], d, 20)
            info['native_rc'] = rc
            info['native'] = out[-3000:]
            if rc == 'timeout' or (rc not in (0, 77, 3)):
                info['confirmed'] = True
                return True, info
    return False, info


def search(u, d, secs):
    exe = os.path.join(d, 'search')
    err = native_build(u, d, None, exe)
    if err:
        return None, err
    outp = os.path.join(d, 'found.bin')
    rc, out = native_run(exe, [str(secs), str(SEED), outp], d, secs + 30)
    if rc not in (0, 77, 3, 'timeout') and os.path.exists(outp):
        data = open(outp, 'rb').read()
        rc2, out2 = native_run(exe, ['--bytes', outp], d, 20)
        if rc2 not in (0, 77, 3):
            return data, out2
    return None, out


def run_unit(prop, u):
    d = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    t0 = time.time()
    r = {'unit': u['name'], 'entry': u['entry'], 'enforced': u.get('enforce', []), 'replaced': u.get('replace', [])}
    try:
        gb, cmds = build_goto(u, d)
        cmd = cbmc_cmd(u, gb)
        r['cmd'] = ' && '.join(cmds + [' '.join(cmd)]).replace(d, '$TMP')
        for attempt in range(3):
            t1 = time.time()
            rc, o, e = sh(cmd, d, u.get('timeout', 300))
            r['verifier_s'] = round(time.time() - t1, 2)
            if rc == 'timeout':
                raise Err('verifier did not finish in time')
            res, m = parse(o)
            if res is None:
                raise Err('no result: %s %s' % (m, e[-300:]))
            if attempt < 2 and 'unwind' in u and any(x['status'] == 'FAILURE' and 'unwinding assertion' in x['description'] for x in res):
                # a loop was rewritten: give it more iterations before judging
                u = dict(u, unwind=u['unwind'] * 4, unwindset=[])
                cmd = cbmc_cmd(u, gb)
                r['cmd'] = ' && '.join(cmds + [' '.join(cmd)]).replace(d, '$TMP')
                continue
            break
        r['stat'] = m if isinstance(m, dict) else {'msg': m}
        covers = [x for x in res if 'VPCOVER' in x['description']]
        obl = [x for x in res if 'VPCOVER' not in x['description']]
        ign = [x for x in obl if any(re.search(p, x['property'] + ' ' + x['description']) for p in u.get('ignore', []))]
        obl = [x for x in obl if x not in ign]
        r['obligations'] = len(obl)
        r['discharged'] = sum(1 for x in obl if x['status'] == 'SUCCESS')
        r['covers'] = len(covers)
        r['covers_reached'] = sum(1 for x in covers if x['status'] == 'FAILURE')
        bad = [x for x in obl if x['status'] != 'SUCCESS']
        if not obl:
            raise Err('no obligations generated')
        if not covers:
            raise Err('no reachability goal')
        if bad:
            fails = [x for x in bad if x['status'] == 'FAILURE']
            unw = [x for x in fails if 'unwinding assertion' in x['description'] or 'recursion unwinding' in x['description']]
            nobody = [x for x in fails if 'no-body' in x['property']]
            if nobody:
                raise Err('function without body: ' + ', '.join(x['description'] for x in nobody[:5]))
            real = [x for x in fails if x not in unw]
            # the property's own clauses first
            real.sort(key=lambda x: 0 if x['description'].startswith('VP:') or 'postcondition' in x['property'] else 1)
            r['failed'] = [x['property'] + ': ' + x['description'] for x in bad][:40]
            infos = []
            for x in (real[:3] + unw[:1]):
                if infos and time.time() - t0 > 300:
                    break
                ok, info = confirm(u, d, gb, x['property'], x['description'])
                infos.append(info)
                if ok:
                    break
            r['replay'] = infos
            if infos and infos[-1].get('confirmed'):
                r['verdict'] = 'violation'
            elif real:
                data, out = search(u, d, 15)
                if data is not None:
                    infos.append({'found_by': 'native search', 'input_hex': data.hex(), 'native': out[-3000:]})
                    r['verdict'] = 'violation'
                elif unw:
                    raise Err('unwinding bound exceeded: ' + unw[0]['description'])
                else:
                    r['verdict'] = 'unconfirmed'
            else:
                raise Err('undecided: ' + ', '.join(x['property'] + '=' + x['status'] + ' ' + x['description'] for x in bad[:4]))
        else:
            if r['covers_reached'] != r['covers']:
                raise Err('vacuous: unreachable ' + ', '.join(x['description'] for x in covers if x['status'] != 'FAILURE'))
            r['verdict'] = 'ok'
    except Err as ex:
        r['verdict'] = 'error'
        r['error'] = str(ex)
        if 'in time' in str(ex) and DEADLINE - time.time() > 45:
            # the proof is out of reach on this tree: look for a failing input at least
            data, out = search(u, d, 15)
            if data is not None:
                r['failed'] = ['(found by native search after the verifier ran out of time)']
                r['replay'] = [{'found_by': 'native search', 'input_hex': data.hex(), 'native': out[-3000:]}]
                r['verdict'] = 'violation'
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    only = None
    if '--unit' in sys.argv:
        only = sys.argv[sys.argv.index('--unit') + 1]
    P = U.PROPS[prop]
    us = [u for u in P['units'] if not (u.get('tier') == 'thorough' and TIER == 'quick')]
    if only:
        us = [u for u in us if re.fullmatch(only, u['name'])]
    us.sort(key=lambda u: -u.get('weight', 1))
    t0 = time.time()
    if '--selftest' in sys.argv:  # development: every native replay must build and stay quiet
        def one(u):
            d = tempfile.mkdtemp(prefix='vp_self_')
            try:
                return u['name'], search(u, d, 2)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            for nm, (data, out) in ex.map(one, us):
                if data is not None or 'build failed' in (out or ''):
                    print('SELFTEST', prop, nm, 'BAD', (out or '')[-700:])
        return 0
    results = []
    with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
        futs = {ex.submit(run_unit, prop, u): u for u in us}
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            print('%-34s %-10s %5s/%-5s covers %s/%s %6.1fs %s' % (
                r['unit'], r['verdict'], r.get('discharged', '-'), r.get('obligations', '-'),
                r.get('covers_reached', '-'), r.get('covers', '-'), r['wall_s'], r.get('error', '')[:200]))
            for l in r.get('failed', [])[:6]:
                print('      not discharged: ' + l[:160])
            sys.stdout.flush()
    results.sort(key=lambda r: r['unit'])
    viol = [r for r in results if r['verdict'] in ('violation', 'unconfirmed')]
    errs = [r for r in results if r['verdict'] == 'error']
    known = []
    level = P.get('level', 'proof')
    fns = sorted({f for u in us for f in u.get('functions', [])})
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
        'coverage': {
            'obligations': sum(r.get('obligations', 0) for r in results),
            'discharged': sum(r.get('discharged', 0) for r in results),
            'checker_cmd': 'python3 vp/run.py %s' % prop,
            'trusted_base': U.TRUSTED + P.get('trusted', []),
            'units': [{k: r.get(k) for k in ('unit', 'verdict', 'obligations', 'discharged', 'covers', 'covers_reached', 'wall_s', 'verifier_s', 'cmd', 'enforced', 'replaced', 'error')} for r in results],
            'functions_under_contract': fns,
            'backend': 'CBMC 6.11 (goto-instrument --dfcc for enforced contracts), SAT back end cadical unless the unit command says otherwise',
            'reachability_goals': sum(r.get('covers', 0) for r in results),
            'reachability_goals_met': sum(r.get('covers_reached', 0) for r in results),
            'solver_time_s': round(sum(r.get('verifier_s', 0) for r in results), 2),
            'bounded_units': [u['name'] + ': ' + u['bounded'] for u in us if u.get('bounded')],
        },
        'assumptions': U.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for l in U.KNOWN.get(prop, []):
        print('KNOWN-FINDING: property=%s %s' % (prop, l))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        viol.sort(key=lambda r: 0 if r['verdict'] == 'violation' else 1)
        r = viol[0]
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, r['unit']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'violations': viol}, f, indent=1)
        for rr in viol:
            print('  failed in %s: %s' % (rr['unit'], '; '.join(rr.get('failed', [])[:4])))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if r['verdict'] == 'violation' else ' no-failing-input-found'))
        return 1
    if errs:
        print('UNDECIDED property=%s: %s' % (prop, '; '.join(r['unit'] + ': ' + r['error'][:200] for r in errs)))
        return 2
    print('HELD property=%s obligations=%d wall=%.1fs' % (prop, ev['coverage']['obligations'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
