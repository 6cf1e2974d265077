#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--tier quick|thorough] [--only H_x] [-v]

For every harness query of the property (annotated '//@' lines in harness/<id>*.c):
  1. goto-cc compiles /repo's current sources, the libc/environment models and the harness;
  2. CBMC executes them symbolically and a SAT/SMT solver decides every assertion over all
     values within the query's bounds (with unwinding assertions);
  3. REACH assertions must be refuted (vacuity guard); their assignments are replayed natively;
  4. any other refuted assertion is replayed natively (real build, ASan+UBSan); a reproduced
     counterexample is a VIOLATION, one that does not reproduce is recorded as unconfirmed.
"""
import sys, os, re, json, subprocess, time, glob, shutil, argparse, tempfile, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(HERE, 'lib')
NPROC = os.cpu_count() or 4
CBMC_BASE = ['--drop-unused-functions', '--no-malloc-may-fail', '--slice-formula', '--no-standard-checks',
             '--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check',
             '--undefined-shift-check', '--unwinding-assertions', '--object-bits', '10', '--json-ui', '--verbosity', '8']
WARN = ['-w']
T0 = time.time()

STOP = threading.Event()   # a violation has been confirmed: the remaining solver runs add nothing
BUDGET = [0.0]             # wall-clock seconds after which no further solver run is started

def sh(cmd, timeout=600, env=None, cwd=None, stoppable=False):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd)
    end = time.time() + timeout
    while True:
        try:
            o, e = p.communicate(timeout=min(1.0, max(0.05, end - time.time())))
            return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            if time.time() >= end or (stoppable and STOP.is_set()):
                p.kill(); o, e = p.communicate()
                return 'timeout', o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

def parse_opts(s):
    o = {}
    for k, q, v in re.findall(r'(\w+)=(?:"([^"]*)"|(\S+))', s):
        o[k] = q or v
    return o

def queries(prop, tier):
    """'//@ H_name k=v ... | k=v ...' : left of the bar quick, right overrides for thorough."""
    qs = []
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', prop + '*.c'))):
        for line in open(f):
            m = re.match(r'//@\s+(\w+)\s*(.*)$', line)
            if not m: continue
            parts = m.group(2).split('|')
            quick = parse_opts(parts[0]); o = dict(quick)
            thor = parse_opts(parts[1]) if len(parts) > 1 else None
            if quick.get('tier') == 'thorough' and tier == 'quick': continue
            if tier == 'thorough' and thor: o.update(thor)
            for mode in o.get('mode', 'R'):
                q = dict(file=f, fn=m.group(1), mode=mode, unwind=o.get('unwind', '10'), D=o.get('D', ''),
                         uset=o.get('uset', ''), opts=o.get('opts', ''), debug=o.get('debug', 'model'),
                         timeout=int(o.get('timeout', 120 if tier == 'quick' else 3000)), fallback=None)
                if tier == 'thorough' and thor:
                    q['fallback'] = dict(unwind=quick.get('unwind', '10'), D=quick.get('D', ''), uset=quick.get('uset', ''))
                q['name'] = q['fn'] + ('' if mode in 'RX' else '/' + mode)
                q['split'] = o.get('split', ''); q['where'] = o.get('where', '')
                q['cfgs'] = configs(q['split'], q['where']) if q['split'] else None
                qs.append(q)
    return qs

def configs(split, where):
    """'L=0:6 C=L:L+2' -> all value tuples; each is decided by its own solver run"""
    names = []; out = [{}]
    for k, lo, hi in re.findall(r'(\w+)=([^:\s]+):(\S+)', split):
        names.append(k)
        out = [dict(e, **{k: v}) for e in out for v in range(eval(lo, {}, e), eval(hi, {}, e) + 1)]
    return [tuple(e[k] for k in names) for e in out if not where or eval(where, {}, e)]

def cfg_env(q):
    return dict(zip(re.findall(r'(\w+)=', q['split']), q['cfg'])) if q.get('cfg') is not None else {}

def entry(fn, c): return fn if c is None else fn + '__' + '_'.join(map(str, c))

class Build:
    def __init__(self, tmp, qs):
        self.tmp = tmp; self.qs = qs; self.loops = {}
        self.srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.c'), recursive=True))
        self.lock = threading.Lock(); self.links = {}; self.native = None
        self.errors = []
    def goto_lib(self, ex):
        gb = os.path.join(self.tmp, 'gb'); os.makedirs(gb)
        self.libs = {}
        path = {d for q in self.qs for d in q['D'].split() if d.startswith('VH_PATH_MAX=')}
        if len(path) > 1 or (path and any('VH_PATH_MAX=' not in q['D'] for q in self.qs)): raise SystemExit('VH_PATH_MAX must be the same for all queries of a property')
        def one(f):
            out = os.path.join(gb, re.sub(r'\W', '_', os.path.relpath(f, REPO)) + '.gb')
            rc, o, e = sh(['goto-cc', '-I' + LIB + '/inc', '-I' + REPO + '/inc', '-D__FILE__="f"', '-D__NO_CTYPE', '-D_GNU_SOURCE', '-D_XOPEN_SOURCE=700', '-DVH_SYMBOLIC', *WARN, *['-D' + d for d in path],
                           '-Wno-builtin-macro-redefined', '-c', f, '-o', out], 120)
            return f, (out if rc == 0 else None), e
        for f, out, e in ex.map(one, self.srcs):
            if out is None: raise SystemExit('goto-cc failed on %s:\n%s' % (f, e))
            self.libs[f] = out
    def native_lib(self):
        """real sources, real libc, sanitizers: used by replays only"""
        with self.lock:
            if self.native is not None: return self.native
            d = os.path.join(self.tmp, 'nat'); os.makedirs(d, exist_ok=True)
            def one(f):
                out = os.path.join(d, re.sub(r'\W', '_', os.path.relpath(f, REPO)) + '.o')
                rc, o, e = sh(['clang', '-std=gnu11', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                               '-fno-sanitize-recover=undefined', '-ftrivial-auto-var-init=pattern', '-I' + REPO + '/inc', *WARN, '-c', f, '-o', out], 120)
                if rc != 0: raise RuntimeError('native build failed on %s:\n%s' % (f, e))
                return out
            with ThreadPoolExecutor(NPROC) as ex: self.native = list(ex.map(one, self.srcs))
            return self.native
    def link(self, q):
        key = (q['file'], q['mode'], q['D'], q['debug'], q['fn'])
        with self.lock:
            ev = self.links.get(key)
            if ev is None: self.links[key] = ev = dict(done=threading.Event()); mine = True
            else: mine = False
        if not mine:
            ev['done'].wait(); 
            if ev.get('err'): raise RuntimeError(ev['err'])
            return ev['out']
        try:
            out = os.path.join(self.tmp, 'h_' + hashlib.md5(repr(key).encode()).hexdigest()[:12] + '.gb')
            defs = ['-D' + d for d in q['D'].split()] + ({'L': ['-DVH_LEFT'], 'X': ['-DVH_X']}.get(q['mode'], []))
            models = [m for m in sorted(glob.glob(LIB + '/model_*.c')) if not m.endswith('model_debug.c')] + sorted(glob.glob(LIB + '/env_*.c'))
            libs = [g for f, g in self.libs.items() if not (q['debug'] == 'model' and f.endswith('/util/debug.c'))]
            if q['debug'] == 'model': models.append(LIB + '/model_debug.c')
            wrap = out[:-3] + '_w.c'
            with open(wrap, 'w') as f:
                f.write('#include <stddef.h>\nextern size_t vh_s[8];\n')
                for x in {x['fn']: x for x in self.qs if x['cfgs'] and (x['file'], x['mode'], x['D'], x['debug'], x['fn']) == key}.values():
                    f.write('void %s(void);\n' % x['fn'])
                    for c in x['cfgs']:
                        f.write('void %s(void) { %s %s(); }\n' % (entry(x['fn'], c), ' '.join('vh_s[%d] = %d;' % (i, v) for i, v in enumerate(c)), x['fn']))
                top = 'vh_top'; c = [entry(q['fn'], c) for x in self.qs if (x['file'], x['mode'], x['D'], x['debug'], x['fn']) == key for c in (x['cfgs'] or [None])]
                f.write('void %s(void);\nvoid vh_top(void) { %s }\n' % (q['fn'], ' '.join(x + '();' for x in sorted(set(c)))))
            models.append(wrap)
            cmd = ['goto-cc', '-I' + LIB + '/inc', '-I' + LIB, '-I' + REPO + '/inc', '-D__FILE__="f"', '-D__NO_CTYPE', '-D_GNU_SOURCE', '-DVH_SYMBOLIC', '-Wno-builtin-macro-redefined', *WARN,
                   *defs, '--function', 'vh_top', '-o', out + '0', q['file'], *models, *libs]
            rc, o, e = sh(cmd, 120)
            if rc == 0: rc, o, e = sh(['goto-instrument', '--drop-unused-functions', out + '0', out], 120)
            if rc != 0: raise RuntimeError('goto-cc link failed: ' + e[-3000:])
            ev['out'] = out
        except Exception as x:
            ev['err'] = str(x); raise
        finally:
            ev['done'].set()
        return ev['out']
    def harness_loops(self, gb):
        with self.lock:
            if gb not in self.loops:
                rc, o, e = sh(['goto-instrument', '--show-loops', '--json-ui', gb], 60)
                ls = []
                for x in json.loads(o):
                    for l in x.get('loops', []):
                        if '/harness/' in l['sourceLocation'].get('file', '') or l['sourceLocation'].get('file', '').endswith(('/hs.h', '/hv.h')): ls.append(l['name'])
                self.loops[gb] = ls
            return self.loops[gb]
    def exe(self, q):
        key = ('exe', q['file'], q['D'])
        with self.lock:
            ev = self.links.get(key)
            if ev is None: self.links[key] = ev = dict(done=threading.Event()); mine = True
            else: mine = False
        if not mine:
            ev['done'].wait()
            if ev.get('err'): raise RuntimeError(ev['err'])
            return ev['out']
        try:
            objs = self.native_lib()
            h = hashlib.md5(repr(key).encode()).hexdigest()[:12]
            d = os.path.join(self.tmp, 'x_' + h); os.makedirs(d, exist_ok=True)
            defs = ['-D' + x for x in q['D'].split()]
            my = []; disp = os.path.join(d, 'dispatch.c')
            fns = sorted({x['fn'] for x in self.qs if x['file'] == q['file'] and (x['D'] == q['D'] or (x['fallback'] or {}).get('D') == q['D'])})
            with open(disp, 'w') as f:
                f.write('#include <string.h>\n' + ''.join('void %s(void);\n' % x for x in fns) + 'void vh_dispatch(const char *n) {\n' + ''.join('if (!strcmp(n, "%s")) %s();\n' % (x, x) for x in fns) + '}\n')
            for s in [disp, q['file'], LIB + '/native_rt.c'] + sorted(glob.glob(LIB + '/env_*.c')):
                o = os.path.join(d, os.path.basename(s) + '.o')
                rc, so, e = sh(['clang', '-std=gnu11', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GNU_SOURCE', *WARN, '-DVH_NATIVE',
                                *defs, '-I' + LIB, '-I' + REPO + '/inc', '-c', s, '-o', o], 120)
                if rc != 0: raise RuntimeError('native harness build failed: ' + e[-3000:])
                my.append(o)
            rc, so, e = sh(['nm', *my])
            wraps = sorted(set(re.findall(r' [TDBt] __wrap_(\w+)', so)))
            out = os.path.join(d, 'replay')
            rc, so, e = sh(['clang', '-fsanitize=address,undefined', *my, *objs, '-lm', *['-Wl,--wrap=' + w for w in wraps], '-o', out], 120)
            if rc != 0: raise RuntimeError('native link failed: ' + e[-3000:])
            ev['out'] = out
        except Exception as x:
            ev['err'] = str(x); raise
        finally:
            ev['done'].set()
        return ev['out']

FILLS = ['0xa5', '0x00', '0x3f', '0xff']
def run_native(exe, fn, vals, tmo=10, fill='0xa5'):
    d = tempfile.mkdtemp(prefix='vhrep')
    try:
        inp = os.path.join(d, 'in'); open(inp, 'w').write('\n'.join(str(v) for v in vals) + '\n')
        env = dict(os.environ, TZ='UTC', LC_ALL='C',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:malloc_fill_byte=%d:detect_stack_use_after_return=1:allocator_may_return_null=0:strict_string_checks=0' % int(fill, 16),
                   UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1')
        rc, o, e = sh([exe, inp, fn], tmo, env, d)
        if rc == 'timeout': return 'HANG', 'no termination within %ds' % tmo
        m = re.search(r'VH_CHECK_FAILED (.*)', o)
        if m: return 'CHECK', m.group(1)
        if 'VH_ASSUME_FAILED' in o: return 'ASSUME', ''
        if rc == 99 or 'AddressSanitizer' in e:
            m = re.search(r'ERROR: AddressSanitizer:? ([^\n]*)', e); fr = re.findall(r'#\d+ \S+ in (\w+) (/\S+)', e)
            fr = [x for x in fr if '/src/vita/' in x[1]][:1]
            return 'ASAN', (m.group(1)[:100] if m else '') + (' in %s (%s)' % fr[0] if fr else '')
        if rc == 98 or 'runtime error:' in e:
            m = re.search(r'([^\n]*runtime error:[^\n]*)', e); return 'UBSAN', m.group(1)[-200:] if m else ''
        if 'VH_DONE' in o and rc == 0: return 'OK', o
        if isinstance(rc, int) and rc < 0: return 'SIGNAL', 'signal %d' % -rc
        return 'OTHER', 'rc=%s %s' % (rc, (o + e)[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

WITNESSED = set()
KNOWN = []
BAD = ('HANG', 'CHECK', 'ASAN', 'UBSAN', 'SIGNAL')

def cbmc(b, q, unwind, D, uset, timeout, extra=()):
    qq = dict(q, D=D); gb = b.link(qq)
    cmd = ['prlimit', '--as=8000000000', 'cbmc', gb, '--function', entry(q['fn'], q.get('cfg')), '--unwind', str(unwind), *CBMC_BASE, *q['opts'].split(), *extra]
    if q.get('cfg') is not None:  # harness loops have constant bounds there
        named = {x.split(':')[0] for x in (uset or '').split(',') if x}
        uset = ','.join([x for x in [uset] if x] + ['%s:64' % l for l in b.harness_loops(gb) if l not in named])
    if uset: cmd += ['--unwindset', uset]
    if '--object-bits' in q['opts']: i = cmd.index('--object-bits'); del cmd[i:i + 2]
    t = time.time(); rc, o, e = sh(cmd, timeout, stoppable=True)
    dt = time.time() - t
    if rc == 'timeout': return dict(status='timeout', time=dt, cmd=cmd)
    try: js = json.loads(o)
    except Exception: return dict(status='error', time=dt, msg=(o[-500:] + e[-500:]), cmd=cmd)
    r = dict(status='ok', time=dt, props=[], fails=[], reach=[], solver=0.0, vccs=0, cmd=cmd)
    errs = []; unk = []
    for x in js:
        if 'messageText' in x:
            t = x['messageText']
            m = re.match(r'Runtime decision procedure: ([\d.e-]+)s', t)
            if m: r['solver'] += float(m.group(1))
            m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if m: r['vccs'] = int(m.group(2))
            m = re.match(r'(\d+) variables, (\d+) clauses', t)
            if m: r['vars'] = int(m.group(1)); r['clauses'] = int(m.group(2))
            if x.get('messageType') == 'ERROR': errs.append(t)
        for p in x.get('result', []):
            vals = None
            if p['status'] == 'FAILURE':
                vals = [int(str(s['values'][0].get('data', '0')).rstrip('ulUL') or 0) if s.get('values') else 0
                        for s in p.get('trace', []) if s.get('stepType') == 'input' and s.get('inputID') == 'vh']
            sl = p.get('sourceLocation', {})
            if not sl and p.get('trace'):
                sl = p['trace'][-1].get('sourceLocation', {})
            ent = dict(id=p['property'], desc=p['description'], status=p['status'], vals=vals, loc='%s:%s' % (sl.get('file', ''), sl.get('line', '')), func=sl.get('function', ''))
            r['props'].append(ent)
            if p['status'] == 'FAILURE':
                (r['reach'] if p['description'].startswith('REACH: ') else r['fails']).append(ent)
            elif p['status'] not in ('SUCCESS', 'UNKNOWN'): errs.append(p['property'] + ' ' + p['status'])
            elif p['status'] == 'UNKNOWN': unk.append(p['property'])
    if unk and not any(f['status'] == 'FAILURE' for f in r['fails']): errs.append('undecided: ' + ' '.join(unk)[:200])
    if errs or not r['props']:
        r['status'] = 'error'; r['msg'] = '; '.join(errs)[:800] or 'no result'
    return r

def decide1(b, q, verbose):
    """run one query to a verdict"""
    if STOP.is_set() or (BUDGET[0] and time.time() - T0 > BUDGET[0]):
        return dict(name=q['name'], fn=q['fn'], bounds=q['D'], unwind=0, mode=q['mode'], violations=[], unconfirmed=[], notes=['not run: ' + ('a violation was already confirmed' if STOP.is_set() else 'time budget used up')], solver=0, time=0, replays=0, witnesses=[], verdict='inconclusive')
    env = cfg_env(q)
    q = dict(q, uset=re.sub(r'\{([^}]*)\}', lambda m: str(int(eval(m.group(1), {}, env))), q['uset']))
    q = dict(q, unwind=int(eval(str(q['unwind']), {}, cfg_env(q))))
    if q['fallback']: q['fallback'] = dict(q['fallback'], unwind=int(eval(str(q['fallback']['unwind']), {}, cfg_env(q))))
    out = dict(name=q['name'], fn=q['fn'], bounds=q['D'], unwind=q['unwind'], mode=q['mode'], violations=[], unconfirmed=[], notes=[], solver=0.0, time=0.0, replays=0, witnesses=[])
    unwind, D, uset = q['unwind'], q['D'], q['uset']
    tmo = q['timeout']; tries = 0
    nreach_expected = None
    while True:
        alt = [] if '--paths' in q['opts'] or 'sat-solver' in q['opts'] else ['--sat-solver', 'cadical']
        r = cbmc(b, q, unwind, D, uset, min(tmo, tmo // 4) if alt else tmo)
        if r['status'] == 'timeout' and alt and not STOP.is_set():  # the default solver is stuck: try the other one
            q = dict(q, opts=q['opts'] + ' ' + ' '.join(alt))
            r = cbmc(b, q, unwind, D, uset, tmo)
        if r['status'] == 'ok' and (r['fails'] or any((q['name'], w['desc']) not in WITNESSED for w in r['reach'])):
            r = cbmc(b, q, unwind, D, uset, tmo, ['--trace'])  # again, with the assignments
        out['time'] += r['time']; out['solver'] += r.get('solver', 0)
        if verbose: print('   %-28s unwind=%-3d %-9s %.1fs %s' % (q['name'] + ('' if q.get('cfg') is None else str(q['cfg']).replace(' ', '')), unwind, r['status'], r['time'], r.get('msg', '')[:300]), file=sys.stderr)
        if r['status'] != 'ok':
            if r['status'] == 'timeout' and q['fallback'] and D != q['fallback']['D']:
                out['notes'].append('bounds %s timed out after %ds; decided with the quick bounds' % (D, tmo))
                unwind, D, uset = q['fallback']['unwind'], q['fallback']['D'], q['fallback']['uset']; out['bounds'] = D; out['unwind'] = unwind
                continue
            out['verdict'] = 'inconclusive'; out['notes'].append('%s: %s' % (r['status'], r.get('msg', 'time limit %ds' % tmo)))
            return out
        # replay everything that failed
        qq = dict(q, D=D)
        exe = b.exe(qq)
        unwind_fail = [f for f in r['fails'] if '.unwind.' in f['id'] or 'unwinding assertion' in f['desc'] or '.recursion' in f['id']]
        others = [f for f in r['fails'] if f not in unwind_fail]
        seen = set(); confirmed = False
        for f in (others + unwind_fail):
            key = tuple(f['vals'])
            if key in seen: continue
            seen.add(key)
            if len(seen) > 12: break
            for fill in FILLS:
                out['replays'] += 1
                kind, msg = run_native(exe, q['fn'], f['vals'], fill=fill)
                if kind in BAD or kind == 'ASSUME': break
            if verbose: print('      refuted %s [%s] %s -> native %s %s vals=%s' % (f['id'], f['desc'], f['loc'], kind, msg[:140].strip(), f['vals']), file=sys.stderr)
            if kind in BAD:
                confirmed = True
                out['violations'].append(dict(query=q['name'], file=os.path.basename(q['file']), fn=q['fn'], D=D, assertion=f['desc'], loc=f['loc'], inputs=f['vals'], native=kind, detail=msg, fill=fill))
            elif f not in unwind_fail:
                out['unconfirmed'].append(dict(assertion=f['desc'], loc=f['loc'], inputs=f['vals'], native=kind, detail=msg[:200]))
        # witnesses
        total_reach = [p for p in r['props'] if p['desc'].startswith('REACH: ')]
        if not confirmed:
            for w in r['reach']:
                if (q['name'], w['desc']) in WITNESSED: continue
                WITNESSED.add((q['name'], w['desc']))
                out['replays'] += 1
                kind, msg = run_native(exe, q['fn'], w['vals'])
                label = w['desc'][7:]
                ok = kind == 'OK' and ('VH_REACHED ' + label) in msg
                if verbose and not ok: print('      witness %s -> native %s %s vals=%s' % (label, kind, msg[:200], w['vals']), file=sys.stderr)
                out['witnesses'].append(dict(reach=label, inputs=w['vals'][:40], native='reached' if ok else kind))
                if kind in BAD:
                    confirmed = True
                    out['violations'].append(dict(query=q['name'], file=os.path.basename(q['file']), fn=q['fn'], D=D, assertion='witness of "%s" fails in the real build' % label, loc=w['loc'], inputs=w['vals'], native=kind, detail=msg, fill='0xa5'))
        if confirmed:
            out['verdict'] = 'violated'
            if any(not any(matches(k, v) for k in KNOWN) for v in out['violations']): STOP.set()
            break
        if unwind_fail:
            tries += 1
            if tries <= 2:
                out['notes'].append('unwinding bound %d too small, retried' % unwind)
                unwind = unwind * 2; out['unwind'] = unwind
                uset = re.sub(r':(\d+)', lambda m: ':%d' % (int(m.group(1)) * 2), uset)
                out['unconfirmed'] = []; out['witnesses'] = []
                continue
            out['verdict'] = 'inconclusive'; out['notes'].append('unwinding bound %d insufficient: %s' % (unwind, unwind_fail[0]['loc'])); break
        if out['unconfirmed']: out['verdict'] = 'unconfirmed'
        elif any(w['native'] != 'reached' for w in out['witnesses']): out['verdict'] = 'held'; out['notes'].append('a witness did not replay')
        else: out['verdict'] = 'held'
        break
    out['labels'] = sorted({p['desc'] for p in total_reach}); out['hit'] = sorted({p['desc'] for p in r['reach']})
    out['assertions'] = len(r['props']) - len(total_reach)
    out['vccs'] = r['vccs']; out['clauses'] = r.get('clauses', 0); out['vars'] = r.get('vars', 0)
    out['functions'] = sorted({p['func'] for p in r['props'] if p['func'].startswith('vt_') or p['func'].startswith('vdt_') or '/src/vita/' in p['loc']})
    return out

def decide(b, q, verbose, pool):
    """all solver runs of one query, merged"""
    if q['cfgs'] is None: rs = [decide1(b, q, verbose)]
    else: rs = list(pool.map(lambda c: safe(b, dict(q, cfg=c), verbose), q['cfgs']))
    m = dict(rs[0]); m.update(violations=[], unconfirmed=[], notes=[], solver=0.0, time=0.0, replays=0, witnesses=[], runs=len(rs), assertions=0, vccs=0, clauses=0, functions=[], bounds=(q['split'] + (' where ' + q['where'] if q['where'] else '') + ' ' if q['split'] else '') + m['bounds'])
    labels, hit, verd = set(), set(), []
    for r in rs:
        for k in ('violations', 'unconfirmed', 'witnesses', 'functions'): m[k] = m[k] + [x for x in r.get(k, []) if k != 'functions' or x not in m[k]]
        m['notes'] += [x for x in r['notes'] if x not in m['notes']]
        for k in ('solver', 'time', 'replays', 'assertions', 'vccs', 'clauses'): m[k] += r.get(k, 0)
        m['unwind'] = max(m['unwind'], r['unwind'])
        labels |= set(r.get('labels', [])); hit |= set(r.get('hit', [])); verd.append(r['verdict'])
    m['verdict'] = next((v for v in ('violated', 'error', 'inconclusive', 'unconfirmed') if v in verd), 'held')
    if m['verdict'] == 'held' and (labels - hit or not labels): m['verdict'] = 'vacuous'; m['notes'].append('unreachable: ' + ', '.join(sorted(labels - hit)))
    return m

def load_known():
    k = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'): k.append(json.loads(l))
    return k

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--selftest', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--noev', action='store_true'); ap.add_argument('-j', type=int, default=NPROC); ap.add_argument('--gb', action='store_true', help='only link the queries and print the cbmc commands')
    a = ap.parse_args()
    if a.selftest:  # setup: the tools are there
        for c in (['cbmc', '--version'], ['goto-cc', '--version'], ['goto-instrument', '--version'], ['clang', '--version']):
            rc, o, e = sh(c, 60); print(c[0], o.split('\n')[0])
            if rc != 0: sys.exit(1)
        return
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    qs = queries(prop, tier)
    if a.only: qs = [q for q in qs if re.fullmatch(a.only, q['fn'])]
    if not qs: print('no queries for', prop); sys.exit(2)
    KNOWN.extend(k for k in load_known() if k['property'] == prop)
    BUDGET[0] = 480 if tier == 'quick' else 3 * 3600
    tmp = tempfile.mkdtemp(prefix='vh_%s_' % prop)
    try:
        b = Build(tmp, qs)
        with ThreadPoolExecutor(NPROC) as ex: b.goto_lib(ex)
        if a.gb:
            keep = '/tmp/vh_gb'; shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep)
            for q in qs:
                o = os.path.join(keep, q['name'].replace('/', '_') + '.gb'); shutil.copy(b.link(q), o)
                for c in (q['cfgs'] or [None]): print('cbmc', o, '--function', entry(q['fn'], c), '--unwind', eval(q['unwind'], {}, cfg_env(dict(q, cfg=c))), *[x for x in CBMC_BASE if x != '--json-ui'], *(['--unwindset', q['uset']] if q['uset'] else []), q['opts'])
            return
        qs.sort(key=lambda q: q['mode'] != 'R')
        if a.v: print('goto lib', time.time() - T0, file=sys.stderr)
        b.native_lib()
        if a.v: print('native lib', time.time() - T0, file=sys.stderr)
        with ThreadPoolExecutor(a.j) as pool, ThreadPoolExecutor(len(qs)) as ex:
            res = list(ex.map(lambda q: safeq(b, q, a.v, pool), qs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = KNOWN
    viol = []; hit = []
    for r in res:
        for v in r['violations']:
            k = next((k for k in known if matches(k, v)), None)
            (hit if k else viol).append((k, v) if k else v)
    rdir = os.path.join(HERE, 'evidence', 'replay'); 
    ev = evidence(prop, tier, seed, qs, res, viol, hit)
    if not a.noev:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for r in sorted(res, key=lambda r: r['name']):
        print('%-34s %-12s %5.1fs  bounds[%s] unwind=%d mode=%s %s' % (r['name'], r['verdict'], r['time'], r['bounds'], r['unwind'], r['mode'], '; '.join(r['notes'])[:200]))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(viol[:10]):
            path = os.path.join(rdir, '%s_%d.json' % (prop, i)); json.dump(dict(property=prop, **v), open(path, 'w'), indent=1)
            print('  %s: %s -> %s %s inputs=%s' % (v['query'], v['assertion'], v['native'], v['detail'].strip()[:160], v['inputs']))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        sys.exit(1)
    bad = [r for r in res if r['verdict'] != 'held']
    print('%s %s: %d queries, %d held, %d not decided, wall %.0fs' % (prop, tier, len(res), len(res) - len(bad), len(bad), time.time() - T0))
    sys.exit(0)

def matches(k, v):
    """a listed finding is identified by query, refuted assertion/detail pattern and (optionally) an input predicate"""
    if not re.fullmatch(k['query'], v['query']): return False
    if 'detail' in k and not re.search(k['detail'], v['native'] + ' ' + v['detail'] + ' ' + v['assertion']): return False
    return True

def safeq(b, q, v, pool):
    try:
        if q['cfgs'] is None: return pool.submit(decide, b, q, v, None).result()
        return decide(b, q, v, pool)
    except Exception as x:
        if v: import traceback; traceback.print_exc()
        return dict(name=q['name'], fn=q['fn'], bounds=q['D'], unwind=0, mode=q['mode'], violations=[], unconfirmed=[], notes=['error: ' + str(x)[-600:]], solver=0, time=0, replays=0, witnesses=[], verdict='error')

def safe(b, q, v):
    try: return decide1(b, q, v)
    except Exception as x:
        if v: import traceback; traceback.print_exc()
        return dict(name=q['name'], fn=q['fn'], bounds=q['D'], unwind=0, mode=q['mode'], violations=[], unconfirmed=[], notes=['error: ' + str(x)[-600:]], solver=0, time=0, replays=0, witnesses=[], verdict='error')

def evidence(prop, tier, seed, qs, res, viol, hit):
    held = [r for r in res if r['verdict'] == 'held']
    fns = sorted({f for r in res for f in r.get('functions', [])})
    cov = dict(
        explanation='bounded symbolic execution of the real sources by CBMC; each query is one harness over all values within its bounds, every assertion decided by the SAT/SMT back end with unwinding assertions on',
        queries=sum(r.get('runs', 1) for r in res), harnesses=len(res), queries_discharged=sum(r.get('runs', 1) for r in held),
        assertions_decided=sum(r.get('assertions', 0) for r in res), vccs_sent_to_solver=sum(r.get('vccs', 0) for r in res),
        sat_clauses=sum(r.get('clauses', 0) for r in res), solver_seconds=round(sum(r['solver'] for r in res), 2), cbmc_seconds=round(sum(r['time'] for r in res), 2),
        functions_encoded=fns, native_replays=sum(r['replays'] for r in res),
        witnesses_replayed=sum(1 for r in res for w in r['witnesses'] if w['native'] == 'reached'),
        undecided=[dict(query=r['name'], verdict=r['verdict'], notes=r['notes'], unconfirmed=r['unconfirmed'][:3]) for r in res if r['verdict'] not in ('held', 'violated')],
        per_query=[dict(query=r['name'], verdict=r['verdict'], bounds=r['bounds'], unwind=r['unwind'], heap={'R': 'right-aligned', 'L': 'left-aligned', 'X': 'exact'}[r['mode']], solver_runs=r.get('runs', 1), seconds=round(r['time'], 2), assertions=r.get('assertions', 0), notes=r['notes']) for r in res],
        samples=[dict(query=r['name'], witness=w) for r in res for w in r['witnesses'][:1]][:6],
        known_findings_seen=[k['what'] for k, v in hit])
    ass = ['LP64 little-endian machine, C locale', 'libc and OS behave as modelled in /verif/lib (model_*.c, env_*.c)',
           'allocation never fails unless the query says so', 'nothing is claimed beyond the per-query bounds listed in coverage.per_query']
    return dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - T0, 2), assumptions=ass, violations=len(viol))

if __name__ == '__main__': main()
