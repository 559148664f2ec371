# Build steps, symbolic runs, native replays and evidence for the checks.
import os, sys, json, hashlib, subprocess, glob, shutil, time, threading, re, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
CLANG, CLANGXX, LINK = 'clang-18', 'clang++-18', '/usr/bin/llvm-link-18'
if not os.path.exists(LINK): LINK = shutil.which('llvm-link-18') or shutil.which('llvm-link') or '/usr/lib/llvm-18/bin/llvm-link'
BC = ['-O1', '-g1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-w', '-emit-llvm', '-c']
STD = ['-std=gnu++23', '-D_GLIBCXX_ASSERTIONS']
ASAN = ['-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
os.environ['LC_ALL'] = 'C.UTF-8'

class BuildError(Exception): pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf-8', 'replace')[-4000:]))
    return p.stdout

def hsh(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def par(fs):
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(f) for f in fs]: r.result()

import functools, fcntl
def memo(f):
    """one build per process, whatever happens to the tree meanwhile"""
    lock = threading.Lock(); val = []
    @functools.wraps(f)
    def g():
        with lock:
            if not val:
                os.makedirs(B, exist_ok=True)
                with open(os.path.join(B, 'lock-' + f.__name__), 'w') as l: fcntl.flock(l, fcntl.LOCK_EX); val.append(f())
            return val[0]
    return g

def once(path, make):
    """make(tmp) builds path atomically unless it exists"""
    if os.path.exists(path): return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident()); make(tmp); os.replace(tmp, path); return path

@memo
def build_engine():
    src = [os.path.join(V, 'engine', f) for f in ('symx.cpp', 'decode.h', 'state.h', 'expr.h')]
    out = os.path.join(B, 'symx-' + hsh(src))
    return once(out, lambda t: sh([CLANGXX, '-std=c++17', '-O2', '-g1', '-Wno-switch', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src[0], '-o', t, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3']))

def rt_files(): return glob.glob(os.path.join(V, 'rt', '*'))

@memo
def build_rt():
    rt = os.path.join(V, 'rt'); out = os.path.join(B, 'rt-%s.bc' % hsh(rt_files()))
    def mk(t):
        fl = ['-fno-builtin', '-DSYMX', '-I' + rt]
        par([lambda: sh([CLANGXX, '-std=gnu++23', '-fno-access-control'] + BC + fl + [rt + '/rt.cpp', '-o', t + '.a']),
             lambda: sh([CLANG] + BC + fl + [rt + '/libc.c', '-o', t + '.b']),
             lambda: sh([CLANGXX, '-std=gnu++23', '-fno-access-control'] + BC + fl + [rt + '/h_sym.cpp', '-o', t + '.c'])])
        sh([LINK, t + '.a', t + '.b', '-o', t]); os.replace(t + '.c', out[:-3] + '.h.bc')
        for x in 'ab': os.unlink(t + '.' + x)
    return once(out, mk)

def src_files():
    s = os.path.join(REPO, 'src')
    return [p for p in glob.glob(s + '/**/*', recursive=True) if os.path.isfile(p)]

@memo
def src_hash(): return hsh(src_files(), 'v4')
def units(): return sorted(glob.glob(REPO + '/src/*.cpp')) + [REPO + '/src/lex.yy.c']

def templates_data(d):
    out = os.path.join(d, 'templates_data.cpp')
    def mk(t):
        sh(['gcc', '-w', '-O1', REPO + '/src/gen_templates_data.c', '-o', t + '.gtd']); sh([t + '.gtd', REPO + '/src/templates', t], timeout=60); os.unlink(t + '.gtd')
    return once(out, mk)

@memo
def build_prog():
    """bitcode of the whole program from the current tree"""
    d = os.path.join(B, 'prog-' + src_hash()); out = d + '/all.bc'
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True)
    td = []; jobs = []; objs = []
    def one(u):
        o = os.path.join(d, os.path.basename(u) + '.bc'); objs.append(o)
        cmd = [CLANG] if u.endswith('.c') else [CLANGXX] + STD
        return lambda: sh(cmd + BC + ['-I' + REPO + '/src', u, '-o', o])
    js = [one(u) for u in units()]
    def tdj(): u = templates_data(d); one(u)()
    par([tdj] + js)
    sh([LINK] + sorted(set(objs)) + ['-o', out + '.t']); os.replace(out + '.t', out); return out

@memo
def build_native():
    d = os.path.join(B, 'native-' + src_hash()); out = d + '/gendlopen'
    if os.path.exists(out): return out
    os.makedirs(d, exist_ok=True); objs = []
    def one(u):
        o = os.path.join(d, os.path.basename(u) + '.o'); objs.append(o)
        cmd = [CLANG] if u.endswith('.c') else [CLANGXX, '-std=gnu++23']
        return lambda: sh(cmd + ASAN + ['-I' + REPO + '/src', '-c', u, '-o', o])
    js = [one(u) for u in units()]
    def tdj(): one(templates_data(d))()
    par([tdj] + js)
    sh([CLANGXX] + ASAN + sorted(set(objs)) + ['-o', out + '.t']); os.replace(out + '.t', out); return out

@memo
def shim():
    return once(os.path.join(B, 'readlim-%s.so' % hsh(rt_files())), lambda t: sh([CLANG, '-O1', '-shared', '-fPIC', V + '/rt/readlim.c', '-ldl', '-o', t]))

@memo
def build_gtd():
    """the embedding tool gen_templates_data of the current tree: bitcode and native"""
    d = os.path.join(B, 'gtd-' + src_hash()); os.makedirs(d, exist_ok=True); u = REPO + '/src/gen_templates_data.c'
    return (once(d + '/gtd.bc', lambda t: sh([CLANG] + BC + ['-I' + REPO + '/src', u, '-o', t])), once(d + '/gtd', lambda t: sh([CLANG] + ASAN + ['-I' + REPO + '/src', u, '-o', t])))

def gen(args, cwd):
    """run the real generator of the current tree"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    p = subprocess.run([build_native()] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p

@memo
def build_hn():
    rt = os.path.join(V, 'rt')
    def one(kind):
        x = [] if kind == 'gen' else ['-DNO_H_RUN']
        return once(os.path.join(B, 'hn-%s-%s.o' % (hsh(rt_files()), kind)), lambda t: sh([CLANGXX, '-std=gnu++23', '-c'] + ASAN + x + ['-I' + rt, rt + '/h_native.cpp', '-o', t]))
    return {k: one(k) for k in ('gen', 'lib')}

class Job:
    """one harness: kind 'gen' (whole program) or 'lib' (generated loader code)"""
    def __init__(s, name, src, quick, thorough=None, kind='gen', budget=(90, 600), covers=(), bounds='', defs=(), prep=None, lang='c++', flags=(), validate=40, prog='gendlopen', extra=(), probe='', headers=None):
        s.probe = probe; s.headers = headers; s.extra = list(extra) # generated body files, compiled by themselves
        s.prog = prog
        s.name, s.src, s.q, s.t, s.kind, s.budget, s.covers, s.bounds, s.defs, s.prep, s.lang, s.flags, s.validate = name, src, dict(quick), dict(thorough if thorough is not None else quick), kind, budget, list(covers), bounds, list(defs), prep, lang, list(flags), validate
    def dflags(s, tier): return ['-D%s=%s' % kv for kv in (s.q if tier == 'quick' else s.t).items()] + ['-D' + d for d in s.defs]

class Runner:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed; s.t0 = time.time(); s.work = tempfile.mkdtemp(prefix='w-%s-' % prop, dir=B); s.results = []; s.viol = []; s.known = []; s.spurious = []; s.notes = []; s.errors = []
    def incdir(s, job):
        d = os.path.join(s.work, 'inc-' + job.name)
        if job.prep and not os.path.isdir(d): os.makedirs(d); job.prep(d)
        return d
    def compile(s, job):
        d = os.path.join(s.work, job.name); os.makedirs(d, exist_ok=True); src = os.path.join(V, 'harness', job.src); rt = os.path.join(V, 'rt'); inc = s.incdir(job)
        df = job.dflags(s.tier); c = [CLANG] if job.lang == 'c' else [CLANGXX] + ([f for f in job.flags if f.startswith('-std')] or ['-std=gnu++23'])
        fl = [f for f in job.flags if not f.startswith('-std')] + ['-I' + rt, '-I' + inc, '-I' + os.path.join(V, 'harness')] + df
        nat = os.path.join(d, 'native')
        def ex(f, cc, suf): o = d + '/' + f + suf; sh(cc + fl + ['-include', os.path.join(V, 'harness', 'dlx.h'), os.path.join(inc, f), '-o', o]); return o
        def sym():
            sh(c + BC + ['-fno-builtin', '-DSYMX', '-D_GLIBCXX_ASSERTIONS'] + fl + [src, '-o', d + '/h.bc'])
            if job.extra: sh([LINK, d + '/h.bc'] + [ex(f, c + BC + ['-fno-builtin', '-DSYMX', '-D_GLIBCXX_ASSERTIONS'], '.bc') for f in job.extra] + ['-o', d + '/h2.bc']); os.replace(d + '/h2.bc', d + '/h.bc')
        def natv():
            hn = build_hn()[job.kind]
            sh(c + ASAN + fl + ['-c', src, '-o', d + '/h.o'])
            sh([CLANGXX] + ASAN + [d + '/h.o'] + [ex(f, c + ASAN + ['-c'], '.o') for f in job.extra] + [hn, '-o', nat] + (['-ldl'] if job.kind == 'lib' else []))
        par([sym, natv]); return d
    def broken(s, job, keep=None):
        """the generated code by itself, without the harness and its stand-ins: what both compilers say if neither accepts it"""
        if job.kind != 'lib' or any('harness/win' in f or 'harness/plat' in f or 'PLAT=' in f or 'HX_WIN=' in f for f in job.flags + job.dflags(s.tier)): return None
        inc = s.incdir(job); fs = os.listdir(inc); cpp = job.lang != 'c'; out = ''
        fl = [f for f in job.flags if not f.startswith('-std')] + ['-I' + inc, '-I' + os.path.join(V, 'harness')] + job.dflags(s.tier)
        src = os.path.join(inc, 'probe.cpp' if cpp else 'probe.c')
        with open(src, 'w') as f: f.write('#include <stddef.h>\n#include "types.h"\n%s%s\n' % (''.join('#include "%s"\n' % h for h in job.headers or ['gdo.hpp' if 'gdo.hpp' in fs else 'gdo.h']), job.probe))
        for x in [src] + [os.path.join(inc, f) for f in ('gdo.c', 'gdo.cpp') if f in fs]:
            res = [subprocess.run(cc + ([] if cpp else ['-Werror=implicit-function-declaration', '-Wno-incompatible-pointer-types']) + ['-fsyntax-only'] + fl + [x], stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for cc in ([['g++', '-std=gnu++23'], [CLANGXX, '-std=gnu++23']] if cpp else [['gcc'], [CLANG]])]
            if all(p.returncode for p in res): out += ''.join('%s\n%s\n' % (' '.join(p.args), p.stdout.decode('utf-8', 'replace')[:4000]) for p in res)
        if out and keep: shutil.rmtree(keep, ignore_errors=True); shutil.copytree(inc, keep); open(keep + '/report.txt', 'w').write('The generated code does not compile.\n' + out)
        return out or None
    def failed(s, job, err):
        keep = os.path.join(V, 'evidence', 'replay', s.prop, 'build-' + job.name)
        try: out = s.broken(job, keep)
        except BuildError: out = None
        if out: s.viol.append({'job': job.name, 'kind': 'build', 'msg': 'the generated code does not compile', 'where': '', 'native': [l for l in out.split('\n') if 'error' in l][:1][0] if 'error' in out else out[:200], 'dir': os.path.relpath(keep, V), 'draws': []})
        else: s.errors.append((job.name, err))
    def symx(s, job, d):
        out = d + '/out'; os.makedirs(out, exist_ok=True); b = job.budget[0 if s.tier == 'quick' else 1]
        cmd = [build_engine(), '-j', '8', '-t', str(b), '-o', out, '-s', str(job.validate), '-R', str(s.seed)]
        if job.kind == 'gen': cmd += ['-p', build_gtd()[0] if job.prog == 'gtd' else build_prog(), build_rt(), build_rt()[:-3] + '.h.bc', d + '/h.bc']
        else: cmd += ['-p', d + '/h.bc', build_rt()]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=b + 240)
        if not os.path.exists(out + '/summary.json'): raise BuildError('symbolic executor failed: ' + p.stdout.decode('utf-8', 'replace')[-2000:])
        sm = json.load(open(out + '/summary.json')); bugs, paths = [], []
        for f in sorted(glob.glob(out + '/r*.jsonl')):
            for l in open(f, errors='replace'):
                try: r = json.loads(l)
                except ValueError: continue
                (bugs if r['t'] == 'bug' else paths).append(r)
        sm['log'] = p.stdout.decode('utf-8', 'replace')[-1500:]
        return sm, bugs, paths
    def replay(s, job, d, draws, keep=None, verbose=False):
        t = tempfile.mkdtemp(dir=s.work); tree = t + '/tree'; os.mkdir(tree)
        df = keep + '/draws' if keep else t + '/draws'
        with open(df, 'w') as f:
            for n, h in draws: f.write('%s %s\n' % (n, h))
        env = dict(os.environ, HX_TMP=t, ASAN_OPTIONS='detect_leaks=0:exitcode=99:symbolize=0:detect_stack_use_after_return=1')
        if job.kind == 'gen': env['HX_BIN'] = build_gtd()[1] if job.prog == 'gtd' else build_native(); env['HX_SHIM'] = shim()
        if verbose: env['HX_VERBOSE'] = '1'
        try: p = subprocess.run([d + '/native', df, t + '/obs'], cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120); rc, so, se = p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired: rc, so, se = 1, 'HANG replay timed out', ''
        if rc == 99: rc, so = 1, 'MEMORY AddressSanitizer error in the harness process\n' + so
        if rc < 0: so = 'MEMORY killed by signal %d\n' % -rc + so; rc = 1
        obs = []
        if os.path.exists(t + '/obs'):
            for l in open(t + '/obs'):
                k = l.rstrip('\n').rsplit(' ', 1); obs.append(k if len(k) == 2 else [k[0], ''])
        shutil.rmtree(t, ignore_errors=True); return rc, so, se, obs
    def run(s, job):
        t0 = time.time(); d = os.path.join(s.work, job.name); sm, bugs, paths = s.symx(job, d)
        if os.environ.get('VERIF_DEBUG'): print(sm['log'], {k: v for k, v in sm.items() if k not in ('functions', 'log')})
        # native validation of sampled paths
        def val(p):
            rc, so, se, obs = s.replay(job, d, p['draws']); ok = rc == 0 and [list(o) for o in p['obs']] == obs
            return ok, p, rc, so, obs, se
        with ThreadPoolExecutor(8) as ex: vals = list(ex.map(val, paths))
        good = sum(1 for v in vals if v[0])
        for ok, p, rc, so, obs, se in vals:
            if ok: continue
            if rc == 1 and so.startswith(('ASSERT', 'MEMORY', 'HANG')): bugs.append({'kind': 'native', 'msg': so.strip(), 'where': 'native replay of a path on which the model reports nothing', 'draws': p['draws']}); continue
            s.notes.append('%s: replay disagrees with the model: %s' % (job.name, so.strip()))
            if os.environ.get('VERIF_DEBUG'):
                print('DISAGREE', job.name, rc, so, se[-500:], [(n, bytes.fromhex(h)) for n, h in p['draws']]);
                for a, b in zip(p['obs'], obs):
                    if list(a) != b: print('  model ', a[0], bytes.fromhex(a[1])); print('  native', b[0], bytes.fromhex(b[1]))
                if len(p['obs']) != len(obs): print('  number of observations', len(p['obs']), len(obs))
        seen = {}
        for b in bugs:
            key = (b['kind'], b['msg'])
            if seen.get(key, 0) >= 2: continue
            seen[key] = seen.get(key, 0) + 1
            n = len(s.viol) + len(s.spurious) + len(s.known); keep = os.path.join(V, 'evidence', 'replay', s.prop, str(n)); shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep)
            rc, so, se, obs = s.replay(job, d, b['draws'], keep=keep, verbose=True)
            with open(keep + '/report.txt', 'w') as f:
                f.write('property %s, harness %s\n%s: %s\nat %s\n\nvalues chosen by the solver:\n' % (s.prop, job.src, b['kind'], b['msg'], b['where']))
                for nme, h in b['draws']: f.write('  %s = %r\n' % (nme, bytes.fromhex(h)))
                f.write('\nnative replay (exit %d): %s\n%s\n' % (rc, so, se[:20000]))
                f.write('\nrepeat: bin/replay %s %s %s/draws\n' % (s.prop, job.name, keep))
            rec = {'job': job.name, 'kind': b['kind'], 'msg': b['msg'], 'where': b['where'], 'native': so.strip(), 'dir': os.path.relpath(keep, V), 'draws': b['draws']}
            m = re.match(r'\[(K\w+)\] ', so.split(' ', 1)[1] if so.startswith('ASSERT') else '')
            if rc == 1 and m and s.is_known(m.group(1)): s.known.append((m.group(1), rec))
            elif rc == 1: s.viol.append(rec)
            else: s.spurious.append(rec)
        missing = [c for c in job.covers if not sm['cover'].get(c)]
        s.results.append({'job': job.name, 'harness': job.src, 'defines': job.dflags(s.tier), 'bounds': job.bounds, 'sm': sm, 'validated': good, 'sampled': len(paths), 'missing_covers': missing, 'wall': round(time.time() - t0, 1), 'samples': [{n: bytes.fromhex(h).decode('latin1') for n, h in p['draws']} for p in paths[-3:]]})
        return sm
    def is_known(s, k):
        try: return any(re.match(r'known: property=%s %s\b' % (s.prop, k), l) for l in open(os.path.join(V, 'known_findings.txt')))
        except OSError: return False
    def evidence(s, level, assumptions):
        R = s.results; tot = lambda k: sum(r['sm'][k] for r in R); fns = sorted({f for r in R for f in r['sm']['functions']})
        inc = {1: 'time budget', 2: 'unsupported construct', 4: 'solver gave no answer', 8: 'internal', 16: 'path limit', 32: 'memory'}
        jobs = []
        for r in R:
            sm = r['sm']; jobs.append({'harness': r['harness'], 'job': r['job'], 'defines': r['defines'], 'bounds': r['bounds'], 'complete_within_bounds': sm['incomplete'] == 0 and not sm['crashed'], 'incomplete_because': [v for k, v in inc.items() if sm['incomplete'] & k], 'unsupported': sm['unsupported'], 'paths': sm['paths'], 'instructions': sm['instrs'], 'queries': sm['queries'], 'sat': sm['sat'], 'unsat': sm['unsat'], 'unknown': sm['unknown'], 'answered_from_query_cache': sm['cache_hits'], 'solver_s': sm['solver_s'], 'assertions': sm['asserts'], 'assertion_queries': sm['assert_queries'], 'assertions_constant_after_simplification': sm['assert_constant'], 'replayed_paths': r['sampled'], 'replays_equal': r['validated'], 'covers': sm['cover'], 'covers_missing': r['missing_covers'], 'wall_s': r['wall']})
        cov = {'states': tot('paths'), 'transitions': tot('instrs'), 'traces_validated_against_impl': sum(r['validated'] for r in R), 'samples': [x for r in R for x in r['samples']][:12] or [{}],
               'meaning': 'states: completed symbolic paths, each standing for all inputs of its class; transitions: LLVM instructions executed symbolically; traces: paths replayed natively with equal observations',
               'queries_discharged': tot('queries'), 'solver_s': round(tot('solver_s'), 3), 'solver': 'z3', 'exhaustive': all(j['complete_within_bounds'] for j in jobs), 'jobs': jobs, 'functions_encoded': fns[:400], 'functions_encoded_count': sum(r['sm']['nfuncs'] for r in R)}
        if s.spurious: cov['unconfirmed_counterexamples'] = [{k: r[k] for k in ('job', 'kind', 'msg', 'where', 'native')} for r in s.spurious]
        if s.notes: cov['notes'] = s.notes[:20]
        ev = {'property': s.prop, 'tier': s.tier, 'seed': s.seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(s.viol)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', s.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    def finish(s, level, assumptions):
        s.evidence(level, assumptions); shutil.rmtree(s.work, ignore_errors=True)
        for r in s.results:
            sm = r['sm']; print('%s %s: %d paths, %d instructions, %d queries (%.1f s), %d asserts, replays %d/%d, %.0f s%s%s' % (s.prop, r['job'], sm['paths'], sm['instrs'], sm['queries'], sm['solver_s'], sm['asserts'], r['validated'], r['sampled'], r['wall'], ' INCOMPLETE(%d)' % sm['incomplete'] if sm['incomplete'] or sm['crashed'] else '', ' MISSING COVER %s' % r['missing_covers'] if r['missing_covers'] else ''))
            if sm['unsupported']: print('  unsupported: ' + sm['unsupported'].replace('\n', '; ')[:500])
        for n in s.notes[:5]: print('note: ' + n)
        for r in s.spurious[:5]: print('unconfirmed: %s %s %s (%s)' % (r['job'], r['kind'], r['msg'], r['native']))
        for k in sorted({k for k, _ in s.known}):
            rec = [r for kk, r in s.known if kk == k][0]; print('KNOWN-FINDING: property=%s %s %s' % (s.prop, k, rec['msg']))
        for r in s.viol:
            print('VIOLATION property=%s replay=%s' % (s.prop, r['dir'])); print('  %s: %s' % (r['kind'], r['msg'])); print('  native: %s' % r['native'].split('\n')[0])
            print('  values: ' + ', '.join('%s=%r' % (n, bytes.fromhex(h)) for n, h in r['draws'])[:600])
        for n, e in s.errors: print('%s could not be built: %s' % (n, str(e)[:1500]))
        return 1 if s.viol else 2 if s.errors else 0
