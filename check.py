#!/usr/bin/env python3
"""Runs the solver-based check of one property (see DESIGN.md).

usage: check.py <property id> [--tier quick|thorough] [--only entry] [--keep]

The harnesses harness/<id>*.cpp are compiled to LLVM bitcode together with the
sources of /repo they name, linked with the runtime library model, and executed
symbolically by engine/esx.  Every counterexample the solver returns is
replayed against a native build of the same /repo sources; only what
reproduces there is reported.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ESX_REPO', '/repo')
T0 = time.time()
NCPU = min(8, os.cpu_count() or 8)
CLANG = ['clang++', '-std=c++17', '-O1', '-gline-tables-only', '-D_GLIBCXX_ASSERTIONS', '-include', 'cstdint', '-w',
         '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off']
GXX = ['g++', '-std=c++17', '-O2', '-include', 'cstdint', '-w', '-ffunction-sections', '-fdata-sections', '-fPIC']


def sh(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace')


def engine():
    """Builds engine and library model when missing or out of date."""
    os.makedirs(V + '/bin', exist_ok=True)
    srcs = sorted(glob.glob(V + '/engine/*') + glob.glob(V + '/model/**/*.?pp', recursive=True))
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    stamp = h.hexdigest()
    with open(V + '/bin/.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sf = V + '/bin/stamp'
        if os.path.exists(sf) and open(sf).read() == stamp and os.path.exists(V + '/bin/esx'):
            return
        objs, jobs = [], []
        for n in ('esx', 'expr', 'solver', 'blast', 'order'):
            o = V + '/bin/%s.o' % n
            objs.append(o)
            jobs.append(['clang++', '-std=c++17', '-O2', '-w', '-I/usr/lib/llvm-18/include', '-c', V + '/engine/%s.cpp' % n, '-o', o])
        for n in ('model', 'model_string', 'model_thread'):
            jobs.append(CLANG + ['-fno-access-control', '-emit-llvm', '-c', V + '/model/%s.cpp' % n, '-o', V + '/bin/%s.bc' % n])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rc, out in ex.map(sh, jobs):
                if rc:
                    raise RuntimeError('engine build failed:\n' + out)
        rc, out = sh(['clang++', '-o', V + '/bin/esx'] + objs + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-lminisat', '-lpthread'])
        if rc:
            raise RuntimeError('engine link failed:\n' + out)
        rc, out = sh(['llvm-link-18', V + '/bin/model.bc', V + '/bin/model_string.bc', V + '/bin/model_thread.bc', '-o', V + '/bin/lib.bc'])
        if rc:
            raise RuntimeError('model link failed:\n' + out)
        for o in objs:
            os.unlink(o)
        open(sf, 'w').write(stamp)


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.sources, self.nsources, self.entries, self.flags, self.libs = [], [], [], [], []
        self.bounds, self.assumes = [], []
        self.threads = False
        self.trylocks = set()         # entries where the engine saw code that uses try_lock
        for line in open(path):
            m = re.match(r'//@\s*(\w+)\s*(.*)', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'sources':
                self.sources += v.split()
            elif k == 'native':     # sources for the native build only
                self.nsources += v.split()
            elif k == 'flags':
                self.flags += [x.replace('@V', V).replace('@REPO', REPO) for x in v.split()]
            elif k == 'bounds':
                self.bounds.append(v)
            elif k == 'threads':
                self.threads = True
                # the native scheduler looks at return addresses; the same library code with and without the thread sanitizer
                self.flags += ['-fno-optimize-sibling-calls', '-D_GLIBCXX_TSAN=1']
            elif k == 'assume':
                self.assumes.append(v)
            elif k == 'entry':
                f = v.split()
                e = {'name': f[0], 'cover': [], 'tier': 'both'}
                for x in f[1:]:
                    a, b = x.split('=', 1)
                    if a == 'cover':
                        e['cover'] = [c for c in b.split(',') if c]
                    else:
                        e[a] = b
                self.entries.append(e)


def first_error(out):
    for l in out.splitlines():
        if 'error' in l:
            return l[:300]
    return out[-300:]


class Run:
    def __init__(self, pid, tier, only, keep):
        self.pid, self.tier, self.only, self.keep = pid, tier, only, keep
        self.tmp = tempfile.mkdtemp(prefix='esx_%s_' % pid)
        self.notes = []
        self.lock = threading.Lock()
        self.results = []
        self.violations = []
        self.known_hit = []
        self.unconfirmed = []
        self.validated = 0
        self.mismatches = []
        self.samples = []
        self.budget = 330 if tier == 'quick' else 2400
        self.native, self.undefined = {}, {}
        self.hs, self.bounds, self.known = [], [], []

    def left(self):
        return self.budget - (time.time() - T0)

    def note(self, s):
        self.notes.append(s)
        print('NOTE: ' + s)

    def obj(self, src):
        return os.path.join(self.tmp, re.sub(r'[^A-Za-z0-9]', '_', src))

    def compile(self, hs):
        d = ['-DESX_THOROUGH=1'] if self.tier == 'thorough' else []
        inc = ['-I' + V + '/harness', '-I' + REPO]
        jobs = {}
        for h in hs:
            fl = d + h.flags
            tag = h.name
            san = ['-fsanitize=thread'] if h.threads else []      # its calls are ours: esx_sched.cpp, esx_notsan.cpp
            jobs[('bc', h.path, tag)] = CLANG + ['-I' + V + '/model/include'] + fl + inc + ['-emit-llvm', '-c', h.path, '-o', self.obj(h.path) + '.bc']
            jobs[('o', h.path, tag)] = GXX + san + fl + inc + ['-c', h.path, '-o', self.obj(h.path) + '.o']
            key = ' '.join(h.flags)
            for s in h.sources + h.nsources:
                p = os.path.join(REPO, s)
                o = self.obj(s + key)
                if s in h.sources:
                    jobs[('bc', s + key, '')] = CLANG + ['-I' + V + '/model/include'] + h.flags + inc + ['-emit-llvm', '-c', p, '-o', o + '.bc']
                jobs[('o', s + key, '')] = GXX + san + h.flags + inc + ['-c', p, '-o', o + '.o']
            if h.threads:
                for n in ('sched', 'notsan'):
                    jobs[('o', n, '')] = GXX + inc + ['-c', V + '/harness/esx_%s.cpp' % n, '-o', self.obj(n) + '.o']
        jobs[('o', 'native', '')] = GXX + inc + ['-c', V + '/harness/esx_native.cpp', '-o', self.obj('native') + '.o']
        self.pool = cf.ThreadPoolExecutor(NCPU)
        order = sorted(jobs, key=lambda k: k[0] == 'o')     # bitcode first
        futs = {k: self.pool.submit(sh, jobs[k]) for k in order}
        self.ofuts = {k: f for k, f in futs.items() if k[0] == 'o'}
        return {k: f.result()[1] for k, f in futs.items() if k[0] == 'bc' and f.result()[0]}

    def link(self, h, fail):
        key = ' '.join(h.flags)
        bcs = [self.obj(h.path) + '.bc']
        if ('bc', h.path, h.name) in fail:
            return 'harness does not compile: ' + first_error(fail[('bc', h.path, h.name)])
        for s in h.sources:
            if ('bc', s + key, '') in fail:
                return '%s does not compile: %s' % (s, first_error(fail[('bc', s + key, '')]))
            bcs.append(self.obj(s + key) + '.bc')
        out = os.path.join(self.tmp, h.name + '.bc')
        rc, log = sh(['llvm-link-18'] + bcs + [V + '/bin/lib.bc', '-o', out])
        return 'llvm-link: ' + log[-300:] if rc else None

    def link_native(self, h):
        key = ' '.join(h.flags)
        objs = [self.obj(h.path) + '.o', self.obj('native') + '.o'] + ([self.obj('sched') + '.o', self.obj('notsan') + '.o'] if h.threads else []) + [self.obj(s + key) + '.o' for s in h.sources + h.nsources]
        exe = os.path.join(self.tmp, h.name + '.exe')
        rc, log = sh(['g++', '-o', exe] + objs + ['-rdynamic', '-Wl,--gc-sections', '-Wl,--warn-unresolved-symbols', '-no-pie',
                      '-lboost_serialization', '-lboost_date_time', '-ldl', '-lpthread'], env=dict(os.environ, LC_ALL='C'))
        if rc:
            self.note('native link failed for %s: %s' % (h.name, log[-400:]))
            exe = None
        self.undefined[h.name] = sorted(set(re.findall(r"undefined reference to `([^']*)'", log)))
        if self.keep and self.undefined[h.name]:
            print('undefined natively: ' + '; '.join(self.undefined[h.name][:20]))
        self.native[h.name] = exe

    def asan(self, h):
        """a sanitizer build, made only when a memory error has to be confirmed"""
        exe = os.path.join(self.tmp, h.name + '.asan')
        if os.path.exists(exe):
            return exe
        inc = ['-I' + V + '/harness', '-I' + REPO]
        d = ['-DESX_THOROUGH=1'] if self.tier == 'thorough' else []
        srcs = [h.path, V + '/harness/esx_native.cpp'] + [os.path.join(REPO, s) for s in h.sources + h.nsources]
        objs = [exe + '.%d.o' % i for i in range(len(srcs))]
        base = ['g++', '-std=c++17', '-O1', '-g', '-include', 'cstdint', '-w', '-DESX_ASAN=1', '-D_GLIBCXX_ASSERTIONS',
                '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-ffunction-sections', '-fdata-sections', '-fPIC'] + d + h.flags + inc
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(sh, [base + ['-c', s, '-o', o] for s, o in zip(srcs, objs)]))
        for rc, out in rs:
            if rc:
                self.note('sanitizer build failed: ' + first_error(out))
                return None
        rc, log = sh(['g++', '-fsanitize=address,undefined', '-o', exe] + objs + ['-rdynamic', '-Wl,--gc-sections',
                      '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-lboost_serialization', '-lboost_date_time', '-ldl', '-lpthread'])
        if rc:
            self.note('sanitizer link failed: ' + log[-300:])
            return None
        return exe

    def tsan(self, h):
        """a thread sanitizer build, run under the same schedule, made only when a data race has to be confirmed"""
        exe = os.path.join(self.tmp, h.name + '.tsan')
        if os.path.exists(exe):
            return exe
        inc = ['-I' + V + '/harness', '-I' + REPO]
        d = ['-DESX_THOROUGH=1'] if self.tier == 'thorough' else []
        srcs = [h.path] + [os.path.join(REPO, s) for s in h.sources + h.nsources]
        objs = [exe + '.%d.o' % i for i in range(len(srcs))]
        base = ['g++', '-std=c++17', '-O1', '-g', '-include', 'cstdint', '-w', '-ffunction-sections', '-fdata-sections', '-fPIC'] + d + h.flags + inc
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(sh, [base + ['-fsanitize=thread', '-c', s, '-o', o] for s, o in zip(srcs, objs)]))
        for rc, out in rs:
            if rc:
                self.note('thread sanitizer build failed: ' + first_error(out))
                return None
        rc, log = sh(['g++', '-fsanitize=thread', '-o', exe] + objs + [self.obj('native') + '.o', self.obj('sched') + '.o', '-rdynamic', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all',
                      '-lboost_serialization', '-lboost_date_time', '-ldl', '-lpthread'])
        if rc:
            self.note('thread sanitizer link failed: ' + log[-300:])
            return None
        return exe

    def replay(self, h, entry, inputs, kind='assert'):
        """(outcome, text): outcome in ok, fail, skip"""
        exe = self.native.get(h.name)
        if not exe:
            return 'skip', 'no native build'
        f = os.path.join(self.tmp, 'in_%s_%d' % (h.name, time.time_ns()))
        with open(f, 'w') as o:
            for n, v in inputs:
                o.write('%s %s\n' % (n, v))
        env = dict(os.environ, ESX_INPUTS=f, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='halt_on_error=1:exitcode=77',
                   TSAN_OPTIONS='exitcode=66:halt_on_error=1')
        if entry in h.trylocks:
            env['ESX_TRYLOCKS'] = '1'
        rc, out = sh([exe, entry], timeout=10, env=env, cwd=self.tmp)
        o = self.outcome(rc)
        if o in ('ok', 'skip') and kind in ('memory', 'division', 'overflow', 'abort'):
            with self.lock:
                exe = self.asan(h)
            if exe:
                rc, out = sh([exe, entry], timeout=30, env=env, cwd=self.tmp)
                o = self.outcome(rc)
        if o in ('ok', 'skip') and kind == 'race':
            with self.lock:
                exe = self.tsan(h)
            for pre in ([], ['setarch', '-R']) if exe else ():
                rc, out = sh(pre + [exe, entry], timeout=30, env=env, cwd=self.tmp)
                if 'WARNING: ThreadSanitizer' in out:
                    o = 'fail'
                    break
                if 'ESX-' in out:
                    break
        os.unlink(f)
        return o, out

    @staticmethod
    def outcome(rc):
        if rc == 0:
            return 'ok'
        if rc in (3, 4, 6):
            return 'skip'
        return 'fail'

    def explore(self, h, e):
        ms = float(e.get('max_seconds', 60))
        if self.tier == 'thorough':
            ms = float(e.get('thorough_seconds', max(ms, 600)))
        ms = max(5, min(ms, self.left() - 15))
        out = os.path.join(self.tmp, '%s.%s.json' % (h.name, e['name']))
        cmd = [V + '/bin/esx', os.path.join(self.tmp, h.name + '.bc'), '--entry', 'harness_' + e['name'], '--out', out, '--repo', REPO + '/',
               '--max-seconds', str(int(ms)), '--query-ms', e.get('query_ms', '20000' if self.tier == 'quick' else '120000'),
               '--jobs', e.get('jobs', '1')]
        for k in ('max_inst', 'max_paths', 'samples', 'fork', 'preempt'):
            if k in e:
                cmd += ['--' + k.replace('_', '-'), e.get('thorough_' + k, e[k]) if self.tier == 'thorough' else e[k]]
        if h.threads and 'max_inst' not in e:
            cmd += ['--max-inst', '2000000']      # every point of a schedule is kept
        rc, log = sh(cmd, timeout=ms + 60)
        parts = [out] + sorted(glob.glob(out + '.*'))
        rs = []
        for p in parts:
            try:
                rs.append(json.load(open(p)))
            except Exception as x:
                if os.path.exists(p) or p == out:
                    rs.append({'incomplete': {'engine wrote no result (exit %d): %s' % (rc, log[-200:]): {'count': 1, 'where': ''}}})
        return h, e, merge(rs), log

    def run(self):
        hs = [Harness(p) for p in sorted(glob.glob(V + '/harness/%s.cpp' % self.pid) + glob.glob(V + '/harness/%s_*.cpp' % self.pid))]
        if self.only:
            for h in hs:
                h.entries = [e for e in h.entries if e['name'] == self.only]
            hs = [h for h in hs if h.entries]
        self.hs = hs
        self.bounds = [b for h in hs for b in h.bounds]
        with cf.ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(engine)
            fail = self.compile(hs)
            f1.result()
        todo = []
        for h in hs:
            err = self.link(h, fail)
            if err:
                self.note('%s: %s' % (h.name, err))
                self.results.append((h, {'name': '*', 'cover': []}, {'incomplete': {err: {'count': 1, 'where': ''}}}))
                continue
            for e in h.entries:
                if e['tier'] in ('both', self.tier):
                    todo.append((h, e))
        todo.sort(key=lambda t: -int(t[1].get('jobs', '1')))
        self.t_ready = time.time() - T0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self.explore, h, e) for h, e in todo]
            for f in futs:
                h, e, r, log = f.result()
                self.results.append((h, e, r))
                if r.get('trylocks'):
                    h.trylocks.add(e['name'])
                if self.keep and log.strip():
                    print(log[-2000:])
        for f in self.ofuts.values():
            f.result()
        for h in {id(h): h for h, _ in todo}.values():
            self.link_native(h)
        self.known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == self.pid and k['status'] == 'known']
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda t: self.judge(*t), self.results))

    def judge(self, h, e, r):
        seen = {}
        for v in r.get('violations', []):
            key = (v['kind'], v['msg'], v['where'] if v['kind'] != 'assert' else '')
            if seen.get(key) == 'done' or seen.get(key, 0) == 5:
                continue
            o, text = self.replay(h, e['name'], v['inputs'], v['kind'])
            rec = {'harness': h.name, 'entry': e['name'], 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'].replace(V, '').replace(self.tmp, ''),
                   'trylocks': e['name'] in h.trylocks, 'stack': v['stack'], 'inputs': v['inputs'], 'native': text[-1500:]}
            if o == 'fail':
                seen[key] = 'done'
                self.report(rec)
            else:
                seen[key] = seen.get(key, 0) + 1
                self.unconfirmed.append({k: rec[k] for k in ('harness', 'entry', 'kind', 'msg', 'where', 'inputs')} | {'native': o + ': ' + text[-300:]})
        for s in r.get('samples', []):
            if self.left() < 5:
                break
            o, text = self.replay(h, e['name'], s['inputs'])
            if o == 'fail' and not (self.undefined.get(h.name) and 'ESX-VIOLATED' not in text):
                self.report({'harness': h.name, 'entry': e['name'], 'kind': 'native', 'msg': 'a solver-chosen input fails in the native build', 'where': '', 'stack': '', 'trylocks': e['name'] in h.trylocks,
                             'inputs': s['inputs'], 'native': text[-1500:]})
                continue
            obs = [l.split(' ') for l in text.splitlines() if l.startswith('ESX-OBS ')]
            obs = [[' '.join(x[1:-1]), x[-1]] for x in obs]
            if o == 'ok' and obs == [[a, b] for a, b in s.get('obs', [])]:
                self.validated += 1
                if len(self.samples) < 12:
                    self.samples.append({'entry': e['name'], 'inputs': s['inputs'][:24], 'observed': obs[:24]})
            elif o != 'skip' or True:
                self.mismatches.append({'entry': e['name'], 'inputs': s['inputs'], 'predicted': s.get('obs'), 'native': o + ' ' + text[-400:]})

    def report(self, rec):
        for k in self.known:
            if k['entry'] == rec['entry'] and re.search(k['match'], rec['native']) and (not k.get('inputs') or matches(k['inputs'], rec['inputs'])):
                if k['what'] not in self.known_hit:
                    self.known_hit.append(k['what'])
                return
        self.violations.append(rec)

    def finish(self):
        tot = merge([r for _, _, r in self.results], over_entries=True)
        missing = []
        for h, e, r in self.results:
            for c in e['cover']:
                if c not in r.get('covers', {}):
                    missing.append('%s: %s' % (e['name'], c))
        ev = V + '/evidence'
        os.makedirs(ev, exist_ok=True)
        for what in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        shown = {}
        vout = []
        for i, rec in enumerate(self.violations):
            key = (rec['entry'], rec['kind'], rec['msg'])
            if key in shown:
                continue
            shown[key] = 1
            d = '%s/replay' % ev
            os.makedirs(d, exist_ok=True)
            p = '%s/%s_%d.txt' % (d, self.pid, i)
            with open(p, 'w') as f:
                f.write('# property %s  harness %s  entry %s\n# %s: %s\n# %s\n' % (self.pid, rec['harness'], rec['entry'], rec['kind'], rec['msg'], rec['where']))
                for l in rec['stack'].splitlines():
                    f.write('# ' + l + '\n')
                for l in rec['native'].splitlines():
                    f.write('# native: ' + l + '\n')
                f.write('# replay: python3 %s/replay.py %s\n' % (V, p))
                if rec['trylocks']:
                    f.write('# trylocks\n')
                for n, v in rec['inputs']:
                    f.write('%s %s\n' % (n, v))
            print('violated: %s (%s) in %s at %s' % (rec['msg'], rec['kind'], rec['entry'], rec['where']))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            vout.append({'entry': rec['entry'], 'kind': rec['kind'], 'msg': rec['msg'], 'replay': p, 'inputs': rec['inputs'][:40]})
        if missing:
            self.note('scenarios not reached: ' + '; '.join(missing))
        for k, v in sorted(tot['incomplete'].items()):
            print('INCOMPLETE: %s (%d)' % (k, v['count']))
        for u in self.unconfirmed[:5]:
            print('UNCONFIRMED: %s: %s %s (%s)' % (u['entry'], u['kind'], u['msg'], u['native'][:200].replace('\n', ' | ')))
        for m in self.mismatches[:3]:
            print('ENGINE-MISMATCH: %s predicted %s native %s' % (m['entry'], m['predicted'], m['native'][:300].replace('\n', ' | ')))
        complete = not tot['incomplete'] and not missing and not self.mismatches and not self.unconfirmed
        funcs = sorted(tot['functions'])
        cov = {
            'states': tot['paths'], 'transitions': tot['instructions'],
            'traces_validated_against_impl': self.validated, 'samples': self.samples,
            'explanation': 'states = execution paths followed to their end with symbolic inputs; transitions = LLVM instructions executed symbolically; '
                           'traces_validated_against_impl = solver-chosen inputs whose predicted observations matched the native build',
            'entries': {e['name']: {'paths': r.get('paths', 0), 'complete': r.get('complete', False), 'asserts_discharged': r.get('discharged', 0),
                                    'scenarios': r.get('covers', {}), 'wall_s': round(r.get('wall_s', 0), 2)} for h, e, r in self.results},
            'bounds': self.bounds,
            'assertions_checked': tot['asserts'], 'assertions_discharged': tot['discharged'],
            'forks': tot['forks'],
            'solver': {'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'fp_queries': tot['fp_queries'],
                       'decided_by_bit_blasting_minisat': tot['fast_queries'] - tot['order_queries'],
                       'decided_by_difference_constraints': tot['order_queries'], 'unsat_confirmed_by_z3': tot['z3_confirmed'],
                       'confirmation_timeouts': tot['z3_confirm_timeouts'], 'disagreements': tot['solver_mismatches'],
                       'external_race_queries': tot['fallback_queries'], 'seconds': round(tot['solver_s'], 3), 'longest_query_s': round(tot['max_query_s'], 3)},
            'exhausted_within_bounds': complete,
            'not_covered': {k: v for k, v in tot['incomplete'].items()},
            'scenarios_not_reached': missing,
            'unconfirmed_candidates': self.unconfirmed[:10],
            'model_native_disagreements': self.mismatches[:10],
            'functions_encoded': funcs,
            'notes': self.notes,
        }
        out = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
               'coverage': cov, 'assumptions': [a for h in self.hs for a in h.assumes], 'wall_s': round(time.time() - T0, 2), 'violations': len(vout)}
        if vout:
            cov['violations'] = vout
        json.dump(out, open('%s/%s.json' % (ev, self.pid), 'w'), indent=1)
        print('%s %s: %d paths, %d assertions (%d discharged), %d queries (%.1fs solver), %d native traces, %d repo functions, %s, %.1fs (ready %.1fs)' % (
            self.pid, self.tier, tot['paths'], tot['asserts'], tot['discharged'], tot['queries'], tot['solver_s'], self.validated, len(funcs),
            'exhausted' if complete else 'NOT exhausted', time.time() - T0, getattr(self, 't_ready', 0)))
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)
        else:
            print('kept ' + self.tmp)
        return 1 if vout else 0


def matches(spec, inputs):
    d = dict((n, int(v)) for n, v in inputs)
    return all(int(d.get(k, -1)) in (v if isinstance(v, list) else [v]) for k, v in spec.items())


SUM = ('paths', 'instructions', 'forks', 'asserts', 'discharged', 'assume_killed', 'candidates', 'queries', 'sat', 'unsat', 'unknown', 'fp_queries',
       'fallback_queries', 'fast_queries', 'order_queries', 'z3_confirmed', 'z3_confirm_timeouts', 'solver_mismatches', 'solver_s', 'trylocks')


def merge(rs, over_entries=False):
    t = {k: 0 for k in SUM}
    t.update({'max_query_s': 0, 'wall_s': 0, 'incomplete': {}, 'covers': {}, 'functions': {}, 'violations': [], 'samples': []})
    for r in rs:
        for k in SUM:
            t[k] += r.get(k, 0)
        for k in ('max_query_s', 'wall_s'):
            t[k] = max(t[k], r.get(k, 0))
        for k, v in r.get('incomplete', {}).items():
            e = t['incomplete'].setdefault(k, {'count': 0, 'where': v.get('where', '')})
            e['count'] += v.get('count', 1)
        for k, v in r.get('covers', {}).items():
            t['covers'][k] = t['covers'].get(k, 0) + v
        for k, v in r.get('functions', {}).items():
            t['functions'].setdefault(k, set()).update(v)
        t['violations'] += r.get('violations', [])
        t['samples'] += r.get('samples', [])
    if not over_entries:
        t['samples'] = t['samples'][:8]
    t['complete'] = not t['incomplete']
    return t


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        engine()
        return 0
    pid = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    only = a[a.index('--only') + 1] if '--only' in a else None
    r = Run(pid, tier if tier in ('quick', 'thorough') else 'quick', only, '--keep' in a)
    try:
        r.run()
    except Exception as x:
        import traceback
        traceback.print_exc()
        r.note('check did not finish: %s' % x)
    return r.finish()


if __name__ == '__main__':
    sys.exit(main())
