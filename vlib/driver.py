"""Runs one property's jobs through the symbolic executor, replays counterexamples natively and writes evidence."""
import shutil
import fnmatch, importlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B

BASE_TUS = ['RipTide.cpp', 'MathWorker.cpp', 'MathThreads.cpp', 'Array.cpp', 'Recycler.cpp', 'TypeSystem.cpp', 'interrupt.cpp', 'BasicMath.cpp',
            'SDSFilePython.cpp', 'SharedMemory.cpp', 'Hook.cpp']
MEM_KINDS = {'oob', 'null', 'uaf', 'doublefree', 'memory', 'badfree'}


class Job:
    def __init__(self, id, func, *args, timeout=None, weight=1):
        self.id, self.func, self.args, self.timeout, self.weight = id, func, [int(a) for a in args], timeout, weight


def load(prop):
    sys.path.insert(0, B.ROOT)
    return importlib.import_module('checks.' + prop)


class Run:
    def __init__(self, prop, tier, seed, args):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = load(prop)
        self.t0 = time.time()
        self.args = args
        self.work = os.path.join(B.BUILD, 'run-%s-%d' % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        import shutil
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def prepare(self, alltus=False):
        self.S = B.Sources()
        B_tus = [t for t in dict.fromkeys(BASE_TUS + list(self.mod.TUS)) if t in self.S.tus]
        self.tus = list(self.S.tus) if alltus else B_tus
        srcdir = self.S.materialise()
        errs = []
        out = {}

        def eng():
            out['eng'] = B.engine()

        def repo():
            out['repo'] = B.compile_tus(self.S, self.tus)

        def aux():
            rt = ['fakepy.cpp', 'libc.cpp'] + list(getattr(self.mod, 'RT', ['threads.cpp']))
            out['aux'] = [B.compile_aux(os.path.join(B.ROOT, 'rt', f), srcdir=srcdir) for f in rt]
            out['aux'] += [B.compile_aux(os.path.join(B.ROOT, 'harness', h), srcdir=srcdir) for h in self.mod.HARNESS]

        ths = []
        for fn in (eng, repo, aux):
            def go(fn=fn):
                try:
                    fn()
                except Exception as e:
                    errs.append(str(e))
            t = threading.Thread(target=go)
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if errs:
            raise RuntimeError('\n'.join(errs))
        self.built = out

    def native_start(self):
        """Native replay binary, built in the background."""
        self.native = None
        self.native_err = None

        def go():
            try:
                self.native = self.build_native()
            except Exception as e:
                self.native_err = str(e)
        self.nt = threading.Thread(target=go)
        self.nt.start()

    def build_native(self):
        srcdir = self.S.materialise()
        objs = list(B.compile_tus(self.S, self.tus, native=True).values())
        rt = ['fakepy.cpp', 'native.cpp'] + list(getattr(self.mod, 'NATIVE_RT', ['threads.cpp']))
        objs += [B.compile_aux(os.path.join(B.ROOT, 'rt', f), native=True, srcdir=srcdir) for f in rt]
        objs += [B.compile_aux(os.path.join(B.ROOT, 'harness', h), native=True, srcdir=srcdir) for h in self.mod.HARNESS]
        out = os.path.join(self.work, 'native')
        link = ['g++', '-pthread'] + objs + ['-o', out, '-ldl', '-Wl,--no-demangle', '-Wl,--warn-unresolved-symbols', '-rdynamic']
        r = B.sh(link)
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
        if und:
            st = os.path.join(self.work, 'stubs.s')
            with open(st, 'w') as f:
                for u in und:
                    data = not u.startswith('_Z') and (u.startswith('g_') or u.startswith('gp')) or u.startswith('_ZT') or (
                        u.startswith('_ZN') and u.endswith('E'))
                    f.write('.globl %s\n%s:\n%s\n' % (u, u, '.zero 4096' if data else 'jmp rt_missing') if not data else '')
                f.write('.data\n')
                for u in und:
                    data = not u.startswith('_Z') and (u.startswith('g_') or u.startswith('gp')) or u.startswith('_ZT') or (
                        u.startswith('_ZN') and u.endswith('E'))
                    if data:
                        f.write('.globl %s\n.balign 64\n%s:\n.zero 4096\n' % (u, u))
                f.write('.section .note.GNU-stack,"",@progbits\n')
            r = B.sh(link + [st])
        if r.returncode or not os.path.exists(out):
            raise RuntimeError('native link failed\n' + r.stdout[-3000:])
        return out

    # ---------------------------------------------------------------- engine
    def run_engine(self, jobs, budget, par=8, tag='a', extra=()):
        jf = os.path.join(self.work, 'jobs-' + tag)
        of = os.path.join(self.work, 'out-' + tag)
        dflt = getattr(self.mod, 'JOB_TIMEOUT', {'quick': 60, 'thorough': 600})[self.tier]
        with open(jf, 'w') as f:
            for j in jobs:
                f.write('%s|%s|%s|%s\n' % (j.id, j.func, ','.join(map(str, j.args)), j.timeout or dflt))
        cmd = [self.built['eng']]
        for a in self.built['aux']:
            cmd += ['--aux', a]
        for t, p in self.built['repo'].items():
            cmd += ['--repo', p]
        cmd += ['--init', 'rt_init', '--jobs', jf, '--out', of, '--par', str(par), '--samples', str(getattr(self.mod, 'SAMPLES', 2))]
        cmd += [str(x) for x in getattr(self.mod, 'ENGINE_ARGS', [])] + list(extra)
        if self.args.get('verbose'):
            print(' '.join(cmd))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        res = None
        try:
            res, _ = p.communicate(timeout=budget)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            res, _ = p.communicate()
        out = []
        if os.path.exists(of):
            for line in open(of):
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
        if os.path.exists(of):
            shutil.copy(of, os.path.join(B.BUILD, 'last-%s-%s' % (self.prop, tag)))
        if p.returncode not in (0, -9):
            self.log('engine exit %s: %s' % (p.returncode, (res or '')[-1500:]))
            if not out:
                raise RuntimeError('engine failed: ' + (res or '')[-1500:])
        return out

    # ---------------------------------------------------------------- native replay
    def replay(self, func, args, vals, want_obs=None):
        """Run natively; returns list of (mode, rc, stdout)."""
        rp = os.path.join(self.work, 'replay-%d' % threading.get_ident())
        with open(rp, 'w') as f:
            for k, v in vals.items():
                f.write('%s %s\n' % (k, v))
        res = []
        modes = [('end', '0x5a'), ('slack', '0xff'), ('end', '0x00'), ('start', '0x01'), ('end', '0xff'), ('slack', '0x80')]
        for m, fill in modes:
            env = dict(os.environ, RT_MODE=m, RT_FILL=fill)
            env.pop('RT_NEW_HASH', None)
            try:
                r = subprocess.run([self.native, func, rp] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=120,
                                   cwd=self.work)
                res.append((m, r.returncode, r.stdout.decode('latin1')))
            except subprocess.TimeoutExpired:
                res.append((m, 124, 'timeout'))
            if want_obs is not None:
                break
            if res[-1][1] not in (0, 12, 13):
                break
        return res

    def known(self):
        p = os.path.join(B.ROOT, 'known-findings.json')
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get('property') == self.prop and k.get('status') == 'known']

    def main(self):
        quick = self.tier == 'quick'
        budget = self.args.get('budget') or getattr(self.mod, 'BUDGET', {'quick': 240, 'thorough': 7200})[self.tier]
        rc = 0
        try:
            self.prepare()
        except RuntimeError as e:
            self.log('build failed', e)
            return 2
        self.log('built engine and bitcode of', len(self.tus), 'translation units')
        jobs = self.mod.jobs(self.tier, self.seed)
        if self.args.get('only'):
            jobs = [j for j in jobs if fnmatch.fnmatch(j.id, self.args['only'])]
        byid = {j.id: j for j in jobs}
        jobs = list(byid.values())
        if not self.args.get('nonative'):
            self.native_start()
        res = self.run_engine(jobs, budget)
        self.log('engine finished: %d of %d jobs reported' % (len(res), len(jobs)))
        missing = self.missing_external(res)
        if missing and len(self.tus) < len(self.S.tus):
            self.log('code reaches functions outside the expected translation units; building all of them:', missing[:4])
            if not self.args.get('nonative'):
                self.nt.join()
            self.prepare(alltus=True)
            redo = [byid[i] for i in missing if i in byid]
            if not self.args.get('nonative'):
                self.native_start()
            res2 = self.run_engine(redo, budget, tag='b')
            ok = {r['id'] for r in res2}
            res = [r for r in res if r['id'] not in ok] + res2
        return self.finish(jobs, byid, res)

    def missing_external(self, res):
        ids = []
        for r in res:
            for p in r.get('problems', {}):
                if p.startswith('external function') or p.startswith('call through') or 'null function' in p:
                    ids.append(r['id'])
                    break
            else:
                for v in r.get('violations', []):
                    if v['kind'] in ('call', 'badcall') or 'function pointer' in v.get('msg', ''):
                        ids.append(r['id'])
                        break
        return ids

    def finish(self, jobs, byid, res):
        got = {r['id']: r for r in res}
        viol, notrep = [], []
        known = self.known()
        knownhit = {}
        validated, mismatched, samples = 0, [], []
        if not self.args.get('nonative'):
            self.nt.join()
            if self.native_err:
                self.log('native build failed', self.native_err[-1500:])
        cand = []
        for r in res:
            for v in r.get('violations', []):
                cand.append((byid[r['id']], v))
        # replay counterexamples, at most a few per job and 40 in total
        seen = {}
        nrep = 0
        for j, v in cand:
            key = (j.id, v['kind'], v['msg'])
            if seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            if nrep >= (60 if not self.args.get('nonative') else 5000):
                break
            nrep += 1
            kf = self.match_known(known, j, v)
            if not getattr(self, 'native', None):
                if self.args.get('nonative'):
                    viol.append((j, v, 'not replayed', None))
                continue
            if getattr(self.mod, 'NO_REPLAY', False):
                rep = self.mod.replay(self, j, v)
            else:
                rep = self.replay(j.func, j.args, v['vals'])
            bad = [x for x in rep if x[1] not in (0, 12, 13)]
            if not bad:
                notrep.append({'job': j.id, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'modes': [(m, c) for m, c, _ in rep]})
                continue
            m, code, outp = bad[0]
            if kf:
                knownhit.setdefault(kf['id'], (kf, j, v))
                continue
            viol.append((j, v, '%s exit %d: %s' % (m, code, outp.strip()[-300:]), None))
            if len(viol) >= 5:
                break
        # sampled paths: same observations natively and in the executor
        if getattr(self, 'native', None):
            todo = []
            for r in res:
                if r.get('violations') or getattr(self.mod, 'NO_VALIDATE', False):
                    continue
                for s in r.get('samples', [])[:2]:
                    todo.append((byid[r['id']], s))
            lim = 60 if self.tier == 'quick' else 600
            step = max(1, len(todo) // lim)
            todo = todo[::step][:lim]

            def val(t):
                j, s = t
                rep = self.replay(j.func, j.args, s['vals'], want_obs=s.get('obs'))
                m, code, outp = rep[0]
                return j, s, code, outp

            with ThreadPoolExecutor(8) as ex:
                for j, s, code, outp in ex.map(val, todo):
                    got_obs = [l[4:] for l in outp.splitlines() if l.startswith('OBS ')]
                    want = [o if isinstance(o, str) else '%s %s' % tuple(o) for o in self.obslines(s.get('obs', []))]
                    if code == 0 and self.same_obs(got_obs, want):
                        validated += 1
                    else:
                        mismatched.append({'job': j.id, 'exit': code, 'vals': s['vals'], 'native': got_obs[:20], 'executor': want[:20], 'out': outp[-200:]})
        for r in res:
            for s in r.get('samples', [])[:1]:
                if len(samples) < 8 and (not samples or r['id'].split('/')[0] != samples[-1]['job'].split('/')[0]):
                    samples.append({'job': r['id'], 'function': byid[r['id']].func, 'arguments': byid[r['id']].args,
                                    'inputs': dict(list(s['vals'].items())[:24])})
        complete = [r for r in res if r.get('complete') and r.get('reach')]
        declined = [r['id'] for r in complete if list(r['reach']) == ['declined']]
        vac = [r['id'] for r in res if r.get('complete') and not r.get('reach') and not r.get('violations')]
        inc = [r for r in res if not r.get('complete')]
        not_run = [j.id for j in jobs if j.id not in got]
        tot = lambda k: sum(r.get(k, 0) or 0 for r in res)
        funcs = sorted({f for r in res for f in r.get('functions', [])})
        problems = {}
        for r in res:
            for p, c in r.get('problems', {}).items():
                problems.setdefault(p, []).append(r['id'])
        cov = {
            'states': tot('paths') + tot('errpaths') + tot('forks'),
            'transitions': tot('steps'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'none'}],
            'method': 'symbolic execution of the LLVM IR of /repo/src (clang -O1), every branch condition and assertion decided by Z3 (bit-vectors and IEEE floats)',
            'bounds': self.mod.BOUNDS[self.tier] if isinstance(self.mod.BOUNDS, dict) else self.mod.BOUNDS,
            'outside_the_bounds': self.mod.OUTSIDE,
            'jobs': len(jobs), 'jobs_fully_explored': len(complete), 'jobs_incomplete': len(inc) + len(not_run),
            'jobs_declined_by_the_implementation_on_every_path': len(declined),
            'jobs_with_no_witness': vac[:40],
            'paths': tot('paths'), 'paths_cut_as_unsupported': tot('unsupported'), 'paths_left_unexplored': tot('left'),
            'assertions_checked': tot('asserts'), 'assertions_decided_by_simplification': tot('trivial'), 'assertions_proved_by_solver': tot('proved'),
            'assertions_undecided': tot('undecided'), 'memory_bounds_checks_by_solver': tot('memchecks'),
            'solver_queries': tot('queries'), 'query_cache_hits': tot('cache'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
            'solver_seconds': round(tot('solver_s'), 2),
            'functions_encoded': funcs[:400], 'functions_encoded_count': len(funcs),
            'incomplete_jobs': [{'job': r['id'], 'why': 'time limit' if r.get('timeout') else ('crash' if r.get('crashed') else 'unsupported or undecided'),
                                 'paths_done': r.get('paths', 0), 'problems': list(r.get('problems', {}))[:3]} for r in inc][:80],
            'jobs_not_started': not_run[:80],
            'counterexamples_not_reproduced_natively': notrep[:20],
            'native_validation_mismatches': mismatched[:10],
        }
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
            'assumptions': list(getattr(self.mod, 'ASSUMPTIONS', [])) + [
                'The CPython and NumPy C API are replaced by a small model with the real object layouts (rt/fakepy.cpp).',
                'Logging is replaced by no-ops; malloc does not fail; the heap gives every allocation its own address range.',
            ],
            'wall_s': round(time.time() - self.t0, 1), 'violations': len(viol),
        }
        os.makedirs(os.path.join(B.ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(B.ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log('jobs %d complete %d incomplete %d vacuous %d; paths %d; assertions %d (%d by solver, %d undecided); queries %d, solver %.1fs; validated %d, mismatched %d' % (
            len(jobs), len(complete), len(inc) + len(not_run), len(vac), tot('paths'), tot('asserts'), tot('proved'), tot('undecided'), tot('queries'),
            tot('solver_s'), validated, len(mismatched)))
        if self.args.get('verbose') or self.args.get('report'):
            for r in inc:
                print('  incomplete', r['id'], 'timeout' if r.get('timeout') else '', 'paths', r.get('paths'), 'left', r.get('left'), list(r.get('problems', {}).items())[:3],
                      'crashed' if r.get('crashed') else '')
            if not_run:
                print('  not run', len(not_run), not_run[:10])
            for p, ids in problems.items():
                print('  problem', p, len(ids), ids[:3])
            if declined:
                print('  declined', len(declined), ' '.join(declined[:10]))
            for v in vac[:10]:
                print('  no witness', v)
            for m in mismatched[:3]:
                print('  mismatch', json.dumps(m)[:1500])
            for n in notrep[:10]:
                print('  not reproduced', n)
            slow = sorted(res, key=lambda r: -r.get('wall_s', 0))[:5]
            grp = {}
            for r in res:
                g = r['id'].split('/')[0]
                grp[g] = grp.get(g, 0) + (r.get('wall_s') or 0)
            print('  by group', sorted(((round(x, 1), g) for g, x in grp.items()), reverse=True)[:12], 'total', round(sum(grp.values())))
            print('  slowest', [(r['id'], round(r.get('wall_s', 0), 1)) for r in slow])
        for kid, (kf, j, v) in knownhit.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, kf['what']))
        if self.args.get('nonative'):
            grp = {}
            for j, v, how, _ in viol:
                grp.setdefault((v['kind'], v['msg'], v['where'][-100:]), []).append(j.id)
            for k, ids in grp.items():
                print('  violation', k, len(ids), ' '.join(ids[:40]))
            viol = viol[:3]
        for i, (j, v, how, _) in enumerate(viol):
            rp = os.path.join(B.BUILD, 'replays')
            os.makedirs(rp, exist_ok=True)
            p = os.path.join(rp, '%s-%d.replay' % (self.prop, i))
            with open(p, 'w') as f:
                f.write('# property %s\n# job %s function %s arguments %s\n# %s: %s\n# at %s\n# native run: %s\n' % (
                    self.prop, j.id, j.func, ' '.join(map(str, j.args)), v['kind'], v['msg'], v['where'], how.replace('\n', ' / ')))
                for k, x in v['vals'].items():
                    f.write('%s %s\n' % (k, x))
            print('counterexample: job %s: %s: %s at %s; native: %s' % (j.id, v['kind'], v['msg'], v['where'][:200], how.replace('\n', ' / ')[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1 if viol else 0

    def match_known(self, known, j, v):
        for k in known:
            if fnmatch.fnmatch(j.id, k['job']) and re.search(k['message'], v['kind'] + ': ' + v['msg']):
                cond = k.get('where')
                if cond and not re.search(cond, v['where']):
                    continue
                return k
        return None

    @staticmethod
    def obslines(obs):
        return ['%s[%d] %s' % (o[0], i, x) for o in obs for i, x in enumerate(o[1:])]

    @staticmethod
    def same_obs(a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if y.endswith(' uninit'):
                continue
            if x != y and not Run.both_nan(x, y):
                return False
        return True

    @staticmethod
    def both_nan(x, y):
        (nx, _, vx), (ny, _, vy) = x.rpartition(' '), y.rpartition(' ')
        if nx != ny:
            return False
        try:
            a, b = int(vx, 16), int(vy, 16)
        except ValueError:
            return False
        f32 = lambda v: v < 1 << 32 and (v & 0x7fffffff) > 0x7f800000
        f64 = lambda v: (v & (1 << 63) - 1) > 0x7ff << 52
        return f32(a) and f32(b) or f64(a) and f64(b)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--nonative', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--report', action='store_true')
    a = ap.parse_args(argv)
    r = Run(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), vars(a))
    try:
        return r.main()
    except RuntimeError as e:
        print('check error:', e)
        return 2
    finally:
        r.cleanup()
