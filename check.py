#!/usr/bin/env python3
"""Decides one property by bounded symbolic execution of the code in /repo.

    check.py C01 [--tier quick|thorough] [--only HARNESS[,HARNESS]] [--keep]

Every run compiles /repo/oct (path dependency of /verif/harness) with the Kani
compiler, hands the resulting goto programs to CBMC, and lets its SAT solver
decide every assertion, panic, arithmetic check and memory access of the
property's harnesses for all inputs within their bounds. A counterexample is
replayed natively (dev, release, Miri) before it is reported.

Exit status: 0 held; 1 violated (VIOLATION line); 2 no answer.
"""

import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
# Harness crates and the crates that run them natively: against /repo's crate
# as it is, and against /repo's crate with the modelled `std::sync` of sync/vstd.
CRATES = dict(main=('harness', 'replay'), sync=('sync/harness', 'sync/replay'))
USES = dict(C18=('main', 'sync'), C21=('sync',))
JOBS = 8
MEM = 14 << 30

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_RUSTFLAGS',
          'CARGO_ENCODED_RUSTFLAGS', 'KANIFLAGS', 'RUST_BACKTRACE'):
    ENV.pop(k, None)
NATIVE_ENV = dict(ENV, RUSTUP_TOOLCHAIN='stable')
MIRI_ENV = dict(ENV, RUSTUP_TOOLCHAIN='nightly', MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks')

# Descriptions of checks that a tolerated panic never has: these are
# undefined behaviour or arithmetic errors, not clean panics.
NOT_A_PANIC = re.compile(r'^attempt to |unsafe precondition|undefined behavio|unreachable_unchecked|dereference failure|misaligned')


def log(*a):
    print(*a, flush=True)


class Runner:
    def __init__(self, prop, tier, only, keep):
        self.prop, self.tier, self.only, self.keep = prop, tier, only, keep
        self.mod = prop.lower()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.start = time.time()
        self.budget = 820 if tier == 'quick' else 6 * 3600
        self.htimeout = 400 if tier == 'quick' else 5400
        self.work = tempfile.mkdtemp(prefix='oct-verif-')
        self.lock = threading.Lock()
        self.procs = set()
        self.features = [self.mod] + (['thorough'] if tier == 'thorough' else [])
        self.native_bin = {}
        self.crates = USES.get(prop, ('main',))

    def dir(self, crate):
        return os.path.join(ROOT, CRATES[crate][0])

    def replay_dir(self, crate):
        return os.path.join(ROOT, CRATES[crate][1])

    # -- processes -------------------------------------------------------

    def left(self):
        return max(5, self.budget - (time.time() - self.start))

    def run(self, cmd, env, timeout, cwd, mem=MEM):
        def pre():
            os.setsid()
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors='replace', preexec_fn=pre)
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = 'timeout'
        finally:
            with self.lock:
                self.procs.discard(p)
        return rc, out

    def cleanup(self):
        with self.lock:
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        if self.keep:
            log('kept', self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)

    # -- builds ----------------------------------------------------------

    def build_native(self, crate, profile):
        """The replay binary for `profile` (dev, release), or None."""
        key = crate, profile
        if key not in self.native_bin:
            tgt = os.path.join(self.work, 'native-' + crate)
            cmd = ['cargo', 'build', '--offline', '--target-dir', tgt]
            if profile == 'release':
                cmd.append('--release')
            if self.tier == 'thorough':
                cmd += ['--features', 'thorough']
            rc, out = self.run(cmd, NATIVE_ENV, min(self.left(), 400), self.replay_dir(crate), mem=0)
            path = os.path.join(tgt, 'debug' if profile == 'dev' else 'release', 'replay')
            if rc != 0:
                log('native build (%s, %s) failed:\n%s' % (crate, profile, out[max(0, out.find('\nerror')):][:4000]))
                path = None
            self.native_bin[key] = path
        return self.native_bin[key]

    def build_base(self, crate):
        base = os.path.join(self.work, 'base-' + crate)
        rc, out = self.run(['cargo', 'kani', '--target-dir', base, '--only-codegen', '--harness', 'no::such::harness'],
                           ENV, min(self.left(), 600), self.dir(crate))
        if 'error' in out and 'could not compile' in out:
            log(out[max(0, out.find('\nerror')):][:4000])
            return None
        return base

    def harnesses(self, crate):
        """This property's harnesses in `crate`, from the native registry."""
        path = self.build_native(crate, 'dev')
        if not path:
            return None
        out = subprocess.run([path, 'list'], capture_output=True, text=True).stdout
        res = {}
        for line in out.splitlines():
            name, q, t, doc = line.split('\t')
            name = name.split('::', 1)[1]
            if name.split('::')[0] == self.mod:
                res[name] = dict(unwind=int(t if self.tier == 'thorough' else q), doc=doc, crate=crate)
        if self.only:
            res = {k: v for k, v in res.items() if k.split('::', 1)[1] in self.only}
        return res

    # -- Kani ------------------------------------------------------------

    def kani(self, crate, target, names, extra=(), timeout=None, htimeout=None):
        """Runs Kani on `names`; returns (results, log)."""
        out_json = os.path.join(target, 'result-%d.json' % time.time_ns())
        cmd = ['cargo', 'kani', '--target-dir', target, '--features', ','.join(self.features), '--exact',
               '-Z', 'unstable-options', '-Z', 'stubbing', '--export-json', out_json,
               '--harness-timeout', '%ds' % (htimeout or self.htimeout)]
        for n in names:
            cmd += ['--harness', n]
        cmd += list(extra)
        rc, out = self.run(cmd, ENV, timeout or self.left(), self.dir(crate))
        res = {}
        try:
            data = json.load(open(out_json))
            stats = {c['harness_id']: c['cbmc_stats'] for c in data.get('cbmc') or [] if c.get('cbmc_stats')}
            for r in data['verification_results']['results']:
                res[r['harness_id']] = dict(status=r['status'], ms=r['duration_ms'], checks=r['checks'],
                                            stats=stats.get(r['harness_id'], {}))
        except (OSError, ValueError, KeyError):
            pass
        return res, out, rc

    def group(self, names, weights, n):
        bins = [[0, []] for _ in range(n)]
        for h in sorted(names, key=lambda h: -weights.get(h, 4)):
            b = min(bins, key=lambda b: b[0])
            b[0] += weights.get(h, 4) + 0.8
            b[1].append(h)
        return [b[1] for b in bins if b[1]]

    def target(self, crate, i):
        t = os.path.join(self.work, 'k-%s-%d' % (crate, i))
        if not os.path.isdir(t):
            shutil.copytree(os.path.join(self.work, 'base-' + crate), t, symlinks=True)
        return t

    def verify(self, hs):
        try:
            weights = json.load(open(os.path.join(ROOT, 'weights.json'))).get(self.tier, {})
        except (OSError, ValueError):
            weights = {}
        total = sum(weights.get(h, 4) for h in hs)
        groups = []
        for c in self.crates:
            mine = [h for h in hs if hs[h]['crate'] == c]
            share = sum(weights.get(h, 4) for h in mine) / total
            groups += self.group(mine, weights, JOBS if len(self.crates) == 1 else max(1, round(JOBS * share)))
        results, notes = {}, {}

        def one(i):
            names = groups[i]
            crate = hs[names[0]]['crate']
            t = self.target(crate, i)
            res, out, rc = self.kani(crate, t, names)
            missing = [n for n in names if n not in res]
            if missing and len(names) > 1:
                # A crash of the compiler or of the driver takes the whole
                # group down; isolate the culprit.
                for n in missing:
                    r2, out2, _ = self.kani(crate, t, [n])
                    res.update(r2)
                    if n not in r2:
                        notes[n] = out2[-1500:]
            elif missing:
                notes[missing[0]] = out[-1500:]
            # Raise the unwinding bound where it was the only obstacle.
            for n in list(res):
                for _ in range(2):
                    bad = [c for c in res[n]['checks'] if c['status'] == 'Failure']
                    if not bad or any(c['category'] != 'unwind' for c in bad):
                        break
                    u = 2 * hs[n]['unwind'] + 4
                    r2, out2, _ = self.kani(crate, t, [n], ['--unwind', str(u)])
                    if n not in r2:
                        break
                    res[n] = r2[n]
                    hs[n]['unwind'] = u
            results.update(res)

        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, range(len(groups))))
        return results, notes

    # -- playback --------------------------------------------------------

    @staticmethod
    def parse_playback(out):
        """[(kind, description, [octets...])] in order of appearance."""
        tests = []
        kind = desc = None
        cur = None
        for line in out.splitlines():
            m = re.match(r'\s*/// Check for `([^`]*)`: "(.*)"\s*$', line)
            if m:
                kind, desc = m.group(1), m.group(2)
            if 'let concrete_vals: Vec<Vec<u8>> = vec![' in line:
                cur = []
                if line.rstrip().endswith('vec![];'):
                    tests.append((kind, desc, []))
                    cur = None
                continue
            if cur is not None:
                m = re.match(r'\s*vec!\[([0-9, ]*)\],?\s*$', line)
                if m:
                    cur.append([int(x) for x in m.group(1).split(',') if x.strip()])
                elif re.match(r'\s*\];', line):
                    tests.append((kind, desc, cur))
                    cur = None
        return tests

    def playback(self, i, name, hs):
        crate = hs[name]['crate']
        t = self.target(crate, i)
        extra = ['-Z', 'concrete-playback', '--concrete-playback=print', '--unwind', str(hs[name]['unwind'])]
        res, out, rc = self.kani(crate, t, [name], extra, timeout=min(self.left(), 900))
        return self.parse_playback(out)

    def native(self, crate, profile, name, path):
        """(reproduced, diverged, output)"""
        if profile == 'miri':
            tgt = os.path.join(self.work, 'miri-' + crate)
            text = ';'.join(l.strip() for l in open(path) if l.strip() and not l.startswith('#'))
            cmd = ['cargo', 'miri', 'run', '--offline', '--target-dir', tgt]
            if self.tier == 'thorough':
                cmd += ['--features', 'thorough']
            rc, out = self.run(cmd + ['--', 'run', name, 'inline:' + text], MIRI_ENV, min(self.left(), 300),
                               self.replay_dir(crate), mem=0)
            ub = 'Undefined Behavior' in out
            return ub or bool(re.search(r'^FAILED', out, re.M)), 'DIVERGED' in out, out
        b = self.build_native(crate, profile)
        if not b:
            return False, False, 'no binary'
        rc, out = self.run([b, 'run', name, path], NATIVE_ENV, min(self.left(), 60), self.replay_dir(crate), mem=0)
        bad = rc == 1 or (isinstance(rc, int) and rc < 0) or rc == 134
        return bad, rc == 3, out

    # -- verdict ---------------------------------------------------------

    @staticmethod
    def in_harness(c):
        f = (c.get('location') or {}).get('file') or ''
        return f.startswith(('src/', '../vstd/')) or f.startswith(ROOT + os.sep)

    def tolerated(self, name, c):
        if not name.endswith(('_mp', '_pn')):
            return False
        if self.in_harness(c) or c['category'] != 'assertion':
            return False
        return not NOT_A_PANIC.search(c['description'])

    def known(self):
        try:
            return json.load(open(os.path.join(ROOT, 'known_findings.json')))
        except (OSError, ValueError):
            return dict(findings=[])

    def main(self):
        with ThreadPoolExecutor(4) as ex:
            fb = [ex.submit(self.build_base, c) for c in self.crates]
            fh = [ex.submit(self.harnesses, c) for c in self.crates]
            fb, fh = [f.result() for f in fb], [f.result() for f in fh]
        hs, built = {}, []
        for c, base, h in zip(self.crates, fb, fh):
            if base and h is not None:
                built.append(c)
                hs.update(h)
        if not built or built[0] != self.crates[0]:
            log('NO-ANSWER: the harnesses do not build against /repo')
            return 2
        if len(built) < len(self.crates):
            # The code under test uses something that the model of the
            # standard library lacks.
            log('the harnesses with modelled locks and atomics do not build: left out')
            self.crates = built
        if not hs:
            log('NO-ANSWER: no harnesses')
            return 2
        t0 = time.time()
        log('built in %.0fs' % (t0 - self.start))
        results, notes = self.verify(hs)
        t1 = time.time()
        log('verified in %.0fs' % (t1 - t0))

        findings = {f['harness']: f for f in self.known().get('findings', []) if f['property'] == self.prop}
        failing, inconclusive, kf_lines = {}, [], []

        for n in sorted(hs):
            r = results.get(n)
            if r is None:
                inconclusive.append('%s: no result (%s)' % (n, (notes.get(n) or 'timeout or crash').strip().splitlines()[-1][:200]))
                continue
            bad = [c for c in r['checks'] if c['status'] == 'Failure']
            real = [c for c in bad if c['category'] not in ('unwind', 'unsupported_construct') and not self.tolerated(n, c)]
            hard = [c for c in bad if c['category'] in ('unwind', 'unsupported_construct')]
            tol = [c for c in bad if self.tolerated(n, c)]
            r['bad'], r['tol'] = real, tol
            if n.endswith('_kf'):
                f = findings.get(n)
                listed = [c for c in real if f and any(e in '%s [%s]' % (c['description'], c['function']) for e in f['expect'])]
                if listed:
                    kf_lines.append('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
                real = [c for c in real if c not in listed]
                r['bad'] = real
                if listed and not real:
                    continue
            if real:
                failing[n] = real
                for c in real:
                    log('failed: %s: %s [%s] %s:%s' % (n, c['description'], c['function'], (c.get('location') or {}).get('file'), (c.get('location') or {}).get('line')))
                continue
            if hard:
                inconclusive.append('%s: %s' % (n, hard[0]['description']))
                continue
            covers = [c for c in r['checks'] if c['category'] == 'cover']
            unsat = [c for c in covers if c['status'] != 'Satisfied']
            if not r['checks'] or (r['status'] != 'Success' and not bad):
                inconclusive.append('%s: %s' % (n, 'timeout, out of memory or solver error'))
            elif n.endswith('_pn'):
                if not tol:
                    inconclusive.append('%s: the required panic is unreachable' % n)
            elif unsat and not n.endswith('_kf'):
                inconclusive.append('%s: unreachable witness: %s' % (n, unsat[0]['description']))

        violations = self.confirm(failing, hs, results, inconclusive)
        validated, samples = self.witnesses(hs, results) if not violations else (0, [])

        log('replayed in %.0fs' % (time.time() - t1))
        for l in kf_lines:
            log(l)
        self.evidence(hs, results, failing, violations, inconclusive, kf_lines, validated, samples, t1 - t0)
        for n in sorted(hs):
            r = results.get(n)
            if r:
                log('  %-28s %-8s %6.1fs  %d checks' % (n, 'FAIL' if n in failing else 'ok', r['ms'] / 1000, len(r['checks'])))
        for i in inconclusive:
            log('NO-ANSWER', i)
        log('%s %s: %d harnesses, %d violations, %d without answer, %.0fs' % (self.prop, self.tier, len(hs), len(violations), len(inconclusive), time.time() - self.start))
        if violations:
            for v in violations:
                log('VIOLATION property=%s replay=%s' % (self.prop, v))
            return 1
        return 2 if inconclusive else 0

    def confirm(self, failing, hs, results, inconclusive):
        """Replays the counterexamples; returns the paths of those that reproduce."""
        if not failing:
            return []
        paths = []
        outdir = os.path.join(ROOT, 'replays')
        os.makedirs(outdir, exist_ok=True)
        order = sorted(failing, key=lambda n: results[n]['ms'])
        pool = ThreadPoolExecutor(JOBS)
        nat = [pool.submit(self.build_native, c, 'release') for c in {hs[n]['crate'] for n in failing}]
        # Harnesses named `*_nt` take no input natively.
        futs = [(n, pool.submit(lambda: [('', results[n]['bad'][0]['description'], [])]) if n.endswith('_nt') else
                 pool.submit(self.playback, i % JOBS, n, hs)) for i, n in enumerate(order[:JOBS])]
        [f.result() for f in nat]
        tested = []
        for n, f in futs:
            tests = f.result()
            descs = {c['description'] for c in failing[n]}
            # Kani prints equal traces only once, possibly as that of a witness.
            named = [t for t in tests if t[0] != 'cover' and any(t[1] in d or d in t[1] for d in descs)]
            tests = named or [(k, results[n]['bad'][0]['description'], v) for k, d, v in tests]
            uniq, seen = [], set()
            for t in tests:
                k = json.dumps(t[2])
                if k not in seen:
                    seen.add(k)
                    uniq.append(t)
            for j, (kind, desc, vals) in enumerate(uniq[:4]):
                path = os.path.join(outdir, '%s-%s-%d.txt' % (self.prop, n.replace('::', '-'), j))
                with open(path, 'w') as o:
                    o.write('# property %s, harness %s\n# failed check: %s\n' % (self.prop, n, desc))
                    o.write('# replay: cd %s && cargo run --offline%s -- run %s %s\n' % (self.replay_dir(hs[n]['crate']), ' --features thorough' if self.tier == 'thorough' else '', n, path))
                    for v in vals:
                        o.write(','.join(map(str, v)) + '\n')
                tested.append((n, desc, path))
        for profile in ('dev', 'release', 'miri'):
            done = set()
            for n, desc, path in tested:
                if n in done or any(p[0] == n for p in paths):
                    continue
                bad, div, out = self.native(hs[n]['crate'], profile, n, path)
                log('replay %s [%s]: %s -> %s' % (n, profile, desc[:100], 'reproduced' if bad else 'diverged' if div else 'held'))
                if bad:
                    with open(path, 'a') as o:
                        o.write('# reproduced natively: %s\n' % profile)
                    paths.append((n, path))
                    done.add(n)
            if paths:
                break
        for n in failing:
            if not any(p[0] == n for p in paths) and not paths:
                inconclusive.append('%s: counterexample not reproduced natively: %s' % (n, failing[n][0]['description'][:160]))
        return [p[1] for p in paths]

    def witnesses(self, hs, results):
        """Replays reachability witnesses of some harnesses natively."""
        cand = [n for n in sorted(hs) if not n.endswith(('_kf', '_pn', '_nt')) and n in results and
                any(c['category'] == 'cover' and c['status'] == 'Satisfied' for c in results[n]['checks'])]
        cand.sort(key=lambda n: results[n]['ms'])
        if self.tier == 'quick':
            cheap = [n for n in cand if results[n]['ms'] < 5000][:12] or cand[:1]
            k = min(3, len(cheap))
            off = self.seed % len(cheap) if cheap else 0
            cand = [cheap[(off + i) % len(cheap)] for i in range(k)]
        if self.left() < 120 or not cand:
            return 0, []
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda x: self.playback(x[0] % JOBS, x[1], hs) if len(cand) <= JOBS else [], enumerate(cand))) \
                if len(cand) <= JOBS else self.sequential_playback(ex, cand, hs)
        ok, samples = 0, []
        for n, tests in zip(cand, res):
            for j, (kind, desc, vals) in enumerate(t for t in tests if t[0] == 'cover'):
                path = os.path.join(self.work, 'w-%s-%d.txt' % (n.replace('::', '-'), j))
                with open(path, 'w') as o:
                    for v in vals:
                        o.write(','.join(map(str, v)) + '\n')
                bad, div, out = self.native(hs[n]['crate'], 'dev', n, path)
                # The trace of a witness ends where the witness is reached.
                if not bad and ('COVERED ' + desc) in out:
                    ok += 1
                    if len(samples) < 6:
                        samples.append(dict(harness=n, witness=desc, values=vals[:40]))
                else:
                    log('witness of %s does not replay: %s: %s' % (n, desc, out[-300:].strip()))
        return ok, samples

    def sequential_playback(self, ex, cand, hs):
        res = [None] * len(cand)

        def worker(i):
            for k in range(i, len(cand), JOBS):
                res[k] = self.playback(i, cand[k], hs)
        list(ex.map(worker, range(JOBS)))
        return [r or [] for r in res]

    def evidence(self, hs, results, failing, violations, inconclusive, kf, validated, samples, wall):
        fns, total, ok, unreach, covers = set(), 0, 0, 0, 0
        size = vccs = 0
        solver = symex = 0.0
        table = []
        for n in sorted(hs):
            r = results.get(n)
            if not r:
                continue
            c_ok = 0
            for c in r['checks']:
                f = (c.get('location') or {}).get('file') or ''
                f = os.path.normpath(os.path.join(self.dir(hs[n]['crate']), f))
                if f.startswith('/repo/'):
                    fns.add(c['function'])
                if c['category'] == 'cover':
                    covers += c['status'] == 'Satisfied'
                    continue
                total += 1
                if c['status'] == 'Success':
                    ok += 1
                    c_ok += 1
                elif c['status'] == 'Unreachable':
                    unreach += 1
            s = r['stats']
            size += s.get('size_program_expression') or 0
            vccs += s.get('vccs_generated') or 0
            solver += s.get('runtime_decision_procedure_s') or 0
            symex += s.get('runtime_symex_s') or 0
            table.append(dict(harness=n, covers_types=hs[n]['doc'], unwind=hs[n]['unwind'], seconds=round(r['ms'] / 1000, 2),
                              verdict='violated' if n in failing else 'held', checks_proved=c_ok))
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
            coverage=dict(
                states=size, transitions=vccs, traces_validated_against_impl=validated, samples=samples,
                explanation='Bounded symbolic execution (Kani/CBMC). states = SSA steps of the encoded program expression, '
                            'transitions = verification conditions generated from them, both summed over the harnesses of this run; '
                            'traces_validated_against_impl = solver-made reachability witnesses that took the same path in the natively '
                            'compiled code. Every check of every harness is decided by the SAT solver for all inputs within the bounds.',
                harnesses=table, checks_total=total, checks_proved=ok, checks_unreachable=unreach,
                reachability_witnesses_satisfied=covers, functions_encoded=sorted(fns), functions_encoded_count=len(fns),
                solver_seconds=round(solver, 3), symbolic_execution_seconds=round(symex, 3), verification_wall_s=round(wall, 1),
                no_answer=inconclusive, known_findings=kf),
            assumptions=['Kani/CBMC model the dev profile on x86_64-unknown-linux-gnu with the Kani toolchain\'s standard library',
                         'loops are unrolled to the stated unwind bound per harness, with unwinding assertions on',
                         'allocation never fails; ' + ('threads are an environment that may store arbitrary values at every access of a '
                         'lock or atomic (sync/vstd); weak memory is not modelled' if 'sync' in self.crates else 'threads are not modelled'),
                         'nothing is claimed for sizes, lengths or element types beyond those named per harness'],
            wall_s=round(time.time() - self.start, 1), violations=len(violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        if not self.only:
            with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as o:
                json.dump(ev, o, indent=1)
        else:
            with open('/tmp/ev-%s.json' % self.prop, 'w') as o:
                json.dump(ev, o, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    r = Runner(a.property, a.tier, set(a.only.split(',')) if a.only else None, a.keep)
    signal.signal(signal.SIGTERM, lambda *_: (r.cleanup(), os._exit(2)))
    try:
        rc = r.main()
    finally:
        r.cleanup()
    sys.exit(rc)


if __name__ == '__main__':
    main()
