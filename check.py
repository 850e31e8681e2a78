#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

  1. builds the verification condition generator together with /repo's crates
  2. proves the contracts of the property (obligations discharged for all real inputs)
  3. evaluates the same contracts and the bounded ones on the real code at f64
  4. runs the Kani harnesses of the property
A refuted obligation is replayed on the real code; see DESIGN.md for the outcome policy.
"""
import hashlib, json, os, resource, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, TRUSTED  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    TIER = 'thorough'
DEEP = TIER == 'thorough'
BIN = os.path.join(HERE, 'sym', 'target', 'release', 'cavc-sym')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.85.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(HERE, 'sym'), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('building the contracts against /repo failed:\n' + r.stdout[-4000:])


class Abnormal(Exception):
    """the code under test did not return"""

    def __init__(self, why, marks):
        super().__init__(why)
        self.why = why
        self.marks = marks


def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_marked(cmd, timeout, gb=24, abnormal=None):
    """output of cmd; Abnormal with the inputs under evaluation when it dies or does not end"""
    fd, mark = tempfile.mkstemp(prefix='cavc-mark-')
    os.close(fd)
    try:
        why = None
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                               env=dict(os.environ, MARK=mark), preexec_fn=limit(gb))
            if r.returncode < 0 or r.returncode in (99, 101, 134, 139):
                why = 'does not return' if r.returncode == 99 else 'ends the process (%d) %s' % (r.returncode, r.stderr[-300:])
        except subprocess.TimeoutExpired:
            why = 'does not return'
        if why:
            raise Abnormal(why, [l.strip() for l in open(mark, errors='replace').read().replace('\0', '').split('\n') if l.strip()])
        return r
    finally:
        os.unlink(mark)


def run(args, timeout):
    """runs the generator and returns its JSON lines"""
    r = run_marked([BIN] + args, timeout)
    out = []
    for l in r.stdout.splitlines():
        if l.startswith('{'):
            out.append(json.loads(l))
    if r.returncode != 0:
        raise CheckError('%s exited with %d: %s' % (' '.join(args[:3]), r.returncode, r.stderr[-2000:]))
    return out


def fmt_inputs(d):
    return ['%s=%r' % (k, v) for k, v in d.items()]


def replay(contract, inputs):
    r = run(['replay', contract] + fmt_inputs(inputs), 120)
    return r[0] if r else {'result': 'none'}


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.plan = PLAN[pid]
        self.violations = []   # (path, suffix)
        self.known = []
        self.n = 0
        self.proofs = []
        self.searches = []
        self.kani = None
        self.notes = []
        self.verus = None
        self.ffi = None
        self.gap = None

    def write_replay(self, data):
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        self.n += 1
        p = os.path.join(HERE, 'replays', '%s-%d.json' % (self.pid, self.n))
        data['property'] = self.pid
        with open(p, 'w') as f:
            json.dump(data, f, indent=1)
        return p

    def violation(self, data, found):
        p = self.write_replay(data)
        self.violations.append((p, found))

    # ---- proofs
    def prove(self):
        names = self.plan.get('prove', []) + (self.plan.get('thorough', []) if DEEP else [])
        if not names:
            return
        total = self.plan.get('total', 90) * (8 if DEEP else 1)
        args = ['prove'] + names + ['--total', str(total), '--budget', str(total), '--seed', str(SEED)]
        if DEEP:
            args += ['--deep', '--obl', '60000']
        try:
            self.proofs = run(args, total + 150)
        except Abnormal as e:
            # the verification conditions could not be generated: the evaluation below decides
            self.gap = 'generating the verification conditions of %s: %s' % (' '.join(names), e.why)
            return
        got = {p['contract'] for p in self.proofs}
        for n in names:
            if n not in got:
                raise CheckError('no result for contract ' + n)
        for p in self.proofs:
            if p['paths'] == 0 or not p['posts']:
                # everything undecided is not vacuity; nothing generated at all is
                if p['complete'] or not p['undecided_paths']:
                    raise CheckError('contract %s generated no obligations (vacuous)' % p['contract'])
            for q in p['posts']:
                if q['nrefuted'] or q['refuted']:
                    self.refuted(p, q)

    def refuted(self, p, q):
        # replay each model on the real code
        for m in q['refuted']:
            r = replay(p['contract'], m['inputs'])
            if r.get('result') == 'failed':
                self.violation({'kind': 'refuted obligation, failing input replayed at f64', 'contract': p['contract'],
                                'obligation': q['label'], 'failed': r['failed'], 'inputs': r['inputs'],
                                'replay_cmd': replay_cmd(p['contract'], r['inputs'])}, True)
                return
        if q['nrefuted']:
            # the model is exact over the reals but does not fail at f64
            s = run(['search', p['contract'], '--n', '300000', '--budget', '20', '--seed', str(SEED + 17)], 200)
            for f in s[0]['failures']:
                if any(x['post'] == q['label'] for x in f['failed']):
                    self.violation({'kind': 'refuted obligation, failing input found at f64', 'contract': p['contract'],
                                    'obligation': q['label'], 'failed': f['failed'], 'inputs': f['inputs'],
                                    'replay_cmd': replay_cmd(p['contract'], f['inputs'])}, True)
                    return
            self.violation({'kind': 'refuted obligation', 'contract': p['contract'], 'obligation': q['label'],
                            'solver_models': q['refuted'], 'note': 'the obligation is false over the reals; the models do not fail at f64'}, False)

    # ---- evaluation on the real code
    def search(self, times=1, budget=None):
        plan = self.plan.get('search', {})
        if not plan:
            return
        proved = {}
        for p in self.proofs:
            for q in p['posts']:
                proved[(p['contract'], q['label'])] = p['complete'] and q['discharged'] == q['total']
        for n in sorted(set(plan.values())):
            names = [c for c in plan if plan[c] == n]
            k = n * times * (12 if DEEP else 1)
            budget = budget or self.plan.get('search_s', 25) * (12 if DEEP else 1)
            try:
                res = run(['search'] + names + ['--n', str(k), '--budget', str(max(3, budget / len(names))), '--seed', str(SEED + times - 1)], budget * 4 + 200)
            except Abnormal as e:
                self.abnormal(e)
                continue
            for s in res:
                self.searches.append(s)
                if s['held'] == 0 and s['failed'] == 0:
                    raise CheckError('no input of %s satisfied its precondition (vacuous)' % s['contract'])
                for f in s['failures']:
                    bad = [x for x in f['failed'] if not self.tolerable(s['contract'], x, proved)]
                    if not bad:
                        continue
                    if self.is_known(s['contract'], f):
                        continue
                    self.violation({'kind': 'contract evaluated on the real code', 'contract': s['contract'], 'failed': bad, 'inputs': f['inputs'],
                                    'replay_cmd': replay_cmd(s['contract'], f['inputs'])}, True)
                    break

    def abnormal(self, e):
        """finds the input on which the code does not return"""
        for m in e.marks:
            name, seed = m.split()
            try:
                run_marked([BIN, 'replay', name, '--seed', seed], 25, 4)
            except Abnormal as x:
                self.violation({'kind': 'the code does not return', 'contract': name, 'failed': [{'post': x.why}],
                                'replay_cmd': 'sym/target/release/cavc-sym replay %s --seed %s' % (name, seed)}, True)
                return
        raise CheckError('the evaluation ended abnormally (%s) and no input reproduces it: %s' % (e.why, e.marks))

    def tolerable(self, c, x, proved):
        """rounding at f64 of an obligation proved over the reals"""
        if 'panic' in x['post']:
            return False
        m = x['margin']
        return isinstance(m, float) and m >= -1e-4 and proved.get((c, x['post']), False)

    def is_known(self, c, f):
        for k in known_findings():
            if k['property'] == self.pid and k['key'] == finding_key(c, f):
                self.known.append(k)
                return True
        return False

    # ---- histories of the C interface
    def run_ffi(self):
        plan = self.plan.get('ffi')
        if not plan:
            return
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(HERE, 'ffi'), env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError('building the call histories against /repo failed:\n' + r.stdout[-4000:])
        b = os.path.join(HERE, 'ffi', 'target', 'release', 'cavc-ffi-check')
        n = plan * (12 if DEEP else 1)
        a = [b, '--seed', str(SEED), '--n', str(n), '--len', '40']
        try:
            r = run_marked(a, 300 * (6 if DEEP else 1))
        except Abnormal as e:
            i = e.marks[0] if e.marks else '0'
            try:
                run_marked(a + ['--only', i], 30, 4)
            except Abnormal as x:
                self.violation({'kind': 'a call history does not return', 'failed': [{'post': x.why}],
                                'replay_cmd': 'TRACE=1 ffi/target/release/' + ' '.join(os.path.basename(y) for y in a) + ' --only ' + i}, True)
                return
            raise CheckError('the call histories ended abnormally (%s), history %s alone does not' % (e.why, i))
        if r.returncode != 0:
            raise CheckError('call histories: ' + r.stderr[-2000:])
        self.ffi = json.loads(r.stdout.splitlines()[-1])
        if not self.ffi['calls']:
            raise CheckError('no call was made (vacuous)')
        for f in self.ffi['failed']:
            if f['property'] == self.pid:
                self.violation({'kind': 'contract evaluated on a call history', 'failed': [f],
                                'replay_cmd': 'ffi/target/release/' + ' '.join(os.path.basename(y) for y in a) + ' --only %d' % f['history']}, True)
                break

    # ---- kani
    def run_kani(self):
        hs = self.plan.get('kani', [])
        if DEEP:
            hs = hs + self.plan.get('kani_thorough', [])
        if not hs:
            return
        import kani_run
        self.kani = kani_run.run(hs, self.plan.get('kani_s', 240) * (6 if DEEP else 1))
        for name, r in self.kani['harnesses'].items():
            if r['status'] == 'failed':
                self.violation({'kind': 'kani harness', 'harness': name, 'failed_checks': r['failed'], 'output': r['tail'], 'inputs': r.get('concrete')}, bool(r.get('concrete')))
            elif r['status'] == 'error':
                raise CheckError('kani harness %s: %s' % (name, r['tail'][-1500:]))

    # ---- verus
    def run_verus(self):
        import verus_run
        if not any(self.pid in c['props'] for c in verus_run.contracts.F):
            return
        v = self.verus = verus_run.run(self.pid)
        if not v['ok']:
            log('NOTE verus decided nothing:', str(v['undecided'])[:300])
        for k, t in v['undecided'].items():
            log('NOTE verus undecided:', k, t[:200])
        if v['failed'] and not any(f for _, f in self.violations):
            self.search(10, 60)
        for k, t in v['failed'].items():
            self.violation({'kind': 'a function no longer verifies against its contract (Verus)', 'function': k, 'verifier_output': [x[:4000] for x in t],
                            'replay_cmd': 'python3 verus_run.py'}, False)

    # ---- evidence
    def evidence(self):
        ob = dis = und = 0
        fns = set()
        for p in self.proofs:
            for q in p['posts']:
                ob += q['total']
                dis += q['discharged']
                und += q['undecided']
        ev = sum(s['tried'] for s in self.searches)
        held = sum(s['held'] for s in self.searches)
        if self.ffi:
            ev += sum(self.ffi['calls'].values())
            held += sum(self.ffi['calls'].values())
        info = {c['contract']: c for c in run(['list'], 60)}
        contracts = []
        for p in self.proofs:
            i = info[p['contract']]
            fns.update(x.strip() for x in i['covers'].split(','))
            contracts.append({'contract': p['contract'], 'functions': i['covers'], 'bound': i['bound'] or 'none: all real inputs',
                              'paths': p['paths'], 'complete': p['complete'], 'undecided_paths': p['undecided_paths'],
                              'obligations': sum(q['total'] for q in p['posts']), 'discharged': sum(q['discharged'] for q in p['posts']),
                              'solver_ms': p['solver_ms'], 'by_back_end': p['stats'],
                              'posts': [{'label': q['label'], 'total': q['total'], 'discharged': q['discharged'], 'witnessed_paths': q['covered']} for q in p['posts']]})
        stand_ins = [{'contract': s['contract'], 'functions': info[s['contract']]['covers'], 'bound': info[s['contract']]['bound'],
                      'bounded': True, 'tried': s['tried'], 'precondition_held': s['held'], 'failed': s['failed']} for s in self.searches]
        cov = {
            'functions_under_contract': sorted(fns),
            'contracts': contracts,
            'bounded_evaluation': stand_ins,
            'evaluations': ev,
            'distinct_nontrivial': held,
            'generation_gap': self.gap or '',
            'rule': 'pseudo random inputs of each contract, biased to grid and boundary values; non-trivial: the precondition of the contract held',
            'samples': [x for s in self.searches for x in s['samples'][:1]][:4],
        }
        if self.ffi:
            cov['call_histories'] = {'histories': self.ffi['histories'], 'calls': self.ffi['calls'], 'bounded': True}
            cov['functions_under_contract'] = sorted(set(cov['functions_under_contract']) | set(self.ffi['calls']))
            cov['samples'] = cov['samples'] or ['history %d: %s' % (i, 'ffi/target/release/cavc-ffi-check --seed %d --len 40 --only %d' % (SEED, i)) for i in range(3)]
        if self.kani:
            ob += self.kani['obligations']
            dis += self.kani['discharged']
            cov['kani'] = {k: {'status': v['status'], 'checks': v['checks'], 'time_s': v['time_s'], 'bound': v.get('bound')} for k, v in self.kani['harnesses'].items()}
            cov['kani_undecided'] = [k for k, v in self.kani['harnesses'].items() if v['status'] == 'undecided']
        if self.verus:
            ob += sum(f['clauses'] for f in self.verus['functions'])
            dis += sum(f['clauses'] for f in self.verus['functions'] if f['status'] == 'verified')
            cov['verus'] = {'functions': self.verus['functions'], 'queries_verified': self.verus['verified'], 'seconds': self.verus['seconds'], 'decided': self.verus['ok'],
                            'assumed_contracts': verus_assumed(), 'bound': 'none: polylines of any length'}
            cov['functions_under_contract'] = sorted(set(cov['functions_under_contract']) | {f['name'] for f in self.verus['functions'] if f['status'] == 'verified'})
        cov.update({'obligations': ob, 'discharged': dis, 'undecided': und,
                    'checker_cmd': 'python3 check.py ' + self.pid,
                    'trusted_base': TRUSTED + self.plan.get('trusted', []),
                    'explanation': self.plan['note']})
        e = {'property': self.pid, 'tier': 'thorough' if DEEP else 'quick', 'seed': SEED, 'level': self.plan['level'], 'coverage': cov,
             'wall_s': round(time.time() - T0, 2), 'assumptions': TRUSTED + self.plan.get('trusted', []), 'violations': len(self.violations)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(e, f, indent=1)


def verus_assumed():
    import verus_run
    return [a or b for a, b in verus_run.assumptions()]


def replay_cmd(c, i):
    return 'sym/target/release/cavc-sym replay %s %s' % (c, ' '.join(fmt_inputs(i)))


def finding_key(c, f):
    return c + ':' + hashlib.sha1(json.dumps(sorted(f['inputs'].items())).encode()).hexdigest()[:16]


def known_findings():
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('finding: '):
            w = l[9:].split(' ', 2)
            out.append({'property': w[0].split('=')[1], 'key': w[1].split('=', 1)[1], 'what': w[2]})
    return out


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        build()
        c.prove()
        log('proofs', round(time.time() - T0, 1))
        c.search()
        log('search', round(time.time() - T0, 1))
        c.run_ffi()
        c.run_kani()
        c.run_verus()
        if c.gap:
            log('NOTE', c.gap)
        c.evidence()
    except CheckError as e:
        log('ERROR', e)
        # a violation that was already established stands
        if not c.violations:
            sys.exit(3)
    except (Abnormal, subprocess.TimeoutExpired) as e:
        log('ERROR', e)
        if not c.violations:
            sys.exit(3)
    for k in known_findings():
        if k['property'] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if c.violations:
        # failing inputs first
        c.violations.sort(key=lambda v: not v[1])
        for p, found in c.violations[:10]:
            print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if found else ' no-failing-input-found'))
            if found:
                break
        sys.exit(1)
    print('property %s held (%.0f s)' % (pid, time.time() - T0))
    sys.exit(0)


main()
