"""Runs Kani proof harnesses of kani/ on /repo's current tree; counterexamples are replayed natively."""
import os, re, shutil, signal, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, 'kani')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(k, None)
BOUNDS = {
    'index::iterators_bounded': 'at most 5 vertexes (the step harnesses have no bound)',
    'ffi::vertex_access': '2 vertexes with any coordinates, any position',
    'ffi::vertex_remove': '2 vertexes with any coordinates, any position',
    'ffi::list_ownership': 'a list of 2 polylines, any position',
    'ffi::clone_independent': 'one vertex with any coordinates',
}


def call(args, timeout, cwd=CRATE, env=None):
    p = subprocess.Popen(args, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def kani(hs, timeout, hooks):
    a = ['cargo', 'kani', '--target-dir', os.path.join(CRATE, 'target')] + (['--features', 'hooks'] if hooks else [])
    for h in hs:
        a += ['--harness', h]
    return call(a + ['--exact', '-j', '8', '--output-format', 'terse'], timeout)


def parse(out):
    """thread blocks -> harness results"""
    cur, res = {}, {}
    block, thread = [], None

    def close():
        t = '\n'.join(block)
        h = cur.get(thread)
        m = re.search(r'VERIFICATION:- (\w+)', t)
        if h and m:
            s = re.search(r'\*\* (\d+) of (\d+) failed', t)
            d = re.search(r'Verification Time: ([\d.]+)', t)
            res[h] = {'status': 'ok' if m.group(1) == 'SUCCESSFUL' else 'failed', 'checks': int(s.group(2)) if s else 0, 'nfailed': int(s.group(1)) if s else 0,
                      'time_s': float(d.group(1)) if d else 0.0, 'failed': re.findall(r'Failed Checks: (.*)', t), 'tail': t[-3000:]}

    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): ?)?(?:Checking harness (\S+?)\.\.\.)?(.*)$', l)
        if l.startswith('Thread ') or l.startswith('Checking harness'):
            close()
            block, thread = [], m.group(1) or '0'
            if m.group(2):
                cur[thread] = m.group(2)
        else:
            block.append(l)
    close()
    return res


def replay(h, hooks, timeout):
    """counterexample of the harness run natively against the real code"""
    d = tempfile.mkdtemp(prefix='cavc-kani-')
    try:
        c = os.path.join(d, 'kani')
        shutil.copytree(CRATE, c, ignore=shutil.ignore_patterns('target'))
        f = ['--features', 'hooks'] if hooks else []
        _, out = call(['cargo', 'kani', '--target-dir', os.path.join(CRATE, 'target')] + f + ['--harness', h, '--exact', '--output-format', 'terse',
                      '-Z', 'concrete-playback', '--concrete-playback=print'], timeout)
        tests = re.findall(r'```\n(.*?)```', out, re.S)
        if not tests:
            return None
        mod = os.path.join(c, 'src', h.split('::')[0] + '.rs')
        if h.count('::') > 1:   # inside a macro generated module
            tests = [t.replace(', ' + h.split('::')[-1] + ')', ', ' + '::'.join(h.split('::')[1:]) + ')') for t in tests]
        with open(mod, 'a') as w:
            w.write('\n' + '\n'.join(tests))
        if h.count('::') > 1:
            s = open(mod).read().replace('            fn ' + h.split('::')[-1] + '()', '            pub fn ' + h.split('::')[-1] + '()')
            open(mod, 'w').write(s)
        rc, o = call(['cargo', 'kani', 'playback', '-Z', 'concrete-playback'] + f + ['--', 'kani_concrete_playback'], timeout, cwd=c, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(d, 'target')))
        ran = re.search(r'test result: FAILED', o)
        if ran or (rc and re.search(r'signal: \d+', o)):
            return {'tests': tests[:3], 'output': o[-2000:]}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(hs, timeout):
    t0 = time.time()
    hooks, gap = True, None
    rc, out = kani(hs, timeout, True)
    res = parse(out)
    if not res and rc not in (0, None):
        # the hooks do not fit this tree: everything that needs no hook is still decided
        hooks, gap = False, out[-1500:]
        rest = [h for h in hs if not h.startswith('iter::')]
        if rest:
            rc, out = kani(rest, timeout, False)
            res = parse(out)
    r = {}
    for h in hs:
        x = res.get(h)
        if x is None:
            st = 'undecided' if rc is None or (not hooks and h.startswith('iter::')) else 'error'
            x = {'status': st, 'checks': 0, 'nfailed': 0, 'time_s': 0.0, 'failed': [], 'tail': (gap or '') + out[-1500:]}
        elif x['status'] == 'failed':
            real = [f for f in x['failed'] if 'unwinding assertion' not in f and 'unsupported' not in f]
            if not real:
                x['status'] = 'undecided'
            else:
                x['failed'] = real
                x['concrete'] = replay(h, hooks, 200)
        x['bound'] = BOUNDS.get(h)
        r[h] = x
    return {'obligations': sum(x['checks'] for x in r.values()), 'discharged': sum(x['checks'] - x['nfailed'] for x in r.values() if x['status'] == 'ok'),
            'harnesses': r, 'hooks': hooks, 'wall_s': round(time.time() - t0, 1)}
