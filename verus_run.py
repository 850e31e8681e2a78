"""Extracts the functions under contract from /repo's working tree, adds the contracts of verus/contracts.py and runs Verus.

run(prop) -> dict(functions=[{name, status, obligations}], failed=[...], undecided=[...], text=verifier output)
A function whose text the translation or the Verus front end does not take is undecided, never a violation.
"""
import os, re, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'verus'))
import extract, contracts
from extract import Lost

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
SRC = os.path.join(REPO, 'cavalier_contours/src')
HEAD = '''#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case)]
use vstd::prelude::*;
use core::ops::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
broadcast use vstd::group_vstd_default;
#[verifier::external_body] pub fn unreached() requires false { unimplemented!() }
#[derive(Clone, Copy)] pub struct Vector2 { pub x: R, pub y: R }
#[derive(Clone, Copy)] pub struct PlineVertex { pub x: R, pub y: R, pub bulge: R }
#[derive(Clone, Copy)] pub struct PlineViewData { pub start_index: usize, pub end_index_offset: usize, pub updated_start: PlineVertex, pub updated_end_bulge: R, pub end_point: Vector2, pub inverted_direction: bool }
pub struct Polyline { pub vertex_data: Vec<PlineVertex>, pub is_closed: bool }
'''


def sources():
    out = {}
    for root, _, fs in os.walk(SRC):
        for n in fs:
            if n.endswith('.rs'):
                p = os.path.join(root, n)
                out[os.path.relpath(p, SRC)] = extract.strip_comments(open(p).read())
    return out


def entries(prop=None):
    """(label, contract, self type)"""
    for c in contracts.F:
        for s in c.get('selfs', [c['where'][2]]):
            yield ((s + '::' if s else '') + c['name'], c, s)


def as_assumed(sig, c):
    """the contract without the body"""
    return extract.translate(sig, ' unimplemented!() ', {k: c[k] for k in ('sig', 'requires', 'ensures') if k in c} | {'attrs': ['#[verifier::external_body]']}, '')


def emit(src, dropped, probe=False, prop=None):
    text = HEAD + open(os.path.join(HERE, 'verus/prelude.rs')).read() + contracts.SPEC
    ranges, lost = [], {}
    for label, c, s in entries():
        if label in dropped and dropped[label] == 'gone':
            continue
        file, head, _ = c['where']
        try:
            blk = src[file] if head is None else extract.block(src[file], head)
            sig, body = extract.func(blk, c['name'])
            if label in dropped or (prop and prop not in c['props']):
                # proved under its own property
                t = as_assumed(sig, c)
            else:
                t = extract.translate(sig, body, dict(c, probe=probe), s)
        except (Lost, KeyError, IndexError, ValueError, AttributeError) as e:
            lost[label] = 'extraction: %s' % (e,)
            try:
                t = as_assumed(sig, c)
            except Exception:
                continue
        if s:
            t = 'impl %s {\n%s}\n' % (s, t)
        t = '// ' + label + '\n' + t
        a = text.count('\n') + 1
        text += t
        ranges.append((a, text.count('\n') + 1, label))
    text += '}\nfn main() {}\n'
    return text, ranges, lost


def verus(path, timeout):
    t = time.time()
    try:
        p = subprocess.run(['verus', path, '--rlimit', '60', '--num-threads', '4', '--multiple-errors', '4', '--time-expanded', '--output-json'], capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired:
        return None, '', 'time limit', time.time() - t


def where(ranges, line):
    for a, b, l in ranges:
        if a <= line < b:
            return l
    return None


def messages(err, path):
    """error blocks with the lines they point to"""
    out = []
    for m in re.finditer(r'^error(\[E\d+\])?: (.*?)(?=^(?:error|warning|note: verifying)|\Z)', err, re.S | re.M):
        t = m.group(0)
        lines = [int(x) for x in re.findall(re.escape(os.path.basename(path)) + r':(\d+):', t)]
        out.append((m.group(2).split('\n')[0], lines, t))
    return out


VERIF = re.compile(r'post-?condition|pre-?condition|precondition|invariant|assertion|overflow|underflow|rlimit|decreases|recommendation|could not prove|possible|bounds|divi', re.I)


def scratch():
    return tempfile.mkdtemp(prefix='verus')


def clean(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            os.remove(p)
    try:
        os.rmdir(d)
    except OSError:
        pass


def vacuous(src, dropped, prop=None):
    """functions whose end is unreachable under their contract: their proof would say nothing"""
    d = scratch()
    path = os.path.join(d, 'probe.rs')
    try:
        text, ranges, lost = emit(src, dropped, True, prop)
        open(path, 'w').write(text)
        rc, out, err, t = verus(path, 300)
        hit = set()
        for m, lines, t in messages(err, path):
            for l in lines:
                hit.add(where(ranges, l))
        mine = {l for l, c, _ in entries() if not prop or prop in c['props']}
        return [l for a, b, l in ranges if l in mine and l not in hit and l not in dropped and l not in lost], rc is None
    finally:
        clean(d)


def run(prop=None, timeout=300, keep=None):
    src = sources()
    dropped, undecided, spent = {}, {}, 0.0
    d = scratch()
    path = os.path.join(d, 'extracted.rs')
    res = dict(functions=[], failed={}, undecided={}, text='', seconds=0.0, verified=0, ok=False)
    try:
        for attempt in range(12):
            text, ranges, lost = emit(src, dropped, False, prop)
            undecided.update({k: v for k, v in lost.items() if k not in undecided})
            open(path, 'w').write(text)
            if keep:
                open(keep, 'w').write(text)
            rc, out, err, t = verus(path, timeout)
            spent += t
            if rc is None:
                return dict(res, undecided={'*': 'time limit'}, seconds=spent)
            msgs = messages(err, path)
            front = [m for m in msgs if not VERIF.search(m[0]) and not m[0].startswith('aborting')]
            if not front:
                break
            moved = False
            for m, lines, t in front:
                for l in lines[:1]:
                    w = where(ranges, l)
                    if w and dropped.get(w) != 'gone':
                        dropped[w] = 'gone' if w in dropped else 'assumed'
                        undecided[w] = 'Verus front end: ' + m
                        moved = True
            if not moved:
                return dict(res, undecided={'*': front[0][2][:2000]}, text=err, seconds=spent)
        failed = {}
        for m, lines, t in msgs:
            if m.startswith('aborting'):
                continue
            ls = [where(ranges, l) for l in lines]
            w = ls[0] if ls and ls[0] else next((x for x in ls if x), None)
            # a precondition is reported at the callee first when it stands there: the call decides
            if re.match(r'pre-?condition', m):
                own = [x for x, l in zip(ls, lines) if x]
                w = own[0] if own else None
            if 'rlimit' in m or 'Resource limit' in m:
                undecided[w or '*'] = m
            else:
                failed.setdefault(w or '*', []).append(t)
        for w in list(failed):
            if w in undecided:
                # a solver that ran out of resources reports what it has not proved as failed
                undecided[w] += ' (with unproved obligations)'
                del failed[w]
        mm = re.search(r'"verified": (\d+)', out)
        n = int(mm.group(1)) if mm else 0
        if '*' not in failed and n:
            vac, late = vacuous(src, dropped, prop)
            for w in vac:
                if not late:
                    undecided[w] = 'vacuous: its end is unreachable under its contract'
        funs = []
        for label, c, s in entries():
            if prop and prop not in c['props']:
                continue
            st = 'failed' if label in failed else 'undecided' if label in undecided else 'verified'
            clauses = len(c.get('ensures', [])) + sum(len(l.get('inv', [])) + 1 for l in c.get('loops', {}).values())
            funs.append(dict(name=label, file=c['where'][0], status=st, reason=undecided.get(label, ''), clauses=clauses))
        mine = {f['name'] for f in funs}
        return dict(functions=funs, failed={k: v for k, v in failed.items() if k in mine or (k == '*')}, undecided={k: v for k, v in undecided.items() if k in mine or k == '*'},
                    text=err, seconds=round(spent, 2), verified=n, ok=n > 0 and '*' not in undecided)
    finally:
        clean(d)


def assumptions():
    """the mechanical scan for what is assumed"""
    t = open(os.path.join(HERE, 'verus/prelude.rs')).read() + contracts.SPEC
    return re.findall(r'external_body\][^\n]*\n?\s*(?:pub )?fn (\w+)|axiom fn (\w+)', t)


if __name__ == '__main__':
    r = run(sys.argv[1] if sys.argv[1:] else None, keep='/tmp/vt/extracted.rs')
    print(r['seconds'], r.get('verified'), r['ok'])
    for k, v in r['undecided'].items():
        print('UNDECIDED', k, v)
    for k, v in r['failed'].items():
        print('FAILED', k)
        for t in v:
            print(t[:1500])
