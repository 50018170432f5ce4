#!/usr/bin/env python3
"""run_check.py <property> quick|thorough  |  run_check.py --replay <file>

Compiles the harness programs of one property from /repo's current tree, runs their exhaustive
explorations, confirms any violation by running it again, and writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2/3: the check itself failed.
"""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from programs import PROPERTIES, Prog  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
INC = os.path.join(REPO, 'include')
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 8

SAN = ['-fsanitize=address,undefined', '-fsanitize-recover=address,undefined']
COMMON = ['-std=c++20', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS']


def tree_hash():
    h = hashlib.sha256()
    for base in (INC, os.path.join(HERE, 'harness'), os.path.join(REPO, 'test')):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, '/').encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def compile_cmd(p, out):
    c = [p.compiler] + COMMON + ['-O%s' % p.opt]
    if p.san:
        c += SAN if p.san is True else ['-fsanitize=' + p.san, '-fsanitize-recover=' + p.san]
    c += ['-I' + INC, '-I' + os.path.join(HERE, 'harness')] + p.flags
    c += [os.path.join(HERE, 'harness', p.src), '-o', out]
    return c


LOCKS = collections.defaultdict(threading.Lock)


def build(p, th):
    key = hashlib.sha256((th + repr(compile_cmd(p, ''))).encode()).hexdigest()[:24]
    with LOCKS[key]:
        return build_locked(p, os.path.join(BUILD, key))


def build_locked(p, out):
    if os.path.exists(out):
        return out, '', 0.0
    t0 = time.time()
    tmp = out + '.tmp%d' % os.getpid()
    try:
        r = subprocess.run(compile_cmd(p, tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    except subprocess.TimeoutExpired:
        return None, 'compiler timed out', time.time() - t0
    txt = r.stdout.decode(errors='replace')
    if r.returncode != 0:
        return None, txt, time.time() - t0
    os.replace(tmp, out)
    return out, txt, time.time() - t0


def run(binary, args, timeout):
    env = dict(os.environ)
    env.pop('ASAN_OPTIONS', None)
    env.pop('UBSAN_OPTIONS', None)
    t0 = time.time()
    try:
        r = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        rc, txt = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, txt = 124, (e.stdout or b'').decode(errors='replace')
    res = {'rc': rc, 'wall': time.time() - t0, 'violation': None, 'summary': None, 'findings': [], 'tail': txt[-2000:]}
    for line in txt.splitlines():
        if line.startswith('RESULT '):
            try:
                d = json.loads(line[7:])
            except ValueError:
                continue
            if d['kind'] == 'violation' and res['violation'] is None:
                res['violation'] = d
            elif d['kind'] == 'summary':
                res['summary'] = d
            elif d['kind'] == 'internal':
                res['internal'] = d
            elif d['kind'] == 'finding':
                res['findings'].append(d)
    return res


def headers_ok():
    """Do the library's own headers still compile on their own?"""
    src = os.path.join(BUILD, 'headers_%d.cpp' % os.getpid())
    with open(src, 'w') as f:
        for h in ('fixed_vector', 'fixed_deque', 'fixed_list', 'fixed_map', 'fixed_set', 'fixed_unordered_map',
                  'fixed_unordered_set', 'fixed_string', 'enum_map', 'enum_set', 'enum_array',
                  'fixed_circular_deque', 'fixed_circular_queue', 'fixed_queue', 'fixed_stack'):
            f.write('#include "fixed_containers/%s.hpp"\n' % h)
        f.write('int main(){}\n')
    r = subprocess.run(['clang++'] + COMMON + ['-I' + INC, '-fsyntax-only', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.remove(src)
    return r.returncode == 0


def say(*a):
    print(*a, flush=True)


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            d = json.load(f)
        os.makedirs(BUILD, exist_ok=True)
        p = Prog(**d['program'])
        b, txt, _ = build(p, tree_hash())
        if b is None:
            print(txt[-4000:])
            print('does not compile')
            return 1
        r = run(b, d['args'], 900)
        print(r['tail'])
        return r['rc'] or (1 if r['findings'] and 'id' in d['violation'] else 0)
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    # keep the build cache small
    olds = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD))
    for _, f in olds[:-400]:
        try:
            os.remove(os.path.join(BUILD, f))
        except OSError:
            pass
    spec = PROPERTIES[prop]
    mask, progs = spec['mask'], spec[tier]
    th = tree_hash()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    state = {'viol': None, 'err': None}
    runs, found = [], []
    with open(os.path.join(HERE, 'KNOWN_FINDINGS')) as f:
        known = set(re.findall(r'^known: property=(\S+) id=(\S+)', f.read(), re.M))

    def one(p):
        if state['viol'] or (state['err'] and time.time() - t0 > 300):
            return
        b, txt, ct = build(p, th)
        if b is None:
            if re.search(r'\berror:', txt) and 'internal compiler error' not in txt and 'PLEASE submit a bug' not in txt:
                state.setdefault('compile', []).append((p, txt))
            else:
                state['err'] = 'cannot build %s:\n%s' % (p.name, txt[-3000:])
            return
        args = list(p.args) + (['--mask', str(mask if p.mask is None else p.mask)] if p.takes_mask else [])
        r = run(b, args, p.timeout)
        if r['rc'] == 124 and time.time() - t0 < (60 if tier == 'quick' else 3600):  # run alone with a longer limit before giving up on it
            r = run(b, args, 2 * p.timeout)
        if r['rc'] == 0 and r['summary'] is not None:
            for f in r['findings']:
                if (prop, f['id']) in known:
                    found.append(f)
                else:
                    r2 = run(b, args, p.timeout)
                    if f['id'] in [g['id'] for g in r2['findings']] and state['viol'] is None:
                        state['viol'] = (p, dict(f, op=f['id']), args, 'full deterministic exploration', r)
                    return
            runs.append((p, r, ct))
            return
        if r['rc'] == 1 and r['violation'] is not None:
            v = r['violation']
            rargs, how = args, 'full deterministic exploration'
            tr = v.get('trace')
            confirmed = None
            if isinstance(tr, dict) and 'ops' in tr:
                ra = ['--root', str(tr.get('root', 0)), '--replay', ','.join(map(str, tr['ops'])) or '-1'] + args
                r2 = run(b, ra, p.timeout)
                if r2['rc'] == 1 and r2['violation'] is not None:
                    confirmed, rargs, how = r2, ra, 'operation sequence replayed on a fresh object'
            if confirmed is None:
                r2 = run(b, args, p.timeout)
                if r2['rc'] == 1 and r2['violation'] is not None and r2['violation']['msg'] == v['msg']:
                    confirmed = r2
            if confirmed is None:
                state['err'] = 'violation of %s in %s did not reproduce: %s' % (prop, p.name, v)
                return
            if state['viol'] is None:
                state['viol'] = (p, v, rargs, how, r)
            return
        state['err'] = 'program %s ended with %s: %s %s' % (p.name, r['rc'], r.get('internal'), r['tail'][-1500:])

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, progs))

    if state.get('compile') and not state['viol']:
        p, txt = state['compile'][0]
        if headers_ok():
            state['viol'] = (p, {'msg': 'the public API no longer compiles for this use', 'op': '', 'compile_log': txt[-6000:]}, [], 'compile again', {'wall': 0})
        else:
            state['err'] = 'the library headers do not compile:\n' + txt[-3000:]

    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'oracle_evaluations': 0,
           'state_pairs': 0, 'misuse_transitions': 0, 'programs': [], 'samples': []}
    exhaustive = True
    for p, r, ct in runs:
        s = r['summary']
        cov['states'] += s['states']
        cov['transitions'] += s['transitions']
        cov['oracle_evaluations'] += s['checks']
        cov['state_pairs'] += s['pairs']
        cov['misuse_transitions'] += s['misuse']
        cov['traces_validated_against_impl'] += s.get('paths', s['transitions'])
        closed = s.get('runs', 0) == s.get('closed', 0) or s.get('enumerated', 0) > 0
        exhaustive = exhaustive and closed
        e = {k: v for k, v in s.items() if k not in ('kind', 'rc')}
        e['args'] = p.args
        e['bounds_fully_explored'] = bool(closed)
        e['wall_s'] = round(r['wall'], 2)
        e['compile_s'] = round(ct, 2)
        cov['programs'].append(e)
        if s.get('sample'):
            cov['samples'].append(s['sample'])
    cov['samples'] = cov['samples'][:12] or [e['program'] for e in cov['programs'][:5]]
    cov['exhaustive'] = exhaustive and bool(runs)
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
           'assumptions': spec.get('assumptions', []) + [
               'operations, argument domains, capacities and element types outside of the listed alphabets are not covered',
               'clang 18 / libstdc++ 13 on x86-64'],
           'wall_s': round(time.time() - t0, 2), 'violations': 1 if state['viol'] else 0}
    if found:
        cov['known_findings'] = sorted(f['id'] for f in found)
    rc = 0
    for f in sorted(found, key=lambda f: f['id']):
        say('KNOWN-FINDING: property=%s %s: %s' % (prop, f['id'], f['msg']))
    if state['viol']:
        p, v, rargs, how, r = state['viol']
        rp = os.path.join(ev_dir, 'replay', '%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'program': p.to_dict(), 'args': rargs, 'confirmed_by': how, 'violation': v,
                       'how': 'python3 /verif/run_check.py --replay <this file>'}, f, indent=1)
        cov['samples'] = [v]
        say('%s: %s' % (p.name, v['msg']))
        if isinstance(v.get('trace'), dict):
            say('  trace: %s | %s' % (v['trace'].get('root_name', ''), ' ; '.join(v['trace'].get('names', []))))
        say('  at: %s' % v.get('op'))
        say('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif state['err']:
        say('CHECK ERROR: ' + state['err'])
        rc = 2
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    if rc == 0:
        say('OK property=%s tier=%s programs=%d states=%d transitions=%d checks=%d wall=%.1fs' %
            (prop, tier, len(runs), cov['states'], cov['transitions'], cov['oracle_evaluations'], time.time() - t0))
        pr = [(p.name, r['summary'].get('prune_reason')) for p, r, _ in runs if r['summary'].get('pruned')]
        for n, why in pr[:5]:
            say('  note: %s pruned branches after a divergence outside of this property: %s' % (n, why))
    return rc


if __name__ == '__main__':
    sys.exit(main())
