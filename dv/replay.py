"""Look for a failing input in the real code: builds the search programs of /verif/harness against the current source, runs the
scenarios that belong to a property, each for a bounded time. Used to replay a failed obligation against the real code, and as the
bounded stand-in for a function whose contract could not be decided. Never counted as proof."""
import os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), 'harness')

P = lambda *s: [('asan', 'pub', x) for x in s]
I = lambda *s: [('asan', 'internal', x) for x in s]
E = lambda *s: [('asan', 'exec', x) for x in s]
IO = lambda *s: [('asan', 'io', x) for x in s]
T = lambda prog, *s: [('tsan', prog, x) for x in s]

SCENARIOS = {
    'C01': P('fire', 'gate') + I('trans', 'blocked'),
    'C02': P('fire') + I('trans'),
    'C03': P('fire') + I('trans', 'blocked'),
    'C04': P('fire') + I('place', 'trans'),
    'C05': P('fire', 'wake') + I('place', 'trans', 'blocked') + E('executors'),
    'C06': P('structure', 'wake', 'turns') + I('engine', 'place'),
    'C07': P('structure') + I('place'),
    'C08': P('structure', 'fire'),
    'C09': P('structure'),
    'C10': P('structure', 'lifecycle', 'options') + I('engine'),
    'C11': P('structure') + I('place', 'trans'),
    'C12': P('structure'),
    'C13': P('structure'),
    'C14': P('sweeps', 'fire') + I('engine', 'trans'),
    'C15': E('queue', 'handoff', 'stopping', 'addstop') + T('exec', 'queue', 'addstop'),
    'C16': E('queue', 'handoff', 'stopping', 'addstop') + T('exec', 'stopping'),
    'C17': E('executors', 'queue', 'handoff', 'addstop') + P('options') + T('exec', 'executors'),
    'C18': P('options', 'inflight', 'structure') + I('place') + E('executors'),
    'C19': IO('roundtrip', 'documents'),
    'C20': IO('numerals', 'documents') + [('asan', 'convert', 'convert')],
    'C21': T('pub', 'stress', 'lifecycle', 'options', 'wake', 'gate') + T('exec', 'queue', 'stopping', 'addstop') + T('internal', 'blocked'),
    'C22': P('stress', 'lifecycle', 'options', 'wake', 'gate', 'structure') + E('queue', 'stopping', 'addstop') + I('blocked', 'trans'),
    'C23': P('lifecycle', 'turns', 'wake', 'stress'),
    'C24': P('gate', 'fire') + I('blocked', 'trans'),
    'C25': P('structure', 'lifecycle', 'options', 'wake', 'fire', 'sweeps'),
    'C26': P('structure', 'fire') + I('engine'),
}


def search(pid, repo, seed, tier):
    todo = SCENARIOS.get(pid, [])
    secs = 60 if tier == 'thorough' else 15
    out = dict(bound='%d s per scenario, seed %d' % (secs, seed), scenarios=[], failing=None, ran=False, error=None)
    d = tempfile.mkdtemp(prefix='verif-replay-')
    t0 = time.time()
    try:
        for kind in sorted({k for k, _, _ in todo}):
            progs = sorted({p for k, p, _ in todo if k == kind})
            try:
                r = subprocess.run(['bash', os.path.join(HARNESS, 'build.sh'), repo, d, kind] + progs, capture_output=True, text=True, timeout=240)
                if r.returncode:
                    out['error'] = ((out['error'] or '') + r.stdout)[-1500:]
            except subprocess.TimeoutExpired:
                out['error'] = 'building the search programs took too long'
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='halt_on_error=1:report_thread_leaks=0:exitcode=66',
                   UBSAN_OPTIONS='halt_on_error=1')

        def run(job):
            kind, prog, scen = job
            exe = os.path.join(d, kind, prog)
            if not os.path.exists(exe):
                return dict(scenario='%s %s (%s)' % (prog, scen, kind), result='not built')
            w = os.path.join(d, 'run-%s-%s-%s' % job)
            os.makedirs(w)
            try:
                r = subprocess.run([exe, scen, str(seed), str(secs)], cwd=w, env=env, capture_output=True, text=True, errors='replace', timeout=secs + 90)
            except subprocess.TimeoutExpired:
                return dict(scenario='%s %s (%s)' % (prog, scen, kind), result='no end in time')
            res = dict(scenario='%s %s (%s)' % (prog, scen, kind), result=r.stdout[-6000:].strip(), code=r.returncode)
            if r.returncode == 3:
                res['stderr'] = r.stderr[:4000]
            return res
        with ThreadPoolExecutor(6) as pool:
            out['scenarios'] = list(pool.map(run, todo))
        for s in out['scenarios']:
            if s.get('code') in (0, 3):
                out['ran'] = True
            if s.get('code') == 3 and not out['failing']:
                out['failing'] = s['scenario'] + ': ' + s['result']
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out['secs'] = round(time.time() - t0, 1)
    return out


if __name__ == '__main__':
    import json
    for p in sys.argv[1:] or sorted(SCENARIOS):
        r = search(p, os.environ.get('VERIF_REPO', '/repo'), int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'))
        print(p, 'FAILING ' + r['failing'] if r['failing'] else 'ok', r['ran'], r['secs'], r['error'], [s for s in r['scenarios'] if s.get('code') != 0])
