"""Runs the contracts of a harness crate under Kani and replays what fails."""
import json, os, re
from common import *

CATS_UNDECIDED = ('unwind', 'unsupported_construct', 'recursion')


class Result:
    def __init__(self):
        self.harnesses = []       # names decided
        self.obligations = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.undecided = []       # (harness, reason)
        self.failed = []          # (harness, [descriptions])
        self.functions = {}       # /repo functions with obligations in them -> count
        self.error = None
        self.cmd = ''
        self.version = ''


def crate_env():
    return dict(CARGO_TARGET_DIR=os.path.join(BUILD, 'kani'))


def verify(crate, harnesses, jobs=8, timeout=600, harness_timeout=240):
    r = Result()
    out = os.path.join(BUILD, 'kani-%d.json' % os.getpid())
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = ['cargo', 'kani', '--lib', '-j', str(jobs), '--output-format', 'terse', '-Z', 'unstable-options',
           '--harness-timeout', '%ds' % harness_timeout, '--export-json', out]
    for h in harnesses:
        cmd += ['--harness', 'harness::' + h]
    r.cmd = 'cd %s && %s' % (crate, ' '.join(cmd))
    p = run(cmd, cwd=crate, timeout=timeout, **crate_env())
    if not os.path.exists(out):
        r.error = 'kani produced no result (rc %s%s):\n%s' % (p.rc, ', timeout' if p.timed_out else '', p.out[-4000:])
        return r
    d = json.load(open(out))
    os.remove(out)
    r.version = 'Kani %s, %s' % (d['tools']['kani'], d['tools']['cbmc'])
    for c in d.get('cbmc', []):
        st = (c.get('cbmc_stats') or {})
        r.solver_s += (st.get('runtime_decision_procedure_s') or 0) + (st.get('runtime_solver_s') or 0) * 0
    want = set(harnesses)
    for res in d['verification_results']['results']:
        name = res['harness_id'].split('::')[-1]
        if name not in want:
            continue
        want.discard(name)
        checks = res.get('checks') or []
        bad, undecided, covered, n = [], [], 0, 0
        for c in checks:
            if c['category'] == 'cover':
                covered += c['status'].lower() == 'satisfied'
                continue
            if c['status'] == 'Unreachable':
                continue
            n += 1
            if c['status'] == 'Success':
                fn = c['function']
                if '/repo/' in str(c['location'].get('file', '')):
                    r.functions[fn] = r.functions.get(fn, 0) + 1
            elif c['status'] in ('Failure', 'Failed'):
                (undecided if c['category'] in CATS_UNDECIDED else bad).append(
                    '%s [%s] in %s at %s:%s' % (c['description'], c['category'], c['function'],
                                               c['location'].get('file'), c['location'].get('line')))
        r.obligations += n
        r.harnesses.append(name)
        if res['status'] == 'Success' and covered and n:
            r.discharged += n
        elif undecided or not checks:
            r.undecided.append((name, '; '.join(undecided[:3]) or 'no answer (timeout or out of memory)'))
        elif bad:
            r.discharged += n - len(bad)
            r.failed.append((name, bad))
        else:
            r.undecided.append((name, 'vacuous: the end of the harness is unreachable' if not covered else 'status ' + res['status']))
    for name in want:
        r.undecided.append((name, 'harness not run'))
    return r


def counterexample(crate, harness, timeout=300):
    """Concrete values of the failing trace, one hex string per drawn value."""
    cmd = ['cargo', 'kani', '--lib', '--output-format', 'regular', '--harness', 'harness::' + harness,
           '-Z', 'concrete-playback', '--concrete-playback=print']
    p = run(cmd, cwd=crate, timeout=timeout, **crate_env())
    # several unit tests may be printed (one per failing check, and one per cover)
    tests = []
    for block in re.split(r'Concrete playback unit test for', p.out)[1:]:
        m = re.search(r'vec!\[(.*?)\];\s*kani::concrete_playback_run', block, re.S)
        if not m:
            continue
        vals = [''.join('%02x' % int(x) for x in v.split(',') if x.strip())
                for v in re.findall(r'vec!\[([0-9, ]*)\]', m.group(1))]
        tests.append(vals)
    return tests, p.out
