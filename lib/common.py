"""Shared plumbing of the checks: environment, evidence, verdicts."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
T0 = time.time()


def env(**extra):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
    e.setdefault('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e.update({k: str(v) for k, v in extra.items()})
    return e


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Run:
    def __init__(self, rc, out, wall, timed_out=False):
        self.rc, self.out, self.wall, self.timed_out = rc, out, wall, timed_out


def run(cmd, cwd=None, timeout=None, stdin=None, merge=True, **extra_env):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**extra_env), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT if merge else subprocess.DEVNULL,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        return Run(p.returncode, out.decode('utf8', 'replace'), time.time() - t)
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return Run(-1, out.decode('utf8', 'replace'), time.time() - t, True)


class Violation:
    """replayed: a failing input was confirmed on the real code."""

    def __init__(self, text, replayed):
        self.text, self.replayed = text, replayed


def write_replay(prop, text):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.txt' % prop)
    with open(path, 'w') as f:
        f.write(text)
    return path


def write_evidence(prop, level, coverage, assumptions, violations):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage,
              assumptions=assumptions, wall_s=round(time.time() - T0, 3), violations=violations)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')


def known_findings(prop):
    """Lines `known: property=ID key=... text`; `fixed:` lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    return out


def finish(prop, violations):
    """Prints the verdict and exits."""
    if violations:
        # a confirmed failing input outranks a bare failed obligation
        violations.sort(key=lambda v: not v.replayed)
        v = violations[0]
        path = write_replay(prop, '\n\n'.join(x.text for x in violations) + '\n')
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v.replayed else ' no-failing-input-found'), flush=True)
        sys.exit(1)
    print('OK property=%s' % prop, flush=True)
    sys.exit(0)
