"""Properties decided by Kani on the compiled at-x64 crate."""
import re
import kani
from common import *

PROPS = {'C01', 'C02', 'C03'}
CRATE = os.path.join(VERIF, 'contracts-x64')
NATIVE_ENV = dict(CARGO_TARGET_DIR=os.path.join(BUILD, 'native'))
BIN = os.path.join(BUILD, 'native', 'debug', 'replay-x64')
ASSUME = [
    'Kani 0.68 / CBMC 6.11 / CaDiCaL and the Rust compiler are trusted to translate and decide the compiled code of /repo faithfully (dev profile, 64-bit little-endian host).',
    'The specification side is a hand-written decoder after the Intel SDM (contracts-x64/src/decode.rs); it was not derived from the encoder.',
    'Termination is covered only through the unwinding assertions of the loops in byteorder/core copy routines (unwind 20, checked complete).',
]


def build():
    p = run(['cargo', 'build', '--offline', '--quiet'], cwd=CRATE, timeout=300, **NATIVE_ENV)
    return p


def check(prop):
    """-> dict with obligations etc., list of Violation, list of notes (undecided)"""
    p = build()
    if p.rc != 0:
        log(p.out[-3000:])
        log('the contract crate does not build against /repo: no answer')
        sys.exit(2)
    table = [l.split() for l in run([BIN, '--list']).out.split('\n') if l.strip()]
    names = [n for n, props in table if prop in props.split(',')]
    r = kani.verify(CRATE, names, timeout=700, harness_timeout=300)
    viol, undecided = [], []
    if r.error:
        undecided.append(('all', r.error))
        log('Kani could not process the crate; bounded stand-in decides.\n' + r.error)
    undecided += r.undecided
    for h, descs in r.failed:
        log('contract %s: failed obligations:' % h)
        for d in descs[:6]:
            log('   ', d)
        head = ('property %s: contract `%s` (contracts-x64/src/contracts.rs) is not met by /repo.\n'
                'Failed obligations reported by Kani:\n%s\n' % (prop, h, '\n'.join('  ' + d for d in descs[:20])))
        tests, out = kani.counterexample(CRATE, h)
        done = False
        for vals in tests:
            q = run([BIN, h, ','.join(vals)], timeout=60)
            if q.rc == 1:
                viol.append(Violation(head + '\nCounterexample of the verifier, replayed on the compiled code:\n%s\n'
                                      'Replay: (cd %s && CARGO_TARGET_DIR=%s cargo build --offline) && %s %s %s\n'
                                      % (q.out, CRATE, NATIVE_ENV['CARGO_TARGET_DIR'], BIN, h, ','.join(vals)), True))
                done = True
                break
        if not done:
            q = run([BIN, '--search', prop, str(SEED), '50000'], timeout=120)
            if q.rc == 1:
                viol.append(Violation(head + '\nFailing input found by search on the compiled code:\n' + q.out, True))
            else:
                viol.append(Violation(head + '\nNo failing input was found.  Verifier output:\n' + out[-6000:], False))
        break  # one is enough for a verdict
    bounded = None
    if not viol and undecided:
        n = 200000
        q = run([BIN, '--search', prop, str(SEED), str(n)], timeout=300)
        if q.rc == 1:
            viol.append(Violation('property %s: bounded stand-in found a failing input (the verifier gave no answer: %s)\n%s'
                                  % (prop, undecided[0][1][:500], q.out), True))
        elif q.rc == 0:
            bounded = dict(contracts=[u[0] for u in undecided], inputs=n * len(undecided),
                           reasons=[u[1][:300] for u in undecided])
        else:
            log('no answer:', q.out)
            sys.exit(2)
    return dict(obligations=r.obligations, discharged=r.discharged, solver_s=r.solver_s, backend=r.version or 'Kani',
                cmd=r.cmd, contracts=names, functions=r.functions, bounded=bounded), viol
