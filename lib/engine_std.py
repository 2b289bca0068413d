"""The contracts assumed about std and byteorder, checked over the real functions
(contracts-std): every string up to a length for the text functions (each run), and
Kani for the numeric and byte functions (thorough tier)."""
import kani
from common import *

CRATE = os.path.join(VERIF, 'contracts-std')
NATIVE = os.path.join(BUILD, 'native')


def harnesses():
    import re
    src = open(os.path.join(CRATE, 'src', 'lib.rs')).read()
    names = re.findall(r'fn (std_\w+)', src) + re.findall(r'!\((std_\w+)', src) + re.findall(r'wrap!\(\w+, (std_\w+)', src)
    return sorted(set(names))


def check():
    """-> what was checked; a contract of std that does not hold ends the run without an answer"""
    p = run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=CRATE, timeout=300, CARGO_TARGET_DIR=NATIVE)
    if p.rc:
        log('contracts-std does not build; the assumed contracts are not exercised on this run\n' + p.out[-1000:])
        return None
    n = 4 if TIER == 'quick' else 6
    q = run([os.path.join(NATIVE, 'release', 'contracts-std'), str(n)], timeout=400)
    if q.timed_out:
        return None
    if q.rc:
        log('an assumed contract does not hold of std:\n' + q.out[-2000:])
        sys.exit(2)
    d = dict(text_functions='every string of up to %d characters over an alphabet of 12 and the like: %s' % (n, q.out.strip()), bounded=True)
    if TIER == 'thorough':
        names = harnesses()
        r = kani.verify(CRATE, names, timeout=900, harness_timeout=300)
        if r.failed:
            log('an assumed contract does not hold of std:', r.failed[0])
            sys.exit(2)
        d['kani'] = dict(harnesses=r.harnesses, obligations=r.obligations, discharged=r.discharged, undecided=[u[0] for u in r.undecided] or r.error,
                         what='std_bytes, std_wrap (but signed mul), std_try_from, std_put, std_front, std_char: every argument; the others up to the length stated in contracts-std/src/lib.rs')
    return d
