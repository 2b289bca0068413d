"""The executable oracle: runs /repo's compiled code on generated inputs.

It never counts as proof.  It confirms failed obligations with a concrete
failing input, it stands in (bounded) where the verifier gives no answer, and
it exercises the contracts the proofs assume about std on every run.
"""
import re, shutil
from common import *

CRATE = os.path.join(VERIF, 'native')
TARGET = os.path.join(BUILD, 'native')
BIN = os.path.join(TARGET, 'debug', 'oracle')
ASM = os.path.join(BUILD, 'asm')


def build(prop):
    p = run(['cargo', 'build', '--offline', '--quiet'], cwd=CRATE, timeout=400, CARGO_TARGET_DIR=TARGET)
    if p.rc:
        return p.out[-3000:]
    if prop in ('C22', 'C23'):
        p = run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '-p', 'at-asm', '--bins',
                 '--target-dir', ASM], cwd='/', timeout=400)
        if p.rc:
            return p.out[-3000:]
    return None


class Search:
    def __init__(self, runs, ms, failing, out):
        self.runs, self.ms, self.failing, self.out = runs, ms, failing, out


def search(prop, ms):
    extra = {}
    scratch = None
    if prop in ('C22', 'C23'):
        b = [os.path.join(ASM, 'debug', f) for f in os.listdir(os.path.join(ASM, 'debug'))]
        b = [f for f in b if os.path.isfile(f) and os.access(f, os.X_OK) and not f.endswith('.so') and re.fullmatch(r'[\w-]+', os.path.basename(f))]
        scratch = os.path.join(BUILD, 'scratch-%d' % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        extra = dict(AT_ASM_BIN=b[0], ORACLE_SCRATCH=scratch)
    try:
        q = run([BIN, 'search', prop, str(SEED), str(ms)], timeout=ms / 1000 + 120, **extra)
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    m = re.search(r'^runs (\d+)', q.out, re.M)
    return Search(int(m.group(1)) if m else 0, ms, q.rc == 1, q.out) if q.rc in (0, 1) and m else Search(0, ms, None, q.out)
