"""Properties decided by Verus on functions extracted from /repo on every run."""
import glob, re, shutil
from common import *

EXTRACT = os.path.join(VERIF, 'extract')
NATIVE = os.path.join(BUILD, 'native')
BIN = os.path.join(NATIVE, 'debug', 'extract')

# group -> (specification files, crates to extract from)
MAC = (['mac_io', 'mac_header', 'mac_lc', 'mac_sym'], ['at_mac'])
OBJ = (MAC[0] + ['obj'], MAC[1] + ['at_obj'])
ASMS = ['asm', 'asm_reg', 'asm_parse', 'asm_main']
ASM = (OBJ[0] + ASMS, OBJ[1] + ['at_x64', 'at_asm'])
CMD = (ASM[0] + ['cmd'], ASM[1] + ['at_asm_bin'])
ROOT = {'at_asm_bin': 'at-asm/src/main.rs'}
# the contracts of at-mac and at-obj are proved in the groups mac and obj
ONLY = {'asm': ['vx', 'vxs', 'at_x64', 'at_asm', 'at_obj::object'] + ['specs::s_' + s for s in ASMS[1:]]}
GROUPS = {'mac': (MAC, ['vx.rs']), 'obj': (OBJ, ['vx.rs']), 'asm': (ASM, ['vx.rs', 'vxs.rs']), 'cmd': (CMD, ['vx.rs', 'vxs.rs', 'vxf.rs'])}
PROPS = {}
for p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09'):
    PROPS[p] = 'mac'
for p in ('C10', 'C11', 'C12', 'C13', 'C21'):
    PROPS[p] = 'obj'
for p in ('C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20'):
    PROPS[p] = 'asm'
SEEDS = (7, 11)   # random seeds for the second and third attempt at open obligations
PROPS['C22'] = PROPS['C23'] = 'cmd'


ASSUME = [
    'Verus, Z3 and rustc are trusted; the extractor (extract/src) is trusted to keep the meaning of the code it rewrites (its rewrites and what it '
    'drops are listed in DESIGN.md section 4).',
    'Contracts assumed about std and about std-like wrappers: the functions in assumed_contracts (extract/prelude); they are exercised by the conformance run.',
    'A sink or source (Write/Read) behaves as the std documentation says of write_all and read_exact; derived PartialEq/Clone of field-less enums are equality/copy.',
    '64-bit little-endian host; allocation succeeds; a vector or string holds at most isize::MAX bytes. Termination of every loop is an obligation (total correctness up to the assumed std calls).',
]


def build():
    return run(['cargo', 'build', '--offline', '--quiet'], cwd=EXTRACT, timeout=400, CARGO_TARGET_DIR=NATIVE)


class Failure:
    module = ''

    def __init__(self, fn, msg, line, text, clause, props, rendered):
        self.fn, self.msg, self.line, self.text, self.clause, self.props, self.rendered = fn, msg, line, text, clause, props, rendered


class Result:
    def __init__(self):
        self.error = None        # nothing could be verified, and why
        self.fns = []            # the map of extracted functions
        self.failures = []       # Failure
        self.undecided = {}      # function -> reason: no answer from the verifier
        self.obl = {}            # function -> number of obligations
        self.solver_s = 0.0
        self.verified = 0
        self.cmd = ''
        self.version = ''
        self.trusted = []
        self.lost = []
        self.dropped = []
        self.wall = 0.0
        self.gen = []
        self.where = {}          # function -> module, for functions without an answer
        self.retried = []        # obligations proved on a later attempt


def extract(d, group, external=(), canary=False):
    (specs, crates), preludes = GROUPS[group]
    cmd = [BIN, os.path.join(d, 'gen.rs'), os.path.join(d, 'map.json'), '--prelude']
    cmd += [os.path.join(EXTRACT, 'prelude', p) for p in preludes]
    cmd += ['--spec'] + [os.path.join(EXTRACT, 'specs', s + '.vxs') for s in specs]
    cmd += ['--crate'] + ['%s=%s/%s' % (c, REPO, ROOT.get(c, c.replace('_', '-'))) for c in crates]
    if external:
        cmd += ['--external'] + sorted(external)
    if canary:
        cmd += ['--canary', 'yes']
    return run(cmd, timeout=60), cmd


def checked(group, key):
    """whether the bodies of this group are verified in this group"""
    return group not in ONLY or any(key == m or key.startswith(m + '::') for m in ONLY[group])


def diagnostics(err):
    for l in err.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('$message_type', 'diagnostic') == 'diagnostic' and m.get('level') == 'error':
            yield m


def short(key):
    return key


def verify(group, rlimit=20, timeout=420, canary=False):
    r = Result()
    d = os.path.join(BUILD, 'verus-%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        external = set()
        for attempt in range(4):
            p, cmd = extract(d, group, external, canary)
            if p.rc != 0:
                r.error = 'the extractor could not process the sources: ' + p.out[-2000:]
                return r
            m = json.load(open(os.path.join(d, 'map.json')))
            if canary:
                canary_lemmas(os.path.join(d, 'gen.rs'))
            r.fns, r.lost, r.dropped = m['fns'], m['lost'], m['dropped']
            mods = ONLY.get(group, [])
            vcmd = verus_cmd(d, rlimit, mods)
            r.cmd = ' '.join(cmd).replace(VERIF + '/', '') + ' && ' + ' '.join(vcmd)
            t = time.time()
            got = run_verus(d, vcmd, timeout)
            if got is None:
                r.error = 'Verus gave no answer within %d s' % timeout
                return r
            r.wall = time.time() - t
            gen = open(os.path.join(d, 'gen.rs')).read().split('\n')
            r.gen = gen
            if collect(r, gen, got[0], got[1], os.path.join(d, 'air')):
                if not canary:
                    for seed in SEEDS[:2 if r.undecided else 1]:
                        if (r.failures or r.undecided) and time.time() - t < timeout / 3:
                            again(r, d, gen, seed, rlimit * 2, timeout / 3)
                    r.wall = time.time() - t
                return r
            # the translation of some functions was rejected: leave their bodies out and say so
            bad = {f for f, _ in r.rejected if f}
            if not bad or bad <= external or any(f is None for f, _ in r.rejected):
                r.error = 'the extracted code was rejected: ' + '; '.join('%s: %s' % (f, t) for f, t in r.rejected[:5])
                return r
            for f, t in r.rejected:
                r.undecided[f] = 'not translatable: ' + t
            external |= bad
        r.error = 'the extracted code was rejected repeatedly'
        return r
    finally:
        if not os.environ.get('VX_KEEP'):
            shutil.rmtree(d, ignore_errors=True)


def verus_cmd(d, rlimit, mods, extra=()):
    return ['verus', 'gen.rs', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--rlimit', str(rlimit),
            '--multiple-errors', '4', '--num-threads', '8', '--smt-option', 'timeout=%d' % (60000 if TIER == 'quick' else 180000)] + [x for o in mods for x in ('--verify-module', o)] + list(extra) + [
            '--log', 'air', '--log-dir', os.path.join(d, 'air'), '--', '--error-format=json']


def run_verus(d, vcmd, timeout):
    """(standard error, JSON report), or None when the time is up"""
    shutil.rmtree(os.path.join(d, 'air'), ignore_errors=True)
    out = os.path.join(d, 'out.json')
    with open(out, 'w') as fo, open(os.path.join(d, 'err.txt'), 'w') as fe:
        pr = subprocess.Popen(vcmd, cwd=d, env=env(), stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            pr.wait(timeout)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(pr.pid, signal.SIGKILL)
            pr.wait()
            return None
    try:
        j = json.load(open(out))
    except ValueError:
        j = {}
    return open(os.path.join(d, 'err.txt')).read(), j


def module_at(gen, line, f):
    """the module of the extracted text with this function or (f is None) lemma; '' for the whole text"""
    names = {}
    last = ''
    for i, l in enumerate(gen):
        m = re.match(r'\s*(?:pub(?:\([^)]*\))? )?mod (\w+) \{', l)
        if m:
            names[m.group(1)] = i
            if i < line:
                last = m.group(1)
    if f is None:
        return 'specs::' + last if last.startswith('s_') else ''
    out = []
    for w in f['key'].split('::')[:-1]:
        if w not in names:
            break
        out.append(w)
    return '::'.join(out)


def again(r, d, gen, seed, rlimit, timeout):
    """A second opinion from the solver on the modules that have open obligations:
    an obligation it proves with any seed is proved."""
    mods = set()
    for f in r.failures:
        mods.add(f.module)
    for k in r.undecided:
        mods.add(r.where.get(k, ''))
    q = Result()
    q.fns = r.fns
    got = run_verus(d, verus_cmd(d, rlimit, sorted(m for m in mods if m) if '' not in mods else [], ['--smt-option', 'smt.random_seed=%d' % seed]), timeout)
    obl, verified, solver = r.obl, r.verified, r.solver_s
    if got is None or not collect(q, gen, got[0], got[1], os.path.join(d, 'air')):
        return
    still = {f.fn for f in q.failures} | set(q.undecided)
    closed = {f.fn for f in r.failures} | {k for k in r.undecided if k in r.where}
    closed -= still
    if closed:
        r.retried.append(dict(seed=seed, proved=sorted(closed)))
    r.solver_s += q.solver_s
    r.failures = [f for f in r.failures if f.fn not in closed]
    # a limit in one run and a failed obligation in the other: the failed obligation is the answer
    r.undecided = {k: t for k, t in r.undecided.items() if k not in closed}
    for f in q.failures:
        if f.fn in r.undecided and not any(g.fn == f.fn for g in r.failures):
            r.failures.append(f)
            r.undecided.pop(f.fn)


def canary_lemmas(path):
    """an assertion that must fail at the start of every lemma"""
    out, pend = [], False
    for l in open(path).read().split('\n'):
        if re.search(r'\bproof fn \w+', l) and 'axiom' not in l:
            pend = True
        if pend and (l.lstrip().startswith('{') or l.rstrip().endswith(') {') and 'proof fn' in l):
            k = l.rindex('{') if l.rstrip().endswith(') {') else l.index('{')
            l, pend = l[:k + 1] + ' assert(false);' + l[k + 1:], False
        elif pend and 'proof fn' in l and l.rstrip().endswith('}') and ') {' in l:
            k = l.index(') {') + 2
            l, pend = l[:k + 1] + ' assert(false);' + l[k + 1:], False
        out.append(l)
    open(path, 'w').write('\n'.join(out))


def fn_at(r, line):
    best = None
    for f in r.fns:
        if f['start'] <= line < f['end']:
            best = f
    return best


def lemma_at(gen, line):
    for i in range(min(line, len(gen)) - 1, -1, -1):
        m = re.search(r'\bfn (\w+)', gen[i])
        if m:
            return m.group(1)
    return '?'


def lemma_props(name):
    return re.findall(r'c\d\d', name.split('__')[0]) and [c.upper() for c in re.findall(r'(?:^|_)(c\d\d)(?=_)', name)]


def collect(r, gen, err, j, air):
    """True if the verifier accepted the text (whatever it could prove)."""
    diags = list(diagnostics(err))
    res = j.get('verification-results') or {}
    ran = 'verified' in res and not res.get('encountered-vir-error') and os.path.isdir(air)
    r.rejected = []
    if not ran:
        for m in diags:
            sp = [s for s in m['spans'] if s['is_primary']] or m['spans']
            if not sp:
                continue
            f = fn_at(r, sp[0]['line_start'])
            r.rejected.append((f['key'] if f else None, m['message'][:200] + ' @ ' + gen[sp[0]['line_start'] - 1].strip()[:100]))
        if not r.rejected:
            r.rejected.append((None, err[-1500:]))
        return False
    r.verified = res.get('verified', 0)
    r.version = 'Verus %s (Z3)' % (j.get('verus', {}).get('version', '') if isinstance(j.get('verus'), dict) else '')
    tm = j.get('times-ms', {})
    r.solver_s = (tm.get('smt', {}).get('total', 0) if isinstance(tm.get('smt'), dict) else tm.get('smt', 0) or 0) / 1000.0
    count_obligations(r, air)
    r.trusted = trusted(gen, r.fns)
    for m in diags:
        sp = [s for s in m['spans'] if s['is_primary']] or m['spans']
        if not sp:
            continue  # summary line
        prim = sp[0]
        f = fn_at(r, prim['line_start'])
        # the body of the failing function is where the error is reported; for a
        # postcondition that is the secondary span
        body = [s for s in m['spans'] if 'at the end of the function body' in (s['label'] or '') or 'at this' in (s['label'] or '')]
        if 'postcondition' in m['message'] and body:
            f = fn_at(r, body[0]['line_start']) or f
        line = (body[0] if body else prim)['line_start']
        key = f['key'] if f else 'lemma ' + lemma_at(gen, line)
        if 'rlimit' in m['message'] or 'Resource limit' in m['message'] or 'timed out' in m['message'] or 'solver' in m['message'].lower():
            r.undecided.setdefault(key, m['message'][:200])
            r.where[key] = module_at(gen, line, f)
            continue
        clause = ''
        for s in m['spans']:
            if 'failed' in (s['label'] or '') and s['line_start'] - 1 < len(gen):
                clause = gen[s['line_start'] - 1].strip()
        if not clause:
            clause = gen[prim['line_start'] - 1].strip()
        tags = re.findall(r'C\d\d', clause.split('//#')[1]) if '//#' in clause else None
        if f:
            props = tags if tags else f['props']
        else:
            props = lemma_props(key.split()[1])
        r.failures.append(Failure(key, m['message'], line, gen[line - 1].strip(), clause, props, m.get('rendered', '')))
        r.failures[-1].module = module_at(gen, line, f)
    return True


def count_obligations(r, air):
    n = {}
    for f in glob.glob(os.path.join(air, '*.air')):
        cur = None
        for l in open(f, errors='replace'):
            if l.startswith(';; Function-Def ') or l.startswith(';; Function-Recommends') or l.startswith(';; Function-Termination') or l.startswith(';; Function-'):
                w = l[3:].split()
                cur = w[1] if w[0] in ('Function-Def', 'Function-Termination', 'Function-Decl-Check-Recommends') else None
            elif cur and l.strip() == '(assert':
                n[cur] = n.get(cur, 0) + 1
            elif cur and re.match(r'\s*\(assert \(?"', l):
                n[cur] = n.get(cur, 0) + 1
    r.obl = n


def trusted(gen, fns):
    """every contract that is assumed, as it stands in the verified text"""
    out = []
    moved = {i for f in fns if f['inlined'] for i in range(f['start'] - 1, f['end'])}   # their bodies are verified at their uses
    for i, l in enumerate(gen):
        if i in moved:
            continue
        if 'external_body' in l or re.search(r'\b(assume|admit)\s*\(', l) or 'assume_specification' in l or 'axiom' in l and 'fn' in l:
            m = None
            for k in range(i, min(i + 6, len(gen))):
                m = re.search(r'\b(?:fn|struct) (\w+)', gen[k][gen[k].find('external_body') if k == i and 'external_body' in gen[k] else 0:])
                if m:
                    break
            if m:
                out.append(m.group(1))
    return out


if __name__ == '__main__':
    p = build()
    if p.rc:
        print(p.out)
        sys.exit(2)
    r = verify(sys.argv[1] if len(sys.argv) > 1 else 'mac')
    print('error', r.error)
    print('verified', r.verified, 'obligations', sum(r.obl.values()), 'in', len(r.obl), 'solver', r.solver_s, 'wall', r.wall, r.version)
    print('lost', r.lost, 'dropped', r.dropped)
    print('undecided', r.undecided)
    print('unsupported', [f['key'] for f in r.fns if f['unsupported']], 'uncontracted', [f['key'] for f in r.fns if not f['has_spec'] and f['has_body'] and not f['inlined']], 'inlined', [f['key'] for f in r.fns if f['inlined']])
    print('retried', r.retried)
    print('trusted', len(r.trusted), r.trusted)
    for f in r.failures:
        print('FAIL', f.fn, '|', f.msg, '|', f.text[:120], '|', f.clause[:120], '|', f.props)
    for k in list(r.obl.items())[:10]:
        print(k)
