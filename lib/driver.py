"""Decides one property; the verdict rules are in DESIGN.md, section 3."""
import re
from common import *
import engine_x64, engine_verus, engine_oracle, engine_std

QUIET_MS = 4000 if TIER == 'quick' else 120000     # conformance run beside a complete proof
HARD_MS = 30000 if TIER == 'quick' else 240000     # search after a failed or missing answer


def kani_part(prop, ev, viol):
    part, v = engine_x64.check(prop)
    ev['parts'].append(part)
    ev['assumptions'] += engine_x64.ASSUME
    viol += v


def pieces(prop, r):
    """obligations of the functions and lemmas this property rests on"""
    by = {}
    for k, n in r.obl.items():
        k = re.sub(r'^gen::', '', k).replace('vx_', '') if '::vx::' not in k else k
        by[k] = by.get(k, 0) + n
    fns, lemmas = {}, {}
    for f in r.fns:
        if prop in f['props'] and f['has_spec']:
            fns[f['key']] = by.get(f['key'], 0)
    known = {f['key'] for f in r.fns}
    for k, n in by.items():
        if k in known:
            continue
        name = k.split('::')[-1]
        if '::specs::' in '::' + k or k.startswith('gen::vx::'):
            p = engine_verus.lemma_props(name)
            if not p or prop in p:
                lemmas[name] = n
    return fns, lemmas


def restructured(r, key):
    """why the contract may no longer fit the shape of the function, or None"""
    f = next((f for f in r.fns if f['key'] == key), None)
    if f is None:
        return None
    if f['lost_ins']:
        return 'the proof text attached at %s has no place in the changed function' % ', '.join(f['lost_ins'])
    if f['loops'] != (f['want_loops'] or 0):
        return 'the function has %d loops, its contract describes %d' % (f['loops'], f['want_loops'] or 0)
    text = '\n'.join(r.gen[f['start'] - 1:f['end']])
    methods = {h['key'].split('::')[-1] for h in r.fns if h['has_spec'] and h['recv']}
    for h in r.fns:
        if not h['has_spec'] and h['has_body'] and h is not f:
            ty, name = h['key'].split('::')[-2:]
            if h['recv'] and name in methods:
                continue  # x.name() is taken for the method of that name which has a contract
            call = r'\b%s\s*(::\s*<[^(]*>)?\s*\(' % re.escape(name)
            if ty[:1].isupper() and not h['recv']:
                own = '|Self' if f['key'].split('::')[-2:-1] == [ty] else ''
                call = r'\b(%s%s)\s*::\s*' % (re.escape(ty.split('<')[0]), own) + call
            if re.search(call, text):
                return 'it calls %s, which has no contract' % h['key']
    if not f['has_spec']:
        return 'it has no contract'
    return None


def verus_part(prop, ev, viol):
    group = engine_verus.PROPS[prop]
    why = []           # reasons for which the proof gives no answer
    failed = []        # failed obligations of this property
    other = []         # failed obligations of functions this property only uses
    p = engine_verus.build()
    if p.rc:
        log('the extractor does not build:\n' + p.out[-2000:])
        sys.exit(2)
    r = engine_verus.verify(group, rlimit=20 if TIER == 'quick' else 60)
    if r.error:
        why.append(('all contracts', r.error))
    else:
        for k in r.lost:
            why.append((k, 'no such function in /repo any more'))
        for f in r.fns:
            if f['unsupported']:
                r.undecided.setdefault(f['key'], 'outside the subset the extractor translates: ' + '; '.join(f['unsupported']))
            elif f['external'] and not f['inlined']:
                r.undecided.setdefault(f['key'], 'not translatable')
        for k, t in r.undecided.items():
            f = next((f for f in r.fns if f['key'] == k), None)
            if f is None and engine_verus.lemma_props(k.split()[-1]) and prop not in engine_verus.lemma_props(k.split()[-1]):
                continue
            if f is None or prop in f['props'] or not f['has_spec']:
                why.append((k, t))
        for f in r.failures:
            s = restructured(r, f.fn)
            if prop in f.props or (f.fn.startswith('lemma ') and not f.props):
                if s:
                    why.append((f.fn, '%s (%s); %s' % (f.msg, f.clause or f.text, s)))
                else:
                    failed.append(f)
            else:
                other.append(f)
    fns, lemmas = pieces(prop, r)
    total = sum(fns.values()) + sum(lemmas.values())
    undec = {k for k, _ in why}
    discharged = total - sum(n for k, n in fns.items() if k in undec) - len(failed)
    if r.error:
        total = discharged = 0
    for f in failed[:8]:
        log('failed obligation in %s: %s: %s' % (f.fn, f.msg, f.clause or f.text))
    for k, t in why[:8]:
        log('no answer from the verifier for %s: %s' % (k, t[:300]))
    for f in other[:3]:
        log('(failed obligation outside this property, in %s: %s)' % (f.fn, f.clause or f.text))
    err = engine_oracle.build(prop)
    s = None
    if err:
        log('the oracle does not build against /repo:\n' + err)
        if why:
            sys.exit(2)
    else:
        s = engine_oracle.search(prop, HARD_MS if failed or why or other else QUIET_MS)
        if s.failing is None:
            log('the oracle gave no answer:\n' + s.out[-2000:])
            if why:
                sys.exit(2)
    head = ''
    for f in failed:
        head += 'Failed obligation in %s: %s\n  %s\n%s\n' % (f.fn, f.msg, f.clause, f.rendered)
    for f in other[:5]:
        head += '(Failed obligation of another property in %s: %s: %s)\n' % (f.fn, f.msg, f.clause)
    if s and s.failing:
        log(s.out[-1500:])
        viol.append(Violation('property %s: failing input, run against the compiled code of /repo\n%s\n%s' % (prop, s.out, head), True))
    elif failed:
        viol.append(Violation('property %s: obligations that Verus does not discharge for /repo (no failing input found in %d cases)\n%s'
                              % (prop, s.runs if s else 0, head), False))
    part = dict(obligations=total, discharged=discharged, solver_s=r.solver_s, backend=r.version or 'Verus (Z3)', cmd=r.cmd,
                contracts=sorted(lemmas), functions=fns, bounded=None)
    if (why or other) and not viol and s:
        part['bounded'] = dict(contracts=[k for k, _ in why] or [f.fn for f in other], inputs=s.runs,
                               reasons=[t[:300] for _, t in why] or ['its contract does not hold any more, but the property was not refuted'])
    ev['parts'].append(part)
    ev['trusted'] = r.trusted
    ev['dropped'] = r.dropped
    ev['verus_text'] = dict(functions_in_the_text=len(r.fns), without_contract=[f['key'] for f in r.fns if not f['has_spec'] and not f['inlined']],
                            replaced_by_their_bodies=[f['key'] for f in r.fns if f['inlined']],
                            errors=len(r.failures), wall_s=round(r.wall, 2))
    if s:
        ev['conformance'] = dict(cases=s.runs, milliseconds=s.ms, failing=bool(s.failing),
                                 what='random cases of this property run against the compiled code; they exercise the contracts '
                                      'the proof assumes about std; not counted as proof')
    ev['assumptions'] += engine_verus.ASSUME
    if TIER == 'thorough' and not viol and not r.error and not r.failures:
        c = engine_verus.verify(group, canary=True)
        alive = {f.fn for f in c.failures if 'assert' in f.text and 'false' in f.text}
        dead = [f['key'] for f in c.fns if f['has_spec'] and not f['trusted'] and not f['external'] and f['has_body'] and f['key'] not in alive
                and engine_verus.checked(group, f['key'])]
        ev['vacuity'] = dict(canaries_failed_as_they_must=len(alive), vacuous=dead)
        for k in dead:
            log('vacuous contract: assert(false) is provable in ' + k)


def main(prop):
    ev, viol = dict(parts=[], assumptions=[]), []
    if prop in engine_x64.PROPS:
        kani_part(prop, ev, viol)
    if prop in engine_verus.PROPS:
        verus_part(prop, ev, viol)
        if not viol:
            ev['std_contracts'] = engine_std.check()
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    parts = ev.pop('parts')
    assumptions = ev.pop('assumptions')
    obligations = sum(p['obligations'] for p in parts)
    discharged = sum(p['discharged'] for p in parts)
    bounded = [p['bounded'] for p in parts if p.get('bounded')]
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=' ; '.join(p['cmd'] for p in parts if p['cmd']),
        trusted_base=assumptions,
        backends=[p['backend'] for p in parts],
        solver_s=round(sum(p['solver_s'] for p in parts), 3),
        functions_under_contract={k: n for p in parts for k, n in p['functions'].items()},
        contracts_and_lemmas=[c for p in parts for c in p['contracts']],
        bounded_stand_ins=bounded,
        explanation="obligations = verification conditions generated from /repo's current source and decided on this run (per function "
                    'in functions_under_contract, the rest in lemmas); a bounded stand-in (if any) is listed separately and is not '
                    'counted as discharged.',
    )
    if 'trusted' in ev:
        cov['assumed_contracts'] = sorted(set(ev.pop('trusted')))
    cov.update(ev)
    level = 'proof'
    if bounded and not viol and discharged == 0:
        level = 'exploration'
        n = sum(b['inputs'] for b in bounded)
        cov.update(evaluations=n, distinct_nontrivial=n, rule='random and boundary inputs of each contract; each case draws from a seed of its own',
                   samples=bounded)
    write_evidence(prop, level, cov, assumptions, len(viol))
    log('%d obligations, %d discharged' % (obligations, discharged))
    finish(prop, viol)
