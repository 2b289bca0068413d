#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
K = ('contract proof of the compiled code with Kani (full-domain symbolic arguments)',
     'Every verification condition Kani generates from the compiled at-x64 crate for the contract of each operation is discharged for all arguments (no input bound; loops unwound completely, unwinding assertions checked). Trusted: Kani/CBMC/CaDiCaL, rustc, and the decoder specification.')
V = ('contracts on the extracted functions of /repo, discharged by Verus (Z3); failing inputs from the compiled code',
     "Every function of /repo the property depends on is extracted mechanically on every run and verified against its contract for all inputs; the property is a postcondition, invariant or lemma over those contracts. Trusted: Verus/Z3, the extractor's rewrites, and the assumed contracts on std listed in the evidence. Functions the verifier gives no answer for (changed code outside the subset) fall back to a bounded random search, labelled in the evidence and not counted as proof.")
CLAIM = {'C01': K, 'C02': K, 'C03': K}
for p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23'):
    CLAIM[p] = V
NA = {}
for p in props:
    if p not in CLAIM:
        NA.setdefault(p, 'check under construction')
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in CLAIM],
         notes='Each check rebuilds everything it needs from /repo and /verif; see DESIGN.md.')
for p in props:
    if p in CLAIM:
        t, n = CLAIM[p]
        m['checks'].append(dict(property=p, quick_cmd='./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p,
                                technique=t, level='proof', level_note=n))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
