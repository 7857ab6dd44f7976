#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
import specs
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = getattr(specs, 'NOT_APPLICABLE', {})
m = {'version': 1, 'setup_cmd': 'make -s -C engine -j8',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks compile the unmodified sources', 'source_commits': []},
     'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. Every check recompiles /repo to LLVM bitcode and decides the property by symbolic execution with Z3.'}
for i in ids:
    if i in specs.PROPS:
        p = specs.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/run.py %s --tier quick' % i, 'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': 'symbolic execution of the compiled code (LLVM IR) with Z3, counterexamples replayed natively', 'level': 'model_checking',
                            'level_note': 'Bounded: ' + p['note'] + '. Nothing is claimed outside the bounds; trusts the IR decoder, the runtime models in harness/ and Z3.'})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks')
