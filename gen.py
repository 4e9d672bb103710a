#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json
from props import PROPS, NOT_APPLICABLE
with open('properties.jsonl', 'w') as f:
    for pid, P in sorted(list(PROPS.items()) + list(NOT_APPLICABLE.items())):
        f.write(json.dumps(dict(id=pid, title=P['title'], statement=P['statement'], quantifier=dict(over=P['over'], text=P['qtext']), why_tests_cant=P['why'], anchors=dict(files=P['files'], mechanism=P['mech']))) + '\n')
m = dict(version=1, setup_cmd='python3 engine/vsym.py setup', checks=[dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid,
         technique='Symbolic execution of the compiled real code (LLVM instrumentation, Z3): every path within the bounds, assertion queries decided by the solver, counterexamples replayed on the native build',
         level='model_checking', level_note='Bounded: ' + P['bounds'] + '. Doubles as reals.' + (' ' + P['note'] if P['note'] else '')) for pid, P in sorted(PROPS.items())],
         not_applicable=[dict(property=k, reason=v['reason']) for k, v in sorted(NOT_APPLICABLE.items())])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
