"""Regenerates properties.jsonl and MANIFEST.json from cgv/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from cgv import runner, props
runner.load_specs()
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid, P in sorted({**props.PROPS, **props.NOTAPPLICABLE}.items()):
        assert len(P['title']) <= 80, (pid, len(P['title']))
        f.write(json.dumps(dict(id=pid, title=P['title'], statement=P['statement'], quantifier=dict(over=P['over'], text=P['text']), why_tests_cant=P['why'],
            anchors=dict(files=P['files'], mechanism=[dict(name=a, where=b) for a, b in P['mech']], observe_at=['return values and output parameters of the public functions'], hook_needed=None))) + '\n')
        for x in P['files']:
            if not os.path.exists('/repo/' + x): print('missing anchor', pid, x)
NOTE = 'Contracts (postcondition, frame, memory) on the real functions, extracted from /repo by clang on every run; every obligation discharged for all inputs. Floats are read as reals except in bit-precise contracts; libm is axiomatised; see DESIGN.md for the assumption list.'
m = dict(version=1, setup_cmd='python3-vt -c "import z3, mpmath, numpy" && clang --version >/dev/null',
    checks=[dict(property=pid, quick_cmd='python3-vt check.py ' + pid, thorough_cmd='python3-vt check.py %s --thorough' % pid, evidence_file='evidence/%s.json' % pid,
        technique=P.get('technique') or props.TECH, level='proof', level_note=(P['note'] + ' ' if P['note'] else '') + NOTE) for pid, P in sorted(props.PROPS.items())],
    not_applicable=[dict(property=pid, reason=P['reason']) for pid, P in sorted(props.NOTAPPLICABLE.items())],
    notes='No hooks in /repo. FINDINGS.txt records the repaired defects. Counterexamples are replayed by programs left in replays/.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
