"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'vsm', 'props', i.lower()+'.py')):
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick',
                           thorough_cmd=f'python3 run.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique='runtime monitoring: '+TECH[i][0], level='exploration', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the monitors are installed on the public interface from the harness. '
               'Replay a violation with: python3 run.py --replay <path>')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')
