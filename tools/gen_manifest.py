"""Writes MANIFEST.json from the properties that have a check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
src = open(os.path.join(V, 'tools', 'checks.py')).read()
import re
have = re.findall(r"@check\('(C\d+)'\)", src)
notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hooks:'], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='FLBWT_VERIF_HOOKS', enable='check.py compiles /repo/src/*.cpp with -DFLBWT_VERIF_HOOKS; the driver in harness/ defines the three hook functions', source_commits=hook),
         checks=[], not_applicable=[],
         notes='TLA+ specifications in spec/, checked with TLC; every check also records the real code under harness/ and has TLC accept or refuse the recordings. known_findings.txt lists the defects found.')
for p in props:
    i = p['id']
    if i in have:
        n = notes[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                                technique=n['technique'], level='model_checking', level_note=n['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason='not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
