"""Writes MANIFEST.json from properties.jsonl and the rule modules that exist (python3 tool/manifest.py)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
info = json.load(open(H + '/tool/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in info['na']:
        na.append({'property': i, 'reason': info['na'][i]})
    elif os.path.exists(H + '/vg/rules/%s.py' % i.lower()):
        c = info['claims'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 -m vg.check ' + i, 'thorough_cmd': 'python3 -m vg.check %s --thorough' % i,
                       'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': 'no static check for it is finished yet'})
m = {'version': 1, 'setup_cmd': "python3 -c 'from vg import extract; extract.build_tool(True)'", 'checks': checks, 'not_applicable': na}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
