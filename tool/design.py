"""Writes DESIGN.md from tool/DESIGN.in, the claims, the rules of each module and the planted bugs."""
import ast, glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
info = json.load(open(H + '/tool/claims.json'))
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in info['na']:
        out.append('Not applicable: %s.\n' % info['na'][i])
        continue
    c = info['claims'][i]
    out.append('Method: %s. %s\n' % (c['technique'], c['note'].split('alarm). ')[-1].replace("Trusts clang's AST, the extraction in tool/vgx.cc and the library models. ", '')))
    f = H + '/vg/rules/%s.py' % i.lower()
    if not os.path.exists(f):
        out.append('(no check yet)\n')
        continue
    m = ast.parse(open(f).read())
    d = ast.get_docstring(m)
    if d and '\n' in d:
        out.append(d.split('\n', 1)[1].strip() + '\n')
    out.append('Rules:')
    for n in ast.walk(m):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) >= 2:
            out.append('- `%s`: %s' % (ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
    out.append('')
sd = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    sd.append('- `%s` (%s): %s Needs: %s %s' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'],
                                               'Caught by: ' + m['caught_by'] if m.get('caught_by') else ''))
s = open(H + '/tool/DESIGN.in').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(sd))
open(H + '/DESIGN.md', 'w').write(s)
