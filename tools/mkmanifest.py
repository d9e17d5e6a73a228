"""Write MANIFEST.json: a check for each property that has a harness, not_applicable for the rest."""
import ast
import json
import os
V = '/verif'
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{V}/harness/{i.lower()}.py'
    if os.path.exists(f) and i not in NA:
        b = ''
        for st in ast.parse(open(f).read()).body:
            if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'BOUNDS':
                b = ast.literal_eval(st.value)
        assert b, i
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': "symbolic execution of /repo's Python source (symx) with z3 deciding every branch and assertion",
            'level': 'model_checking',
            'level_note': (f'Holds for every value of the symbolic inputs within: {b}. Outside of these bounds nothing is '
                           'claimed. Trusted: the models of str/re/dict/list operations and of md4c and polib in /verif/symx '
                           '(every path is replayed on the real code with concrete values and compared), and z3.'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet: its harness is being built')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: sources are instrumented in memory on every run. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', [n['property'] for n in na])
