"""Writes MANIFEST.json from the properties and the checks (development)."""
import ast
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(line) for line in
         (HERE / 'properties.jsonl').read_text().splitlines()]
checks, missing = [], []
for prop in props:
    ident = prop['id']
    path = HERE / 'checks' / f'{ident}.py'
    if not path.exists():
        missing.append({'property': ident,
                        'reason': 'The check is not written yet.'})
        continue
    values = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(
                node.targets[0], ast.Name) and node.targets[0].id in (
                    'RULE', 'ASSUMPTIONS', 'TECHNIQUE'):
            values[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        'property': ident,
        'quick_cmd': f'python3 check.py {ident} --tier quick',
        'thorough_cmd': f'python3 check.py {ident} --tier thorough',
        'technique': values.get('TECHNIQUE') or
        'property-based testing (Hypothesis) against an independent oracle',
        'level': 'exploration',
        'level_note': 'Generated-input search: shows the property on the cases'
        ' explored, not its absence of counterexamples. ' +
        ' '.join(values['RULE'].split()) + ' Assumes: ' +
        ' '.join(values['ASSUMPTIONS']),
    })
data = {
    'version': 1,
    'setup_cmd': 'python3-vt -m vf.build',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'Checks are run by check.py, which rebuilds the Python extension '
    'from /repo (objects are cached by content in /verif/build). '
    'VF_REPO=/path runs a check against another copy.',
}
(HERE / 'MANIFEST.json').write_text(json.dumps(data, indent=1) + '\n')
print(len(checks), 'checks', len(missing), 'missing')
