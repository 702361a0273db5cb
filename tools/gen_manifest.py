"""Writes MANIFEST.json from properties.jsonl and the property modules present in props/."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NOT_APPLICABLE = {}
exec(open(f'{VERIF}/tools/manifest_notes.py').read())
checks, na = [], []
for line in open(f'{VERIF}/properties.jsonl'):
    p = json.loads(line)
    id = p['id']
    if os.path.exists(f'{VERIF}/props/{id.lower()}.py'):
        technique, note = NOTES[id]
        checks.append(dict(
            property=id, quick_cmd=f'bash check.sh {id}', thorough_cmd=f'VERIF_TIER=thorough bash check.sh {id}',
            evidence_file=f'evidence/{id}.json', technique=technique, level='exploration', level_note=note))
    else:
        na.append(dict(property=id, reason=NOT_APPLICABLE.get(id, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='No hooks: the checks import /repo as it is', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All checks are property-based tests over the real marcel code of /repo. See DESIGN.md.')
json.dump(m, open(f'{VERIF}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
