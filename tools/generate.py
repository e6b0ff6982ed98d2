"""Write properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from meta import P  # noqa

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for k, d in P.items():
        assert len(d['title']) <= 80, k
        assert d['statement'].count('. ') <= 2, (k, d['statement'])
        assert os.path.exists(f'{root}/vf/props/{k.lower()}.py'), k
        for x in d['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps({
            'id': k, 'title': d['title'], 'statement': d['statement'],
            'quantifier': {'over': d['over'], 'text': d['text']},
            'why_tests_cant': d['why'],
            'anchors': {
                'files': d['files'],
                'mechanism': [{'name': a, 'where': b}
                              for a, b in d['mechanism']],
                'observe_at': d['observe'], 'hook_needed': None}}) + '\n')
m = {
    'version': 1, 'setup_cmd': './run setup',
    'checks': [{
        'property': k, 'quick_cmd': f'./run check {k} quick',
        'thorough_cmd': f'./run check {k} thorough',
        'technique': d['tech'], 'level': 'exploration',
        'level_note': d['note']} for k, d in P.items()],
    'not_applicable': [],
    'notes': 'All checks: hypothesis-generated cases over the real code '
             'imported from /repo; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
for n in os.listdir(f'{root}/vf/props'):
    if n.endswith('.py') and n != '__init__.py' and n[:-3].upper() not in P:
        print('not registered:', n)
print(len(P), 'properties')
