#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/props.py.
import json, os
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        assert q['statement'].count('. ') <= 2, (q['id'], 'more than three sentences')
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": p['id'],
        "quick_cmd": "VERIF_TIER=quick ./check.sh " + p['id'],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p['id'],
        "technique": p['technique'],
        "level": "exploration",
        "level_note": p['level_note'],
    } for p in PROPS if not p.get('na')],
    "not_applicable": [{"property": p['id'], "reason": p['na']} for p in PROPS if p.get('na')],
}
with open(root + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
