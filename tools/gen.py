import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            "id": p['id'], "title": p['title'], "statement": p['statement'],
            "quantifier": {"over": p['over'], "text": p['text']},
            "why_tests_cant": p['why'],
            "anchors": {"files": p['files'], "mechanism": [{"name": n, "where": w} for n, w in p['mechanism']],
                        "state": [{"name": s} for s in p['state']], "observe_at": p['observe'], "hook_needed": p['hook']},
        }) + '\n')
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed in /repo: every monitor observes the public interface", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    if p['na']:
        m['not_applicable'].append({"property": p['id'], "reason": p['na']})
        continue
    m['checks'].append({"property": p['id'], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                        "technique": p['tech'], "level": "exploration", "level_note": p['note']})
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(P), "properties,", len(m['checks']), "checks")
