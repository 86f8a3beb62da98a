"""MANIFEST.json from lib/checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import checks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick', thorough_cmd=f'python3 check.py {p} --tier thorough', evidence_file=f'evidence/{p}.json',
                      technique=c['technique'], level=c['level'], level_note=c['level_note']) for p, c in sorted(checks.CHECKS.items())],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')) for p in props if p['id'] not in checks.CHECKS],
         notes='All checks run the real library code from the working tree of /repo on a simulated MPI layer (sim/); no hooks in /repo are needed. Genuine defects: known_findings.txt, DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
