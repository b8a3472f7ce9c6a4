"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ('TLC explores the bounded model exhaustively; the real code (all of /repo/src, rebuilt with AddressSanitizer) is run on '
        'scripted histories, from TLC-generated behaviours and seeded generators, and every recorded execution is checked by TLC '
        'against the same specification. Assurance covers the histories executed (listed in the evidence); trusts TLC, the '
        'recording driver and the compiler. ')
EXTRA = getattr(checks, 'NOTES', {})
NA = {}
m = dict(version=1, setup_cmd='python3 lib/warm.py', checks=[], not_applicable=[],
         notes='Language: TLA+ (TLC). Specifications in spec/, drivers in drivers/, entry point check.py. Findings: known_findings.txt.')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                                evidence_file='evidence/%s.json' % i,
                                technique='TLA+ specification: TLC model checking, TLC-generated histories and TLC trace validation of the real code',
                                level='model_checking', level_note=NOTE + EXTRA.get(i, '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'Not covered yet: the check for it is under construction.')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
