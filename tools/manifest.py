#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of claimed properties.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = "Seeded search over simulated schedules, faults and crash points; a bug is found with high probability, its absence is not proved. "
claimed = json.load(open(os.path.join(here, 'tools/claimed.json')))
na = json.load(open(os.path.join(here, 'tools/not_applicable.json')))
checks, rest = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection (seeded search)" ,
            level="exploration", level_note=NOTE + claimed[i]))
    else:
        rest.append(dict(property=i, reason=na.get(i, "not built yet")))
m = dict(version=1, setup_cmd='d=$(mktemp -d) && bash build.sh "$d" && rm -rf "$d"',
    hooks=dict(guard="none: seams are added to a generated copy of the sources through go build -overlay", enable="bash build.sh OUTDIR", source_commits=[]),
    checks=checks, not_applicable=rest)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(rest), 'not')
