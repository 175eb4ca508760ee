#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from harness/meta.py and harness/props.py.
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H + '/harness')
import meta, props
rows, checks = [], []
for pid in sorted(meta.META):
    if pid not in props.PROPS and pid not in meta.NA: continue
    m = meta.META[pid]
    assert len(m['title']) <= 80, pid
    rows.append(dict(id=pid, title=m['title'], statement=m['statement'], quantifier=dict(over=m['over'], text=m['text']), why_tests_cant=m['why'],
        anchors=dict(files=m['files'], mechanism=[dict(name=a, where=b) for a, b in m['mech']])))
    if pid in props.PROPS:
        assert m['bounds'], pid
        checks.append(dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
            technique='symbolic execution of the LLVM IR of the real code with SMT (Z3) verdicts, counterexamples replayed natively',
            level='model_checking', level_note='All inputs within the bounds: ' + m['bounds'] + '. Trusts the models of libstdc++/libc/zlib in shim/ (path witnesses are re-run against the native build), the executor and Z3.'))
open(H + '/properties.jsonl', 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(meta.NA.items())],
    notes='See DESIGN.md. No hooks are needed in the repository; commits there are repairs (fix:).'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(rows), 'properties,', len(checks), 'checks')
