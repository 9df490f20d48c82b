#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when its monitor exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitor: model-based observation of store/read histories under ASan+UBSan',
 'C02': 'runtime monitor: copy/alias/independence observer under ASan+UBSan',
 'C03': 'sanitizers: ASan+UBSan+libstdc++ assertions, fill-byte differential and leak accounting over random API histories',
 'C04': 'runtime monitor: reference promotion model under ASan+UBSan',
 'C05': 'runtime monitor: exact-conversion oracle under ASan+UBSan (float-cast-overflow)',
 'C06': 'runtime monitor: dictionary model over operation histories under ASan+UBSan',
 'C07': 'runtime monitor: positional oracle with bounds probing under ASan+UBSan',
 'C08': 'runtime monitor: reference equality on almost-equal pairs under ASan+UBSan',
 'C09': 'runtime monitor: reference union model under ASan+UBSan',
 'C10': 'runtime monitor: reference compaction plus leaf conservation under ASan+UBSan',
 'C11': 'runtime monitor: bit-exact round trip and size oracle under ASan+UBSan',
 'C12': 'sanitizers: mutated and truncated bytes under ASan+UBSan with allocation and CPU monitors',
 'C13': 'runtime monitor: independent RFC 8259 parser and round-trip oracle under ASan+UBSan',
 'C14': 'runtime monitor: generated JSON documents with a known meaning, mutation fuzzing under ASan+UBSan',
 'C15': 'runtime monitor: YAML round-trip oracle under ASan+UBSan',
 'C16': 'runtime monitor: TOML round-trip oracle under ASan+UBSan',
 'C17': 'runtime monitor: generated YAML/TOML documents with a known meaning, mutation fuzzing under ASan+UBSan',
 'C18': 'runtime monitor: independent table parser/writer oracle under ASan+UBSan',
 'C19': 'runtime monitor: token-conservation and stream-state observer under ASan+UBSan',
 'C20': 'runtime monitor: reference model of the C interface over call histories under ASan+UBSan',
 'C21': 'runtime monitor: Lua round-trip and call-history oracle under ASan (Lua stack hooks)',
 'C22': 'race detector: ThreadSanitizer over concurrent const readers and separate containers, results compared with sequential runs',
 'C24': 'runtime monitor: Ruby program over load/read histories with an independent canonical form, instrumented (ASan+UBSan) library',
 'C25': 'runtime monitor: stand-in MATLAB runtime (exact-size arrays) with a value oracle in both directions under ASan+UBSan',
 'C23': 'fault injection: every allocation index of each operation failed in turn under ASan with leak accounting',
}
NOTE = {
 'exploration': 'Held on every execution produced (deterministic in VERIF_SEED; counts in the evidence file). Trusts the sanitizer runtimes and the reference model in harness/; executions not produced are not covered.',
 'fault_enumeration': 'Each allocation of each generated operation is failed in turn (single and sticky failures). Trusts the operator-new interposition and the sanitizer runtimes; operations and states are sampled.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if any(os.path.exists('%s/harness/p_%s.%s' % (V, i, e)) for e in ('cc', 'rb')):
        lv = 'fault_enumeration' if i == 'C23' else 'exploration'
        checks.append(dict(property=i, quick_cmd='python3 run_check.py %s quick' % i, thorough_cmd='python3 run_check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level=lv, level_note=NOTE[lv]))
    else:
        na.append(dict(property=i, reason='the monitor for this property is not built yet'))
m = dict(version=1, setup_cmd='python3 run_check.py --setup', hooks=dict(guard='none', enable='no hooks in /repo are needed: the monitors observe through the public interface, interposed allocation and compiler instrumentation', source_commits=[]),
         checks=checks, not_applicable=na, notes='One runner (run_check.py) builds the monitor of a property from the working tree of /repo and runs it on all cores; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
