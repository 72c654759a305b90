#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry in lib/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props  # noqa

TECH = {
    'C01': 'runtime monitoring: ASan/UBSan build (also with red zones inside the node pool) under hostile inputs and settings, hang watchdog, accept/reject oracle, undisturbed-reference monitor',
    'C02': 'runtime monitoring: lattice and path walker over random models under ASan/UBSan',
    'C03': 'runtime monitoring: observed lattice compared with a reference dictionary lookup over random models under ASan/UBSan',
    'C04': 'runtime monitoring: observed lattice compared with a reference unknown-word generator over random models under ASan/UBSan',
    'C05': 'runtime monitoring: observed scores compared with independently computed features over random models under ASan/UBSan',
    'C06': 'runtime monitoring: every beam recomputed by an oracle, exhaustive enumeration for short inputs, under ASan/UBSan',
    'C07': 'runtime monitoring: used analyzer compared with fresh ones over random histories under ASan/UBSan, allocated-bytes monitor, runs with different memory fill and under valgrind compared',
    'C08': 'runtime monitoring: thread sanitizer over concurrent analyzers of one model, results compared with sequential ones',
    'C16': 'runtime monitoring: gold paths, losses, feature differences and every weight before and after updates compared with independent computations of them under ASan/UBSan and valgrind, training runs repeated with different memory contents',
    'C17': 'runtime monitoring: recorded event logs of queue and executor operations from many threads with injected pauses and failures checked against the queue specification, thread sanitizer, deadlock watchdog',
    'C18': 'runtime monitoring: generated and interpreted features run side by side over random models, specs and sentences, all outputs compared',
    'C12': 'runtime monitoring: ASan/UBSan build driven over all code points and hostile bytes, independent RFC 3629 / class-table oracle',
    'C13': 'runtime monitoring: every output format compared with a reference rendering of the observed lattice under ASan/UBSan',
    'C10': 'runtime monitoring: written, reread, truncated and damaged model files and killed saves under ASan/UBSan and valgrind, blocks and analyses compared with the ones in memory',
    'C11': 'runtime monitoring: specifications compiled from code, from text and from their saved form compared with each other, injected mistakes and mutated texts under ASan/UBSan and valgrind',
    'C14': 'runtime monitoring: the real command line program (ASan/UBSan) fed with random line streams, output, messages and status compared with a reference reader and with the results of single sentences',
    'C23': 'runtime monitoring: option parser compared with a reference parser under ASan/UBSan, the real program run with random layers of settings and compared with runs that give the effective settings directly',
    'C15': 'runtime monitoring: results of annotated sentences checked against the annotations over an independently computed candidate set under ASan/UBSan, histories compared with fresh analyzers',
    'C24': 'runtime monitoring: explained features and weights of every printed node compared with independently computed ones and with the scores of the same analysis under ASan/UBSan',
    'C09': 'runtime monitoring: every entry of compiled and reloaded dictionaries compared with an independent reading of the CSV, intact and damaged, under ASan/UBSan and valgrind',
    'C19': 'runtime monitoring: scores of all paths compared with an independent evaluation of the network under ASan/UBSan and valgrind, networks as files, embedded, replaced and damaged, and the real programs compared with each other',
    'C25': 'runtime monitoring: the real bootstrap and training programs (ASan/UBSan) run with injected faults of inputs, settings and outputs, their status, messages and files judged, files of valid runs used by the analyser',
    'C20': 'runtime monitoring: ASan/UBSan, round-trip and independent-encoder oracle, red-zoned truncation/damage injection',
    'C21': 'runtime monitoring: lock-step reference containers over random operation histories under ASan/UBSan',
    'C22': 'runtime monitoring: differential oracle against an independent CSV parser under ASan/UBSan with hang watchdog',
}
NOTE = ('Held on the executions observed: the real code is rebuilt from '
        '/repo, run under sanitizers on generated workloads and judged by an '
        'independent oracle; nothing is claimed for executions not run.')

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {i: 'check not built yet' for i in ids if i not in props.P}
NA.update(getattr(props, 'NOT_APPLICABLE', {}))
checks = []
for i in ids:
    if i in props.P and i not in getattr(props, 'NOT_APPLICABLE', {}):
        d = props.P[i]
        checks.append({
            'property': i,
            'quick_cmd': './check %s quick' % i,
            'thorough_cmd': './check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': d.get('technique') or TECH.get(i) or 'runtime monitoring',
            'level': 'exploration',
            'level_note': NOTE,
        })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks are needed: harnesses observe through the public headers; builds come from lib/jppbuild.py', 'source_commits': []},
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA.items())],
    'notes': 'Checks build /repo out of tree into /verif/.build (cached by content hash).',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
