#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "Runtime monitoring of the real code under generated workloads; holds for the executions observed (counted in the evidence), not for all. "
N = {
 'C01': ("model-based monitor over recording histories, every honest proof verified", ""),
 'C02': ("model-based monitor of total proofs over histories, plus judged false totals and roots", ""),
 'C03': ("rejection monitor over systematically altered, spliced and transplanted proofs", "Soundness is observed for the alterations enumerated, not for all adversaries."),
 'C04': ("rejection monitor over proofs built by malicious provers", "The forgers are calibrated on honest proofs in the same run; soundness is observed for the listed families of attacks only."),
 'C05': ("model-based monitor of reads over histories (Go map as oracle)", ""),
 'C06': ("state monitor recomputing every stored vertex from the model after updates", "Group arithmetic of mathlib is trusted."),
 'C07': ("online monitor of path length, range, determinism and injectivity; probes with time limits", ""),
 'C08': ("Go race detector plus verdict monitor under concurrent callers, injected delays and varied GOMAXPROCS", "Only schedules that occurred; races are those happens-before shows on them."),
 'C09': ("oracle over committed vectors: true and false openings and aggregations judged", "One genuine weakness is listed in known_findings.txt (key pp-aggregation-linear-shift)."),
 'C10': ("rejection/acceptance monitor over equality statements, transcript monitor", ""),
 'C11': ("rejection/acceptance monitor over sum statements, forgeries from observed challenges", ""),
 'C12': ("rejection/acceptance monitor over range statements, forging prover, transcript monitor", ""),
 'C13': ("oracle over inner products and reductions, forgeries from observed challenges", ""),
 'C14': ("deep before/after snapshots of all reachable state around every operation", ""),
 'C15': ("online freshness and guess-testing monitor over published elements", "Statistical hiding is not decided, only freshness and the listed guess tests."),
 'C16': ("round-trip oracle and independent decoder of the serialized stream", ""),
 'C17': ("fault enumeration at every store operation, state compared with a model", "Faults are panics before or after a store operation and empty reads."),
 'C18': ("differential monitor against big-integer arithmetic", ""),
 'C19': ("mutation of every list and reference of proofs, verified in supervised processes", ""),
 'C20': ("rejection monitor over altered parameters, digest-sensitivity monitor", ""),
}
done = set()
for f in os.listdir(os.path.join(here, 'harness')):
    if f.endswith('.go'):
        done |= set(re.findall(r'ID:\s+"(C\d\d)"', open(os.path.join(here, 'harness', f)).read()))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i not in done:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    t, note = N[i]
    checks.append({'property': i, 'quick_cmd': './run.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./run.sh ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': t,
                   'level': 'fault_enumeration' if i == 'C17' else 'exploration', 'level_note': (RM + note).strip()})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness links the packages of /repo and observes crypto/sha256 through a build overlay (tools/overlay.py). Fixes in /repo are the commits starting "fix:", see known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
