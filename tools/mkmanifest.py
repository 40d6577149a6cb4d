#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the lists below and the
properties registered in the harness (sim/harness/*.go)."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
src = ''.join(open(f).read() for f in glob.glob(here + '/sim/harness/*.go'))
have = set(re.findall(r'ID:\s*"([A-Z]\d\d)"', src))
NA = {
 'N01': 'pure function of two vectors: no concurrency, time, I/O, randomness or other party the result could depend on, so there is no schedule or fault for a simulator to choose',
 'N08': 'a numerical factorisation by gonum on one matrix; no schedule, fault, clock or randomness is involved',
 'N09': 'pure conversion between a value and its byte form; no environment takes part in it',
}
T = 'deterministic simulation with fault injection: seeded search over '
TECH = {
 'S': T + 'stream fragmentations, disk faults, crash images and map orders against a reference table or model',
 'B': T + 'goroutine schedules, preemptions, processor counts, map orders and failing members against a reference vote',
 'B05': T + 'goroutine schedules with preemption at every statement, under the race detector',
 'C': T + 'interleavings of schema operations, histories checked for linearizability against a sequential model',
 'R': T + 'random sequences, goroutine schedules and map orders against conservation and partition oracles',
 'P': T + 'row delivery orders, reused buffers, row-reading faults and map orders against row-wise reference predictions',
 'P05': T + 'orders in which rows are stored and delivered, reused buffers and map orders against an exhaustive reference and each other',
 'P07': T + 'orders of the columns, dataset layouts, views, class values of the test rows and map orders against the first answer',
 'P06': T + 'orders in which points are stored and delivered, reused buffers and map orders against the definition computed exhaustively',
 'S10': T + 'malformed records, damaged bytes and stream fragmentations against a reference reading of the text',
 'T': T + 'row delivery orders, reused buffers, map orders and concurrent predictions against the training rows that reach each node',
 'M': T + 'row delivery orders, reused buffers, random starts and map orders against a reference computed from the rows and the model\'s parameters',
 'N': T + 'row delivery orders, reused buffers, map orders and concurrent tasks against the definition computed over the rows',
 'V': T + 'operation histories, concurrent readers and map orders, refined against a simple table',
}
checks = []; na = []
for p in props:
    i = p['id']
    if i in have:
        tech = TECH.get(i, TECH[i[0]])
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=tech, level='exploration',
            level_note='Seeded simulation of the real code: every run is one exactly repeatable execution (schedule, map orders, random source, faults). Sampling, not exhaustive; see DESIGN.md section "%s" for the oracle and what is stubbed.' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash build.sh both',
  hooks=dict(guard='go build -overlay (no guard in the sources: the seams are generated at build time)',
     enable='bash /verif/build.sh: sim/instrument rewrites a copy of each golearn package and a few GOROOT runtime/os files into /verif/.build/overlay and builds them with -overlay; /repo itself carries no hook',
     source_commits=[]),
  checks=checks, not_applicable=na,
  notes='Every check is a seeded search driven by VERIF_SEED; a violation prints its replay file, which `bash replay.sh FILE` reproduces exactly. Commits in /repo are "fix:" commits only; see known_findings.json.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
