#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after adding a check."""
import json
tech = {
 'C01': 'seeded schedule search at statement granularity; each query compared with the same call alone',
 'C02': 'seeded schedule search at statement granularity; each write compared with the same call alone',
 'C03': 'seeded simulation of long histories with failures, panics and restarts; each call compared with the same call alone',
 'C04': 'seeded schedule search with a happens-before monitor on the chosen schedule',
 'C05': 'seeded schedule search; per-name linearizability of the recorded registry history',
 'C06': 'seeded simulation of hostile registry histories with crashing callbacks; invariant after every call',
 'C07': 'seeded schedule search with registry churn between stages; interval check over the recorded history',
 'C08': 'seeded schedule search with stalled and re-entrant callbacks; bounded progress and deadlock detection',
 'C09': 'seeded injection of callback panics and goroutine exits; later and concurrent calls compared with reference',
 'C10': 'seeded schedule search over shared results; deep snapshots compared at every check point',
 'C11': 'seeded schedule search with guarded and scribbled caller memory',
 'C12': 'seeded map order, object reuse, schedule and restart choices; outcomes compared between executions',
 'C13': 'seeded simulation of clients editing one document with crashes, stalls and lost swaps; refinement of a tree model',
 'C14': 'seeded failure injection into batches; all-or-nothing and fold equality',
 'C15': 'simulated storage faults (torn, flipped, lost, duplicated, spliced) under seeded schedules',
 'C16': 'seeded simulation of growing histories; live heap compared between lengths',
}
trust = 'Assumes the instrumenter keeps the meaning of the code and that sequentially consistent interleavings between statements suffice. '
note = {
 'C01': 'Sampled schedules and inputs; the reference is the code itself alone after a restart, so a value that is wrong in every schedule is not reported here. ',
 'C02': 'Sampled schedules and inputs; the reference is the code itself alone after a restart. ',
 'C03': 'Sampled histories; the reference is the code itself alone after a restart. ',
 'C04': 'Sampled schedules; an unsynchronised pair is reported when it occurs on a chosen schedule, judged by the race detector over the library\'s own synchronisation only. ',
 'C05': 'Sampled schedules; complete decision per recorded history (small histories). ',
 'C06': 'Sampled histories and schedules. ',
 'C07': 'Sampled schedules on paths that select a single target. ',
 'C08': 'Sampled schedules; progress is bounded by a step budget. ',
 'C09': 'Sampled crash points and schedules. ',
 'C10': 'Sampled schedules; writes to a result are seen at the next check point. ',
 'C11': 'Sampled schedules; memory is compared after each call and at preemptions inside it. ',
 'C12': 'Sampled; map order is a seeded choice at every range over a map, hash seeds and addresses are only varied between worker processes. ',
 'C13': 'Sampled; the reference model is an element tree built with encoding/xml. ',
 'C14': 'Sampled failure points and kinds; the reference is the fold of single edits. ',
 'C15': 'Every cut offset of small documents, sampled ones of larger documents, sampled damage otherwise. ',
 'C16': 'Sampled histories; bounded means far below the cost of keeping one path per call. ',
}
done = [l.strip() for l in open('claimed.txt')]
props = [json.loads(l) for l in open('properties.jsonl')]
na = {
 'N01': 'Selection by a path is a function of the document and the path of one call.',
 'N02': 'Filter evaluation is a function of the document and the path of one call.',
 'N03': 'Escaping and unescaping are functions of one value; no schedule, fault or second party is involved.',
 'N04': 'Well-formedness of an edit is a function of the document, path and value of one call. Edit sequences by several clients are under C13.',
 'N05': 'Limits are functions of the sizes of the arguments of one call. Limits met half way through a batch are under C14.',
 'N06': 'Entity handling is a function of the document, and the library does no I/O that could be simulated.',
 'N07': 'The accepted language is a function of the document. Refusal of torn documents is under C15.',
 'N08': 'Conversions are functions of one immutable result.',
 'N09': 'Pattern matching is a pure function of two strings.',
 'N10': 'Name matching is a function of the names and options of one call.',
 'N11': 'Formatting is a pure function of one result.',
}
m = {
 'version': 1,
 'setup_cmd': 'bash setup.sh',
 'checks': [{'property': p, 'quick_cmd': f'bash check.sh {p} quick', 'thorough_cmd': f'bash check.sh {p} thorough',
   'evidence_file': f'evidence/{p}.json', 'technique': tech[p], 'level': 'exploration',
   'level_note': note[p] + trust + 'See DESIGN.md.'} for p in done],
 'not_applicable': [{'property': p['id'], 'reason': na[p['id']] + ' A simulator would only be an input generator.'} for p in props if p['id'] in na],
 'notes': 'No hooks in /repo: the checks instrument a copy of its working tree at build time. replay.sh FILE re-executes a violation; selftest.sh checks determinism across processes and worker counts.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
