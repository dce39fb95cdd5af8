#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, subprocess
CLAIMED = {
 'P01': 'Seeded schedules of up to 4 clients on one set; every lookup and expansion is compared with a new set built from the definitions that are live at that moment by a map model, and every write is followed by a kind probe.',
 'P02': 'Every return value of define and undefine in generated histories is compared with a map model; histories favour redefinitions that differ only in white space, length, order, parameter list or kind.',
 'P03': 'Allocation failures, failing token sources and failing text conversions at seeded points of define calls; afterwards everything observable must be as before or as after the complete call, and the set must go on as if the call had never or had completely happened.',
 'P04': 'Preemption at every allocation of concurrent readers (and a writer behind a lock), reads cut short by allocation and context failures; every read is compared with a lone reader on a set that went through the same writes.',
 'P05': 'Histories of clone, drop and divergent writes on up to 8 sets by up to 4 clients, with cut-short writes; every read is compared with a set that went through the same writes alone.',
 'P06': 'The same workload in 2 to 4 environments that differ in hash keys, clock, memory layout, schedule or definition order; all results, including generated code, are compared byte for byte.',
 'P08': 'Every expansion in generated histories without # and ## is compared with a reference preprocessor written from the standard (context stack, painting); inputs the model does not specify are counted and skipped.',
 'P09': 'As P08 with a workload made of #, ## and variable arguments.',
 'P10': 'Definitions that lost, duplicated, reordered, corrupted or foreign tokens; every lookup and expansion must return within a budget of allocations and memory, and within a quadratic bound of the reference preprocessor\'s work where that has an answer.',
 'P12': 'A set is damaged and repaired while every name is probed; results of names that cannot reach a damaged name (over-approximated reachability) must not change.',
}
NA = {
 'P17': 'Pure function of one token text: no schedule, clock, I/O, fault or history in it; deterministic simulation would be input generation in disguise.',
 'P18': 'Constant folding is a pure function of one expression; nothing a scheduler or a fault could influence.',
 'P19': 'Operator precedence and grouping of generated expressions is a pure function of the token list.',
 'P20': 'The mapping of C types is a pure function of the type tokens and the context\'s answers; the history-dependent part (what unusable or changing answers do) is claimed in P13 and P16.',
 'P21': 'Statement and inline assembly translation is a pure function of the token list.',
}
import os
extra = os.path.join(os.path.dirname(__file__), 'claimed_gen.json')
if os.path.exists(extra):
    CLAIMED.update(json.load(open(extra)))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection (seeded schedule and fault search)', level='exploration',
            level_note=CLAIMED[i] + ' Sampling: evidence, not proof. Trusts the simulator\'s seams (allocator, futex, getrandom, clock), the map model and the reference used as oracle.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not built yet.')))
m = dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=na,
    notes='The simulator is /verif/sim (crate cmsim, path dependency on /repo). No hooks in /repo were needed: every seam is the allocator, the C library or a trait the public API takes. Replay: ./check.sh replay FILE.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
