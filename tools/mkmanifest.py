#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: properties whose checks exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'explicit enumeration of complete key lives (all indices, scaled shapes and official sets), real code, verify after each signature',
 'C02': 'explicit enumeration of key lives, index alphabets and all call histories up to a depth, real code',
 'C03': 'explicit enumeration of key lives to the end and of all call sequences on exhausted keys, real code',
 'C04': 'lock-step enumeration of both implementations over complete key lives (bisimulation check), real code',
 'C05': 'explicit-state reference model of RFC 8391/SP 800-208 compared state by state with the real code over whole key lives',
 'C06': 'exhaustive enumeration of alterations (all bits, pairs, truncations) of signed messages on the real verifier',
 'C07': 'enumeration of arbitrary signatures x index alphabet x all parameter sets against a reference model of verification',
 'C08': 'enumeration of all message / signed-message lengths with guard-page buffers and AddressSanitizer, real code',
 'C09': 'exhaustive enumeration of all 2^32 identifiers and of all names and single edits of them, real code',
 'C10': 'exhaustive enumeration of identifier x call, with guard pages and write detection, real code',
 'C11': 'exploration of call histories x stale-memory contents with state-difference detection, real code',
 'C12': 'stateless model checking: all schedules of two operations up to a preemption bound, real code under a controlled scheduler',
 'C13': 'exhaustive enumeration of entropy-source fault sequences up to a depth, real code',
 'C14': 'exhaustive enumeration of chain positions and checksum values; order-theoretic check of all digit vectors by checksum classes',
 'C15': 'exhaustive enumeration of input and output lengths against an independent Keccak model, real code',
 'C16': 'explicit enumeration of key lives with a monitor attributing every one-time signature, real code',
 'C17': 'exhaustive enumeration of crash points, system-call faults and two-process interleavings of the real signing tools under ptrace',
 'C18': 'exhaustive enumeration of input corruptions and system-call faults of all twelve real tools under ptrace',
 'C19': 'explicit enumeration of key lives with a monitor decoding every hash input of the real code',
 'C20': 'explicit enumeration of key lives counting leaf computations per signature, real code',
}
LEVEL = {c: 'model_checking' for c in T}
LEVEL.update({'C13': 'fault_enumeration', 'C17': 'fault_enumeration', 'C18': 'fault_enumeration'})
NOTE = 'every behaviour within the bounds stated in DESIGN.md is executed on the code built from /repo; nothing is sampled; bounds and stand-ins are listed in the evidence file'
CLAIMED = open(os.path.join(HERE, 'tools', 'claimed')).read().split()
NA = {'C21': 'a computational hardness statement about hash functions: there is no finite space of behaviours whose enumeration would decide it',}
m = {'version': 1, 'setup_cmd': 'python3 mc/build.py',
     'checks': [{'property': c, 'quick_cmd': 'python3 check.py ' + c, 'thorough_cmd': 'python3 check.py %s --tier thorough' % c,
                 'evidence_file': 'evidence/%s.json' % c, 'technique': 'model checking: ' + T[c], 'level': LEVEL[c], 'level_note': NOTE} for c in T if c in CLAIMED],
     'not_applicable': [{'property': c, 'reason': r} for c, r in NA.items()] +
                       [{'property': c, 'reason': 'check under construction'} for c in T if c not in CLAIMED]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
