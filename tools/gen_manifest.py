"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C20': 'Whether a type is Send or Sync is decided by the type checker and leaves no trace in the compiled code: there is no '
             'execution, input or schedule to make symbolic, so no solver query over the implementation can decide it.'}
T = ('SAT-based bounded model checking of the compiled code: LLVM IR of the crate (rustc, from /repo) executed symbolically '
     'over all schedules and inputs of small scenarios, bit-blasted and decided by a SAT solver; counterexamples replayed natively')
SPEC = {
    'C02': ' (data races by symbolic happens-before clocks over the actual memory orderings)',
    'C04': ' (progress: other threads stopped at every point, then the operation must return)',
    'C14': ' (clock, timeouts and spurious unparks symbolic)',
    'C19': ' (no_std build of the crate)',
    'C21': ' (allocator calls as violations)',
}
NOTE = ('Exhaustive within the bounds of each scenario: the stated threads, operations, capacities 1-3, scheduling rounds and loop '
        'unrollings (see DESIGN.md and the evidence file). Assumes sequentially consistent values (races are checked separately '
        'under C02), the documented contracts of parking_lot/std parking, allocator and clock, and trusts rustc, LLVM opt and the SAT '
        'solver. Witnesses and counterexamples are replayed on the natively compiled code.')
checks = [dict(property=i, quick_cmd='python3 mc/check.py %s' % i, thorough_cmd='python3 mc/check.py %s --tier thorough' % i,
               evidence_file='evidence/%s.json' % i, technique=T + SPEC.get(i, ''), level='model_checking', level_note=NOTE)
          for i in ids if i not in NA]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='No hooks in /repo: the checks drive the public API. Known findings: known_findings.json.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
