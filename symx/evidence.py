import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def write(mod, prop, tier, seed, wall, total, notes, per_h, functions, jobs, unfinished,
          violations, unreproduced, divergences, known, samples):
    b = getattr(mod, 'BOUNDS', {})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'wall_s': round(wall, 2),
        'violations': violations,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real source (instrumented on import '
                           'from the current tree). A state is a completed path, i.e. the class of '
                           'all inputs with one path condition; a transition is a decision point '
                           'at which the solver (or exact domain propagation) found both '
                           'outcomes possible. Each property assertion asks the solver for '
                           'an input of the path that breaks it.',
            'bounds': b.get(tier) or b.get('quick', ''),
            'functions_encoded': sorted(functions),
            'scenarios': len(jobs),
            'states': total.get('paths', 0),
            'transitions': total.get('branches', 0),
            'traces_validated_against_impl': total.get('validated', 0),
            'samples': samples,
            'paths_infeasible': total.get('aborted', 0),
            'paths_undecided': total.get('undecided', 0),
            'path_prefixes_left_unexplored': unfinished,
            'solver_queries': total.get('queries', 0),
            'solver_unsat': total.get('unsat', 0),
            'solver_sat': total.get('sat', 0),
            'solver_unknown': total.get('unknown', 0),
            'solver_seconds': round(total.get('solver_s', 0.0), 2),
            'property_assertions': total.get('checks', 0),
            'concretizations': total.get('concretized', 0),
            'encoding_divergences': divergences,
            'unreproduced_counterexamples': unreproduced,
            'engine_notes': notes,
            'per_harness': per_h,
            'exhaustive': unfinished == 0 and not total.get('undecided', 0)
            and not total.get('concretized', 0),
            'known_findings_hit': sorted(known),
        },
    }
    finalize = getattr(mod, 'evidence', None)
    if finalize:
        finalize(ev)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
