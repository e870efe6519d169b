import json
def write(path, prop, tier, cov, msg, wall):
    c = {'violations': 1, 'message': msg} if cov is None else {
        'states': cov['states'], 'transitions': cov['transitions'], 'traces_validated_against_impl': cov['traces'],
        'evaluations': cov['executions'], 'rule': cov['what'], 'samples': cov['samples'],
        'meaning': cov['meaning'], 'exhaustive': False,
    }
    json.dump({'property': prop, 'tier': tier, 'seed': 1, 'level': 'model_checking', 'coverage': c,
               'assumptions': ['rustc and the crates quote, proc-macro2, num_cpus, tokio behave as documented', 'declarations outside the stated bounds are not covered'],
               'violations': 0 if msg is None else 1, 'wall_s': wall}, open(path, 'w'), indent=1)
