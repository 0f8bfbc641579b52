"""Worker: import the code under test, run the monitored cases it was given."""
import sys, os, json, importlib

real = os.fdopen(os.dup(1), 'w', buffering=1)     # monitor channel; C/C++ chatter on fd 1 goes to stderr
os.dup2(2, 1)


def send(obj):
    real.write('\n@RV ' + json.dumps(obj, default=str) + '\n')
    real.flush()


def numbering(rec):
    """half of the cases with UFC numbering of dofs (components not interleaved, not reordered)"""
    import dolfin as df
    reorder = bool((rec.case + rec.rng.integers(2)) % 2)
    df.parameters['reorder_dofs_serial'] = reorder
    rec.event('numbering:%s' % ('reordered' if reorder else 'ufc'))


def main():
    import warnings
    warnings.filterwarnings('ignore')
    prop, tier, seed, what = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    sys.setrecursionlimit(1500)
    mod = importlib.import_module('checks.' + prop)
    if what == '--plan':
        send({'n': len(mod.cases(tier, seed)), 'rule': mod.RULE, 'required': getattr(mod, 'REQUIRED', {}),
              'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'budget': getattr(mod, 'BUDGET', {}),
              'case_timeout': getattr(mod, 'CASE_TIMEOUT', 300)})
        return
    import core
    core.quiet()
    core.one_builder()
    import faulthandler
    faulthandler.enable()             # after PETSc's own handlers
    cases = mod.cases(tier, seed)
    for cid in map(int, what.split(',')):
        send({'k': 'start', 'case': cid})
        rec = core.Recorder(prop, seed, cid)
        numbering(rec)
        rec.run(mod.run, cases[cid])
        send(rec.report())


main()
os._exit(0)       # no interpreter teardown: PETSc finalizers are not under observation
