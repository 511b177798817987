"""symx.replay - evaluates a harness on one concrete assignment against the
real, uninstrumented code.   python3-vt -m symx.replay FILE.json"""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(mod, env, harness, params, model):
    from .core import ConcreteCtx, PathAbort
    ctx = ConcreteCtx(model)
    env.restore()
    try:
        getattr(mod, harness)(ctx, env, **params)
    except PathAbort as e:
        return {'error': 'aborted: ' + repr(e)}
    except Exception:
        return {'error': traceback.format_exc()[-2000:], 'violations': ctx.violations,
                'observations': ctx.observations}
    return {'violations': ctx.violations, 'observations': ctx.observations}


def main():
    sys.path.insert(0, VERIF)
    from .env import Env
    if sys.argv[1] == '--serve':
        out = os.fdopen(os.dup(1), 'w')
        sys.stdout = sys.stderr
        mod = importlib.import_module(sys.argv[2])
        env = Env(False)
        for line in sys.stdin:
            harness, params, model = json.loads(line)
            r = run(mod, env, harness, params, model)
            out.write(json.dumps(r) + '\n')
            out.flush()
        return 0
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module(d['module'])
    r = run(mod, Env(False), d['harness'], d['params'], d['model'])
    print(json.dumps(r, indent=1))
    return 1 if r.get('violations') else 0


if __name__ == '__main__':
    sys.exit(main())
