"""symx.driver - explores harnesses, replays counterexamples, writes evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ exploring
class Tracker:
    """which functions of the code under test were executed (sys.monitoring)"""
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.seen = set()
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, 'symx')
        mon.register_callback(self.tool, mon.events.PY_START, self.cb)
        mon.set_events(self.tool, mon.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.root):
            self.seen.add(fn[len(self.root):] + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


class Replayer:
    def __init__(self, module):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = '0'
        self.p = subprocess.Popen([sys.executable, '-m', 'symx.replay', '--serve', module],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=VERIF,
                                  text=True, env=env)

    def run(self, harness, params, model):
        try:
            self.p.stdin.write(json.dumps([harness, params, model]) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                return {'error': 'replay process died'}
            return json.loads(line)
        except Exception as e:
            return {'error': repr(e)}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_W = {}


def worker_init(modname, validate_every):
    from . import core, rt, env as envm
    _W['mod'] = importlib.import_module(modname)
    _W['env'] = envm.Env(True)
    _W['track'] = Tracker(envm.REPO)
    _W['modname'] = modname
    _W['known'] = {k['label'] for k in load_known() if k['property'].lower() == modname[-3:]}
    _W['replay'] = None
    _W['every'] = validate_every
    _W['ctx'] = core.Ctx()
    warm = getattr(_W['mod'], 'warmup', None)
    if warm:
        warm(_W['env'])


def replayer():
    if _W['replay'] is None or _W['replay'].p.poll() is not None:
        _W['replay'] = Replayer(_W['modname'])
    return _W['replay']


def run_job(job):
    try:
        return _run_job(job)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        from . import core
        return {'id': job[0], 'harness': job[1], 'params': job[2], 'violations': [], 'rest': [],
                'samples': [], 'stats': core.Stats().as_dict(), 'functions': [],
                'errors': [f'{job[1]} {job[2]}: {type(e).__name__} {e!r}']}


def _run_job(job):
    """job: (id, harness, params, prefixes, slice seconds)"""
    from . import core, rt
    jid, hname, params, prefixes, slice_s, deadline = job
    ctx = _W['ctx']
    ctx.stats = st = core.Stats()
    fn = getattr(_W['mod'], hname)
    stack = [list(p) for p in prefixes]
    t0 = time.time()
    out = {'id': jid, 'harness': hname, 'params': params, 'violations': [], 'errors': [],
           'rest': [], 'samples': []}
    every = _W['every']
    while stack:
        now = time.time()
        if now - t0 > slice_s or now > deadline:
            out['rest'] = stack
            break
        prefix = stack.pop()
        ctx.reset(prefix)
        _W['env'].restore()
        rt.set_ctx(ctx)
        ok = False
        try:
            fn(ctx, _W['env'], **params)
            ok = True
        except core.Infeasible:
            st.aborted += 1
        except core.Undecided as e:
            st.undecided += 1
            ctx.note('undecided: ' + str(e)[:200])
        except RecursionError:
            st.undecided += 1
            ctx.note('undecided: recursion limit')
        except Exception:
            out['errors'].append(traceback.format_exc()[-3000:] + f'\nparams={params} prefix={ctx.trace}')
            if len(out['errors']) > 3:
                rt.set_ctx(None)
                return finish(out, st)
        finally:
            rt.set_ctx(None)
        if len(ctx.trace) < len(prefix):
            out['errors'].append(f'nondeterministic re-execution: {hname} {params} '
                                 f'{prefix} vs {ctx.trace}')
        stack.extend(ctx.pending)
        if ok:
            st.paths += 1
            for v in ctx.violations:
                if v['label'] in _W['known'] and sum(x['label'] == v['label']
                                                     for x in out['violations']) >= 2:
                    continue
                out['violations'].append(dict(v, harness=hname, params=params))
            if not ctx.violations and ctx.observations and every and \
                    (st.paths % every == 1 or every == 1):
                validate(ctx, st, out, hname, params)
        if sum(v['label'] not in _W['known'] for v in out['violations']) >= 8:
            out['rest'] = []
            break
    return finish(out, st)


def validate(ctx, st, out, hname, params):
    """replay one model of the path on the real code and compare observations"""
    m = ctx.feasible()
    if m is None:
        out['errors'].append(f'infeasible path reported: {hname} {params} {ctx.trace}')
        return
    model = ctx.model_inputs(m)
    obs = [ctx.show(o, m) for o in ctx.observations]
    r = replayer().run(hname, params, model)
    st.validated += 1
    if len(out['samples']) < 2:
        out['samples'].append({'harness': hname, 'params': params, 'inputs': model,
                               'observed': obs})
    if r.get('violations'):
        # the real code breaks the property on this model although the
        # encoding did not see it: still a genuine counterexample
        v = r['violations'][0]
        out['violations'].append({'label': v['label'], 'detail': v['detail'], 'model': model,
                                  'harness': hname, 'params': params, 'by': 'validation'})
    elif 'error' in r or r.get('observations') != obs:
        st.diverged += 1
        if len(out['errors']) < 3:
            out.setdefault('divergences', []).append(
                {'harness': hname, 'params': params, 'model': model, 'symbolic': obs,
                 'concrete': r.get('observations'), 'error': r.get('error')})


def finish(out, st):
    out['stats'] = st.as_dict()
    out['functions'] = sorted(_W['track'].seen)
    return out


# ----------------------------------------------------------------------- main
def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    known = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                known.append(json.loads(line[7:]))
    return known


def matches_known(v, known, prop):
    """an entry names the harness, the failing assertion and the input"""
    for k in known:
        if k['property'] != prop or k['label'] != v['label']:
            continue
        if all(sub in v['detail'] for sub in k.get('detail_contains', [])):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('--only', default='')
    ap.add_argument('--limit', type=float, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = 'checks.' + prop.lower()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    t0 = time.time()
    limit = a.limit or getattr(mod, 'LIMIT', {}).get(a.tier) or (240 if a.tier == 'quick' else 840)
    deadline = t0 + limit
    jobs = [j for j in mod.jobs(a.tier) if a.only in j[0] + ' ' + json.dumps(j[1])]
    every = getattr(mod, 'VALIDATE', {}).get(a.tier, 7)
    queue = [(i, h, p, [[]]) for i, (h, p) in enumerate(jobs)]
    random.Random(seed).shuffle(queue)
    total = {}
    notes = {}
    violations, errors, divergences = [], [], []
    functions = set()
    samples = []
    per_h = {}
    jp = {}
    unfinished = 0
    known = load_known()
    known_labels = {k['label'] for k in known if k['property'] == prop}
    ctxm = mp.get_context('fork')
    nproc = max(1, a.jobs)
    pool = ctxm.Pool(nproc, worker_init, (modname, every))
    pend = []
    stop = False

    def submit(q):
        pend.append(pool.apply_async(run_job, (q + (8.0 if a.tier == 'quick' else 20.0, deadline),)))

    try:
        backlog = list(queue)
        while backlog or pend:
            while backlog and len(pend) < nproc * 2 and not stop:
                submit(backlog.pop())
            if stop:
                backlog.clear()
            done = [p for p in pend if p.ready()]
            if not done:
                time.sleep(0.01)
                if time.time() > deadline + 120:
                    errors.append('worker did not return in time')
                    break
                continue
            for p in done:
                pend.remove(p)
                r = p.get()
                s = r['stats']
                for k, v in s.items():
                    if k == 'notes':
                        for n, c in v.items():
                            notes[n] = notes.get(n, 0) + c
                    else:
                        total[k] = total.get(k, 0) + v
                ph = per_h.setdefault(r['harness'], {'paths': 0, 'jobs': 0})
                ph['paths'] += s['paths']
                jp[r['id']] = jp.get(r['id'], 0) + s['paths']
                functions.update(r['functions'])
                errors.extend(r['errors'])
                if len(samples) < 6 and r['samples']:
                    samples.append(r['samples'][0])
                divergences.extend(r.get('divergences', []))
                violations.extend(r['violations'])
                if r['rest']:
                    if time.time() < deadline and not stop:
                        # split the remaining work
                        rest = r['rest']
                        n = min(len(rest), 4)
                        for i in range(n):
                            backlog.append((r['id'], r['harness'], r['params'], rest[i::n]))
                    else:
                        unfinished += len(r['rest'])
                else:
                    ph['jobs'] += 1
                if sum(v['label'] not in known_labels for v in violations) >= 12 or len(errors) > 5:
                    stop = True
    finally:
        pool.terminate()
    wall = time.time() - t0
    # ---- counterexamples: replay on the real code before reporting
    reported, unreproduced, known_hits = [], [], {}
    rep = Replayer(modname) if violations else None
    seen = {}
    for v in sorted(violations, key=lambda v: len(json.dumps(v['model']))):
        key = (v['label'],)
        if seen.get(key, 0) >= 6:
            continue
        seen[key] = seen.get(key, 0) + 1
        r = rep.run(v['harness'], v['params'], v['model'])
        if r.get('violations'):
            vv = dict(v, detail=r['violations'][0]['detail'], label=r['violations'][0]['label'])
            k = matches_known(vv, known, prop)
            if k:
                known_hits[k['what']] = k
            else:
                reported.append(vv)
        else:
            unreproduced.append((v, r))
    if rep:
        rep.close()
    for k in known:
        if k['property'] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    status = 0
    labels = set()
    n_rep = 0
    for v in reported:
        if v['label'] in labels:
            continue
        labels.add(v['label'])
        d = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.md5(json.dumps([v['harness'], v['params'], v['model']], sort_keys=True)
                        .encode()).hexdigest()[:10]
        path = os.path.join(d, f'{prop}-{h}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'module': modname, 'harness': v['harness'],
                       'params': v['params'], 'model': v['model'], 'label': v['label'],
                       'detail': v['detail']}, f, indent=1)
        print(f"counterexample ({v['label']}): {v['detail'][:1500]}")
        print(f'VIOLATION property={prop} replay={path}')
        status = 1
        n_rep += 1
    if not status:
        # paths on which the symbolic and the concrete execution differ, are undecided. This
        # is tolerated as long as there are only few of these.
        strict = 0 if os.environ.get('SYMX_STRICT') else 0.05
        for v, r in unreproduced[:3]:
            print('UNREPRODUCED', v['label'], v['detail'][:600], json.dumps(v['model'])[:600],
                  json.dumps(v['params']), str(r)[:600], file=sys.stderr)
        for d in divergences[:3]:
            print('DIVERGENCE', json.dumps(d)[:3000], file=sys.stderr)
        if len(unreproduced) > strict * total.get('paths', 0) \
                or len(divergences) > strict * total.get('validated', 0):
            status = 2
        total['undecided'] = total.get('undecided', 0) + len(unreproduced) + len(divergences)
        for e in errors[:3]:
            print('ERROR', e, file=sys.stderr)
            status = 2
        if not total.get('paths'):
            print('ERROR vacuous: no path reached the end of a harness', file=sys.stderr)
            status = 2
    from . import evidence
    evidence.write(mod, prop, a.tier, seed, wall, total, notes, per_h, functions, jobs,
                   unfinished, n_rep, len(unreproduced), len(divergences), known_hits, samples)
    print(f"{prop} [{a.tier}] paths={total.get('paths', 0)} infeasible={total.get('aborted', 0)} "
          f"queries={total.get('queries', 0)} (unsat {total.get('unsat', 0)}) "
          f"checks={total.get('checks', 0)} solver={total.get('solver_s', 0):.1f}s "
          f"validated={total.get('validated', 0)} undecided={total.get('undecided', 0)} "
          f"concretized={total.get('concretized', 0)} unfinished={unfinished} wall={wall:.1f}s "
          f"violations={n_rep}")
    if a.v:
        for i, n in sorted(jp.items(), key=lambda x: -x[1])[:25]:
            print('  job', n, jobs[i])
        for n, c in sorted(notes.items()):
            print('  note', c, n)
        for h, d in per_h.items():
            print('  harness', h, d)
    return status
