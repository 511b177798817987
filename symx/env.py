"""symx.env - loads the code under test (instrumented or plain) and offers the
small amount of glue the harnesses need."""
import importlib
import io
import os
import sys

REPO = os.environ.get('SYMX_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    for p in (REPO, os.path.join(REPO, 'ts2python')):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(50000)


class Env:
    def __init__(self, symbolic):
        self.symbolic = symbolic
        self._mods = {}
        setup_path()
        if symbolic:
            from . import instr, dhp
            instr.install(REPO)
            dhp.patch()
        self._compile_ready = False
        self._states = {}

    def mod(self, name):
        m = self._mods.get(name)
        if m is None:
            from . import rt
            save = rt.ctx
            rt.set_ctx(None)
            try:
                m = self._mods[name] = importlib.import_module(name)
                for n, x in list(sys.modules.items()):
                    if n not in self._states and (getattr(x, '__file__', None) or '').startswith(REPO + os.sep):
                        self._states[n] = State(x)
            finally:
                rt.set_ctx(save)
        return m

    def restore(self):
        """forget what the modules under test remember of earlier paths"""
        for st in self._states.values():
            st.restore()

    @property
    def ts(self):
        return self.mod('ts2pythonParser')

    @property
    def jv(self):
        return self.mod('ts2python.json_validation')

    @property
    def td(self):
        return self.mod('ts2python.typeddict_shim')

    @property
    def sd(self):
        return self.mod('ts2python.singledispatch_shim')

    # -- transpiler -------------------------------------------------------------
    def fresh(self, ctx, hash_stub=True, grammar=False):
        """forget per-thread singletons of the compiler and reset configuration"""
        from DHParser import configuration as C, toolkit
        tl = C.access_thread_locals()
        for k in list(vars(tl)):
            if k.endswith('_singleton') and (grammar or 'ompil' in k or 'ransform' in k):
                delattr(tl, k)
        cfg = C._config_dict()
        for k in list(cfg):
            if k.lower().startswith('ts2python') or k.lower().startswith('tspython'):
                del cfg[k]
        ts = self.ts
        self._states['ts2pythonParser'].restore()
        if hash_stub:
            if not hasattr(ts, '_real_source_hash'):
                ts._real_source_hash = ts.source_hash
            ts.source_hash = lambda text: 'stubbed'
        elif hasattr(ts, '_real_source_hash'):
            ts.source_hash = ts._real_source_hash
        return cfg

    def config(self, ctx, **kw):
        """set ts2python.* configuration values"""
        from DHParser import configuration as C
        cfg = C._config_dict()
        for k, v in kw.items():
            cfg['ts2python.' + k] = v

    def sym_flag(self, ctx, name):
        """a configuration switch: symbolic (lazily forking) or concrete"""
        v = ctx.bool('cfg.' + name)
        if ctx.symbolic:
            from . import rt
            return rt.SymBool(v)
        return bool(v)

    def compile(self, src, quiet=True):
        """-> (python code or None, list of (severity, message))"""
        assert '\n' in src
        ts = self.ts
        out = sys.stdout
        if quiet:
            sys.stdout = io.StringIO()
        try:
            result, errors = ts.compile_src(src)
        finally:
            sys.stdout = out
        return result, errors


class State:
    """contents of the global variables of a module, of the attributes of its classes, of
    the default values of its functions and of its caches: can be restored"""
    DATA = (dict, list, set, int, float, str, bytes, bool, type(None), tuple)

    def __init__(self, mod):
        self.mod = mod
        self.spaces = []
        self.caches = []
        self.defaults = []
        self._space(mod, vars(mod))
        for v in list(vars(mod).values()):
            if isinstance(v, type) and v.__module__ == mod.__name__:
                self._space(v, vars(v))

    def _space(self, owner, d):
        keep = {}
        for k, v in list(d.items()):
            if hasattr(v, 'cache_clear'):
                self.caches.append(v)
                v = getattr(v, '__wrapped__', v)
            if getattr(v, '__module__', None) == self.mod.__name__ and getattr(v, '__defaults__', None):
                self.defaults += [(x, self._copy(x)) for x in v.__defaults__ if isinstance(x, (dict, list, set))]
            if k[:2] != '__' and k[-2:] != '__' and isinstance(v, self.DATA):
                keep[k] = (v, self._copy(v))
        self.spaces.append((owner, keep))

    @classmethod
    def _copy(cls, v):
        if isinstance(v, dict):
            return [(k, cls._copy(x), x) for k, x in v.items()]
        if isinstance(v, (list, set)):
            return [(None, cls._copy(x), x) for x in v]
        return v

    @classmethod
    def _put(cls, v, saved):
        """bring the content back, touch it only if it has changed"""
        if isinstance(v, dict):
            if len(v) != len(saved) or any(x is not y[2] for x, y in zip(v.values(), saved)):
                v.clear()
                for k, _, x in saved:
                    v[k] = x
        elif isinstance(v, list):
            if len(v) != len(saved) or any(x is not y[2] for x, y in zip(v, saved)):
                v[:] = [x for _, _, x in saved]
        elif isinstance(v, set):
            if len(v) != len(saved):
                v.clear()
                for _, _, x in saved:
                    v.add(x)
        else:
            return
        for _, c, x in saved:
            if isinstance(x, (dict, list, set)):
                cls._put(x, c)

    def restore(self):
        for owner, keep in self.spaces:
            d = vars(owner)
            for k, (v, c) in keep.items():
                if d.get(k, self) is not v:
                    setattr(owner, k, v)
                self._put(v, c)
            for k in [k for k, v in d.items() if k[:2] != '__' and k[-2:] != '__' and k not in keep
                      and type(v) in self.DATA]:
                delattr(owner, k)
        for c in self.caches:
            c.cache_clear()
        for v, c in self.defaults:
            self._put(v, c)


_codes = {}


def exec_module(code, name='generated_module', extra=None):
    """execute generated code as a module; returns its namespace"""
    import types
    m = types.ModuleType(name)
    m.__dict__['__file__'] = name + '.py'
    if extra:
        m.__dict__.update(extra)
    sys.modules[name] = m
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        c = _codes.get((name, code))
        if c is None:
            if len(_codes) > 500:
                _codes.clear()
            c = _codes[name, code] = compile(code, name + '.py', 'exec', dont_inherit=True)
        exec(c, m.__dict__)
    finally:
        sys.stdout = out
    return m.__dict__
