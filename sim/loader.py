"""Every rank has its own copy of the Python modules of pmesh, as every process would; compiled
extension modules (no module state that outlives a call) and numba modules are shared. When the
scheduler switches ranks the copies in sys.modules are exchanged."""
import sys, os, importlib, importlib.abc, importlib.util, importlib.machinery, warnings, sysconfig
from .core import Sim

SHARED = ('_domain', '_window', '_invariant', '_whitenoise', '_cic', 'tsc', 'cic')

class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, build, show):
        """build: directory with pmesh/ built from the working tree; show: path shown in tracebacks"""
        self.pk = os.path.join(build, 'pmesh')
        self.show = show
        self.code = {}
        self.shared = {}
        self.suffix = sysconfig.get_config_var('EXT_SUFFIX')
        self.names = set()
    # -- import protocol
    def find_spec(self, name, path=None, target=None):
        if name != 'pmesh' and not name.startswith('pmesh.'):
            return None
        if name in self.shared:
            return importlib.machinery.ModuleSpec(name, self, origin='shared')
        rel = name.split('.')[1:]
        base = os.path.join(self.pk, *rel)
        if rel and os.path.exists(base + self.suffix):
            return importlib.machinery.ModuleSpec(name, self, origin=base + self.suffix)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
        if os.path.exists(base + '.py'):
            return importlib.machinery.ModuleSpec(name, self, origin=base + '.py')
        return None
    def create_module(self, spec):
        if spec.name in self.shared:
            return self.shared[spec.name]
        if spec.origin.endswith(self.suffix):
            s = importlib.util.spec_from_file_location(spec.name, spec.origin)
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            self.shared[spec.name] = m
            return m
        return None
    def exec_module(self, module):
        name = module.__spec__.name
        self.names.add(name)
        origin = module.__spec__.origin
        if origin == 'shared' or origin.endswith(self.suffix):
            return
        if name not in self.code:
            with open(origin) as f: src = f.read()
            shown = origin.replace(self.pk, os.path.join(self.show, 'pmesh'))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.code[name] = compile(src, shown, 'exec', dont_inherit=True)
        module.__file__ = origin.replace(self.pk, os.path.join(self.show, 'pmesh'))
        exec(self.code[name], module.__dict__)
        if name.split('.')[-1] in SHARED:
            self.shared[name] = module
    # -- exchange of the copies
    def swap(self, old, new):
        mods = sys.modules
        for k in self.names:
            m = mods.pop(k, None)
            if m is not None: old[k] = m
        mods.update(new)

def install(build, show='/repo'):
    l = Loader(build, show)
    sys.meta_path.insert(0, l)
    for k in [k for k in sys.modules if k == 'pmesh' or k.startswith('pmesh.')]:
        del sys.modules[k]
    return l
