# Permissive stub modules for imports that the harness never exercises (web server, CLI, ...).
import sys
import types


class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Any


class _Any(metaclass=_Meta):
    def __init__(self, *pa, **kwa):
        self.__dict__["_pa"] = pa
        self.__dict__.update(kwa)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Any

    def __call__(self, *pa, **kwa):
        return _Any()

    def __iter__(self):
        return iter(())


class Stub(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.startswith("HTTP_"):
            return name
        cls = _Meta(name, (_Any, Exception) if name.startswith("HTTP") else (_Any,), {})
        setattr(self, name, cls)
        return cls


def stub(name):
    mod = Stub(name)
    sys.modules[name] = mod
    if "." in name:
        parent, _, leaf = name.rpartition(".")
        if parent in sys.modules:
            setattr(sys.modules[parent], leaf, mod)
    return mod
