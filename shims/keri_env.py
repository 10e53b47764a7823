# Makes the real keri sources in /repo/src importable on Python 3.12, offline:
#  * third-party packages absent here come from /verif/shims,
#  * network / web / CLI packages are stubs,
#  * modules whose annotations only evaluate under Python 3.14 (PEP 649) are compiled with
#    `from __future__ import annotations`; nothing else about them changes.
import os
import sys
import __future__
import importlib.machinery

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KERI_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
for path in (SRC, HERE):
    if path in sys.path:
        sys.path.remove(path)
    sys.path.insert(0, path)
if VT not in sys.path:
    sys.path.append(VT)  # jsonschema and its dependencies
# an empty namespace package /repo/keri must not shadow the sources
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]

import _stub
for _m in ("falcon", "falcon.testing", "falcon.responders", "apispec", "apispec.core", "apispec.yaml_utils",
           "prettytable", "qrcode", "multicommand", "mnemonic", "mnemonic.mnemonic", "http_sfv",
           "hio.core", "hio.core.http", "hio.core.http.clienting", "hio.core.http.serving", "hio.core.tcp",
           "hio.core.tcp.clienting", "hio.core.tcp.serving", "hio.core.serial",
           "hio.core.serial.serialing", "hio.core.wiring"):
    _stub.stub(_m)

LAZY = True


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        flags = 0
        if b"dataclass" not in data:
            flags = __future__.annotations.compiler_flag
        return compile(data, path, "exec", flags=flags, dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.machinery.PathFinder):
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != "keri" and not name.startswith("keri."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path if path is not None else [SRC], target)
        if spec and spec.origin and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(name, spec.origin)
        return spec


sys.meta_path.insert(0, _Finder)
