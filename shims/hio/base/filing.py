import os
import shutil
import stat
import tempfile
from contextlib import contextmanager


@contextmanager
def openFiler(cls=None, name="test", temp=True, reopen=True, clear=False, **kwa):
    filer = None
    cls = cls or Filer
    try:
        filer = cls(name=name, temp=temp, reopen=reopen, clear=clear, **kwa)
        yield filer
    finally:
        if filer:
            filer.close(clear=filer.temp or clear)


class Filer:
    HeadDirPath = os.path.join(os.path.sep, "usr", "local", "var")
    TailDirPath = "hio"
    CleanTailDirPath = os.path.join("hio", "clean")
    AltHeadDirPath = "~"
    AltTailDirPath = ".hio"
    AltCleanTailDirPath = os.path.join(".hio", "clean")
    TempHeadDir = tempfile.gettempdir()
    TempPrefix = "hio_"
    TempSuffix = "_test"
    Perm = stat.S_ISVTX | stat.S_IRUSR | stat.S_IWUSR | stat.S_IXUSR
    Mode = "r+"
    Fext = "text"

    def __init__(self, *, name="main", base="", temp=False, headDirPath=None, perm=None, reopen=True,
                 clear=False, reuse=False, clean=False, filed=False, extensioned=False, mode=None,
                 fext=None, **kwa):
        self.name, self.base, self.temp = name, base, bool(temp)
        self.headDirPath = headDirPath if headDirPath is not None else self.HeadDirPath
        self.perm = perm if perm is not None else self.Perm
        self.filed, self.extensioned = bool(filed), bool(extensioned)
        self.mode = mode if mode is not None else self.Mode
        self.fext = fext if fext is not None else self.Fext
        self.path, self.file, self.opened = None, None, False
        if reopen:
            self.reopen(clear=clear, reuse=reuse, clean=clean, **kwa)

    def exists(self, name="", base="", headDirPath=None, clean=False, filed=False,
               extensioned=False, fext=None):
        return os.path.exists(self._path(name, base, headDirPath or self.headDirPath, clean,
                                         filed or self.filed, fext or self.fext))

    def _path(self, name, base, head, clean, filed, fext):
        tail = self.CleanTailDirPath if clean else self.TailDirPath
        path = os.path.abspath(os.path.expanduser(os.path.join(head, tail, base, name)))
        if filed and not os.path.splitext(path)[1]:
            path = f"{path}.{fext}"
        return path

    def reopen(self, temp=None, headDirPath=None, perm=None, clear=False, reuse=False, clean=False,
               mode=None, fext=None, **kwa):
        if self.opened:
            self.close(clear=clear)
        if temp is not None:
            self.temp = bool(temp)
        if headDirPath is not None:
            self.headDirPath = headDirPath
        if perm is not None:
            self.perm = perm
        if mode is not None:
            self.mode = mode
        if fext is not None:
            self.fext = fext
        if not (self.path and reuse and os.path.exists(self.path)):
            if self.temp:
                head = tempfile.mkdtemp(prefix=self.TempPrefix, suffix=self.TempSuffix, dir=self.TempHeadDir)
                self._temphead = head
            else:
                head = self.headDirPath
                if head == Filer.HeadDirPath:
                    raise RuntimeError("shim: refusing to write under the system head directory")
            self.path = self._path(self.name, self.base, head, clean, self.filed, self.fext)
            dirn = os.path.dirname(self.path) if self.filed else self.path
            os.makedirs(dirn, exist_ok=True)
        if self.filed:
            if not os.path.exists(self.path):
                with open(self.path, "w+"):
                    pass
            self.file = open(self.path, self.mode)
        self.opened = True
        return True

    def close(self, clear=False):
        if self.file:
            try:
                self.file.close()
            except Exception:
                pass
        self.opened = False
        if clear:
            self._clearPath()
        return not self.opened

    def _clearPath(self):
        if self.path and os.path.exists(self.path):
            if os.path.isfile(self.path):
                os.remove(self.path)
            else:
                shutil.rmtree(self.path)
        head = getattr(self, "_temphead", None)
        if head and self.temp and os.path.isdir(head) and os.path.basename(head).startswith(self.TempPrefix):
            shutil.rmtree(head, ignore_errors=True)


class FilerDoer:
    pass
