import time
from collections import deque
from inspect import isgeneratorfunction
from . import tyming


class Doer(tyming.Tymee):
    def __init__(self, *, tock=0.0, opts=None, temp=None, **kwa):
        super().__init__(**{k: v for k, v in kwa.items() if k == "tymth"})
        self.done = None
        self.tock = tock
        self.temp = temp
        self.opts = opts if opts is not None else {}

    def __call__(self, **kwa):
        return self.do(**kwa)

    def do(self, tymth, *, tock=0.0, temp=None, **opts):
        try:
            self.wind(tymth)
            self.tock = tock
            self.done = False
            self._enter(temp)
            if isgeneratorfunction(self.recur):
                self.done = yield from self.recur()
            else:
                while not self.done:
                    tyme = (yield self.tock)
                    self.done = self.recur(tyme=tyme)
        except GeneratorExit:
            self.close()
        except Exception as ex:
            self.abort(ex=ex)
            raise
        else:
            self.clean()
        finally:
            self.exit()
        return self.done

    def _enter(self, temp):
        try:
            self.enter(temp=temp)
        except TypeError:
            self.enter()

    def enter(self, *, temp=None):
        pass

    def recur(self, tyme):
        return False

    def clean(self):
        pass

    def close(self):
        pass

    def abort(self, ex):
        pass

    def exit(self):
        pass


class DoDoer(Doer):
    def __init__(self, doers=None, always=False, **kwa):
        super().__init__(**kwa)
        self.doers = list(doers) if doers is not None else []
        self.always = always
        self.deeds = deque()

    def enter(self, doers=None, deeds=None, *, temp=None):
        self.deeds = deque()
        self._add(self.doers if doers is None else doers)

    def _add(self, doers):
        for doer in doers:
            opts = dict(getattr(doer, "opts", None) or {})
            tock = getattr(doer, "tock", 0.0)
            dog = doer(tymth=self.tymth, tock=tock, **opts)
            doer.done = False
            try:
                next(dog)
            except StopIteration as ex:
                doer.done = ex.value
                continue
            self.deeds.append((dog, self.tyme, doer))

    def recur(self, tyme=None, deeds=None):
        tyme = self.tyme
        for _ in range(len(self.deeds)):
            dog, retyme, doer = self.deeds.popleft()
            if tyme >= retyme:
                try:
                    tock = dog.send(tyme)
                    retyme = tyme + (tock or 0.0)
                    self.deeds.append((dog, retyme, doer))
                except StopIteration as ex:
                    doer.done = ex.value
            else:
                self.deeds.append((dog, retyme, doer))
        return not self.deeds and not self.always

    def exit(self, deeds=None):
        while self.deeds:
            dog, _, doer = self.deeds.pop()
            dog.close()
            doer.done = False

    def extend(self, doers):
        self.doers.extend(doers)
        self._add(doers)

    def remove(self, doers):
        for doer in list(doers):
            self.doers.remove(doer)
            for deed in list(self.deeds):
                if deed[2] is doer:
                    self.deeds.remove(deed)
                    deed[0].close()


class Doist(tyming.Tymist):
    def __init__(self, real=False, limit=None, doers=None, temp=None, tock=None, tyme=0.0, **kwa):
        super().__init__(tyme=tyme, tock=tock)
        self.real, self.limit, self.temp = real, limit, temp
        self.done = None
        self.doers = list(doers) if doers is not None else []
        self.deeds = deque()

    def enter(self, doers=None, deeds=None, **kwa):
        out = deque()
        for doer in (self.doers if doers is None else doers):
            opts = dict(getattr(doer, "opts", None) or {})
            dog = doer(tymth=self.tymen(), tock=getattr(doer, "tock", 0.0), **opts)
            doer.done = False
            try:
                next(dog)
            except StopIteration as ex:
                doer.done = ex.value
                continue
            out.append((dog, self.tyme, doer))
        if doers is None:
            self.deeds = out
        return out

    def recur(self, tyme=None, deeds=None):
        deeds = self.deeds if deeds is None else deeds
        for _ in range(len(deeds)):
            dog, retyme, doer = deeds.popleft()
            if self.tyme >= retyme:
                try:
                    tock = dog.send(self.tyme)
                    deeds.append((dog, self.tyme + (tock or 0.0), doer))
                except StopIteration as ex:
                    doer.done = ex.value
            else:
                deeds.append((dog, retyme, doer))
        self.tick()

    def exit(self, deeds=None):
        deeds = self.deeds if deeds is None else deeds
        while deeds:
            dog, _, doer = deeds.pop()
            dog.close()
            doer.done = False

    def do(self, doers=None, limit=None, tyme=None, **kwa):
        if doers is not None:
            self.doers = list(doers)
        limit = self.limit if limit is None else limit
        if tyme is not None:
            self.tyme = tyme
        stop = None if not limit else self.tyme + limit
        try:
            self.enter()
            while self.deeds:
                self.recur()
                if stop is not None and self.tyme >= stop:
                    break
        finally:
            self.exit()


def doify(f, *, name=None, tock=0.0, **opts):
    import types

    def g(*pa, **kwa):
        return f(*pa, **kwa)
    g.tock, g.opts, g.done = tock, opts, None
    g.__name__ = name or getattr(f, "__name__", "doified")
    return g
