class Tymee:
    def __init__(self, *, tymth=None, **kwa):
        self._tymth = None
        if tymth:
            self.wind(tymth)
        else:
            self._tymth = tymth

    @property
    def tyme(self):
        return self._tymth() if self._tymth else None

    @property
    def tymth(self):
        return self._tymth

    def wind(self, tymth):
        self._tymth = tymth


class Tymist:
    Tock = 0.03125

    def __init__(self, tyme=0.0, tock=None, **kwa):
        self.tyme = float(tyme)
        self.tock = float(tock) if tock is not None else self.Tock

    def tymen(self):
        return lambda: self.tyme

    def tick(self, tock=None):
        self.tyme += float(tock if tock is not None else self.tock)
        return self.tyme


class Tymer(Tymee):
    Duration = 0.0

    def __init__(self, *, duration=None, start=None, **kwa):
        super().__init__(**kwa)
        self._start = start if start is not None else (self.tyme or 0.0)
        self._stop = self._start + (duration or self.Duration)

    @property
    def expired(self):
        return self.tyme is not None and self.tyme >= self._stop

    @property
    def duration(self):
        return self._stop - self._start

    @property
    def elapsed(self):
        return self.tyme - self._start

    def start(self, duration=None, start=None):
        d = self.duration if duration is None else duration
        self._start = start if start is not None else self.tyme
        self._stop = self._start + d
        return self._start

    def restart(self, duration=None):
        return self.start(duration=duration, start=self._stop)
