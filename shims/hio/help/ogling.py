import logging


class Ogler:
    def __init__(self, **kwa):
        self.level = logging.CRITICAL
        self.path = None
        self.headDirPath = None
        self.baseConsoleHandler = logging.NullHandler()

    def getLogger(self, name="keri", level=None):
        log = logging.getLogger(name)
        log.setLevel(level if level is not None else self.level)
        log.propagate = False
        if not log.handlers:
            log.addHandler(logging.NullHandler())
        return log

    def getLoggers(self):
        return self.getLogger()

    def resetLevel(self, **kwa):
        pass

    def resetLevels(self, **kwa):
        pass

    def reopen(self, **kwa):
        return True


ogler = None


def initOgler(**kwa):
    global ogler
    if ogler is None:
        ogler = Ogler(**kwa)
    return ogler


ogler = Ogler()
