# Offline stand-in for hio 0.7.x: the parts keri uses (see base/, help/); networking is stubbed.
__version__ = "0.7.19-shim"


class HioError(Exception):
    pass


class ValidationError(HioError):
    pass


from . import help, base
