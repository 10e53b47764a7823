from . import HioError, ValidationError


class Mixin:
    def __init__(self, *pa, **kwa):
        pass
