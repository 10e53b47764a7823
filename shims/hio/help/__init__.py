from . import ogling, decking, hicting, helping
from .decking import Deck
from .hicting import Hict, Mict
from .ogling import ogler
from .helping import isign, sceil
