# Offline stand-in for `cryptography`: the ECDSA subset keri uses (pure Python), nothing else.
__version__ = "50.0.0-shim"
