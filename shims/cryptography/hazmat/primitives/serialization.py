from enum import Enum


class Encoding(Enum):
    X962 = 1
    PEM = 2
    DER = 3
    Raw = 4
    OpenSSH = 5


class PublicFormat(Enum):
    CompressedPoint = 1
    UncompressedPoint = 2
    Raw = 3
    OpenSSH = 4
    SubjectPublicKeyInfo = 5


class PrivateFormat(Enum):
    Raw = 1
    OpenSSH = 2
    PKCS8 = 3


class NoEncryption:
    pass
