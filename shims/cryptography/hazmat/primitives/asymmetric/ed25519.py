class Ed25519PrivateKey:
    pass


class Ed25519PublicKey:
    pass
