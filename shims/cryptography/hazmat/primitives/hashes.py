class SHA256:
    name = "sha256"


class SHA512:
    name = "sha512"
