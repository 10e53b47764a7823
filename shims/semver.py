# Offline stand-in for semver: parse and compare per semver 2.0.0.
import re
_RE = re.compile(r"^(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?(?:\+([0-9A-Za-z.-]+))?$")


class Version:
    def __init__(self, major, minor=0, patch=0, prerelease=None, build=None):
        self.major, self.minor, self.patch = int(major), int(minor), int(patch)
        self.prerelease, self.build = prerelease, build

    @classmethod
    def parse(cls, ver):
        if isinstance(ver, bytes):
            ver = ver.decode()
        m = _RE.match(ver)
        if not m:
            raise ValueError(f"{ver} is not valid SemVer string")
        return cls(*m.groups())

    def __str__(self):
        s = f"{self.major}.{self.minor}.{self.patch}"
        return s + (f"-{self.prerelease}" if self.prerelease else "") + (f"+{self.build}" if self.build else "")

    def compare(self, other):
        if isinstance(other, str):
            other = Version.parse(other)
        a, b = (self.major, self.minor, self.patch), (other.major, other.minor, other.patch)
        if a != b:
            return -1 if a < b else 1
        p, q = self.prerelease, other.prerelease
        if p == q:
            return 0
        if not p:
            return 1
        if not q:
            return -1

        def ident(x):
            return (0, int(x), "") if x.isdigit() else (1, 0, x)
        p, q = [ident(x) for x in p.split(".")], [ident(x) for x in q.split(".")]
        return 0 if p == q else (-1 if p < q else 1)


VersionInfo = Version


def compare(a, b):
    return Version.parse(a).compare(b)
