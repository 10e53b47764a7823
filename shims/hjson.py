# Offline stand-in for hjson: strict JSON only.
import json


def dumps(o, **kwa):
    return json.dumps(o, indent=2)


def loads(s, **kwa):
    if isinstance(s, bytes):
        s = s.decode("utf-8")
    return json.loads(s)


def dump(o, f, **kwa):
    f.write(dumps(o))


def load(f, **kwa):
    return loads(f.read())
