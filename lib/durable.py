"""Design-level check of the flush protocol (spec/Durable.tla)."""
from vcommon import tlc, cfgtext, MachineryError, tail


def model(c):
    for keep, want in ((True, None), (False, True)):
        r = tlc("Durable", cfgtext(constants={
            "Stores": "{1, 2}", "Flushes": "{1, 2}", "MaxWrites": c.pick(2, 4),
            "KEEPDIRTY": "TRUE" if keep else "FALSE"}, invariants=["Promise", "Marked"]))
        if keep and not r.ok:
            raise MachineryError("flush protocol model: " + tail(r.out))
        if not keep and r.ok:
            raise MachineryError("the flush protocol model cannot see the lost-write race")
        if keep:
            c.model(r)
