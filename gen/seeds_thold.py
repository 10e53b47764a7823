C="src/keri/core/coring.py"
H="from kh import *\nfrom itertools import combinations\nfrom keri.core.coring import Tholder\n"
def sd(id, prop, edits, needs, breaks, demo):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H+demo, kh=True)
SEEDS=[
 sd("W01","C32",[(C,'''                            if sats[wio]:
                                vw += w
                            wio += 1
                        if vw >= 1:  # element true
''','''                            if sats[wio]:
                                vw += w
                            wio += 1
                            if vw >= 1:  # no need to look at the others
                                break
                        if vw >= 1:  # element true
''')],"a nested group met before its last member, and more weights after it",
"those after it are counted at the wrong places",'''
t=Tholder(sith=[{"1/2":["1/2","1/2","1/2"]},"1/2","1/2"])
met=[s for n in range(6) for s in combinations(range(5),n) if t.satisfy(s)]
want=[s for n in range(6) for s in combinations(range(5),n) if (len([i for i in s if i<3])>=2)+(3 in s)+(4 in s)>=2]
assert met==want, (met,want)
'''),
 sd("W02","C32",[(C,'''                    k, s, v = e.partition("k")
                    if s:  #not empty
                        clause.append((self.weight(k), [self.weight(w) for w in v.split("v")]))
''','''                    k, s, v = e.partition("k")
                    if "v" in v:  # more than one so nested
                        clause.append((self.weight(k), [self.weight(w) for w in v.split("v")]))
''')],"a nested group of a single weight, put down as limen and read again",
"it comes back as a plain weight",'''
for s in (["1/2","1/2"],["1/2",{"1/2":["1/2","1/2"]}],["1/2",{"1/2":["1"]}]):
    t=Tholder(sith=s)
    assert Tholder(limen=t.limen).sith==t.sith==s, s
'''),
 sd("W03","C32",[(C,'''            if not (sum(top) >= 1):
                raise ValueError(f"Invalid sith clause = {clause}, all top level"
                                 f"clause weight sums must be >= 1.")
''','''        if not (sum(top) >= 1):
            raise ValueError(f"Invalid sith clause = {clause}, all top level"
                             f"clause weight sums must be >= 1.")
''')],"several clauses of which one but the last cannot be met",
"a threshold nobody can meet is taken",'''
def taken(s):
    try: Tholder(sith=s); return True
    except Exception: return False
assert taken([["1/2","1/2"],["1"]])
assert not taken([["1"],["1/2"]])
assert not taken([["1/2"],["1"]]), "taken"
'''),
]
