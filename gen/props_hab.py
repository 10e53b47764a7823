TECH = ("TLA+/TLC: Hab.tla is the contract of a habery; recorded executions of the real Habery and Habs on random histories, with crashes "
        "at any commit, and with another validator that is given their messages, are validated by HabTrace.tla, and all short histories of "
        "two identifiers, enumerated and model checked by HabMC.tla, are replayed into the real code")
NOTE = ("Random histories (6-26 operations, up to five names in two namespaces, 1-3 keys, up to four witnesses, numeric thresholds, keys "
        "made salty or randomly or taken in, keystores encrypted or not) plus all histories of three operations on two identifiers, sampled in "
        "the quick tier; names, logs and keystores are read after each and all messages are given to another validator. Delegated, group and "
        "remotely signed identifiers and crashes while a habery is first set up are not explored. LMDB is an in-memory stand-in. Bounded "
        "and sampled.")
H, K, B = "src/keri/app/habbing.py", "src/keri/app/keeping.py", "src/keri/db/basing.py"


def p(id, title, statement, q, tests, mech, over=("histories", "inputs")):
    return dict(id=id, title=title, statement=statement, over=list(over), q=q, tests=tests, files=[H, K, B], mech=mech, tech=TECH, note=NOTE)


PROPS = [
 p("C38", "An own identifier's events say what was asked and its keystore keeps step",
   "Making an identifier, rotating it and interacting append one event to its log that says what was asked - the number of keys and next keys, the thresholds, the witnesses after cuts and adds, their threshold, whether it may rotate or interact - and for what was not asked the documented defaults; a rotation reveals exactly the keys committed to before. After each, the keystore's keys in use and next are those of the log, the private keys of both and of every lot taken in ahead are there, those of the lots before the one left are not, and what the identifier signs verifies. Every message given out, with the witnesses' receipts, brings another validator to the same state. Names lead to the identifier they were given to, in their namespace, until it is deleted, identifiers do not affect each other, and all is the same after the habery is opened again.",
   "all histories of making, rotating, interacting, deleting and reopening with all counts, thresholds and witness changes",
   "Tests make a few identifiers and rotate them once or twice with the defaults; combinations of counts, cuts, adds, defaults, secrets taken in and reopening are not tried.",
   "Habery.makeHab/loadHabs/deleteHab, Hab.incept/rotate, BaseHab.incept/rotate/interact/sign/save, Baser.reload"),
 p("C49", "A refused or cut-short making or rotation leaves every identifier usable",
   "A making, rotation or interaction that is refused - for its thresholds, witnesses, counts or name - leaves names, logs, keystore and the other identifiers as they were, and the same call with proper arguments can be made then, with the keys committed to before. When the process ends at any point within one, the habery opens again, and every identifier's log is as before or as after that operation, its name leads to it, its keys in use and committed to are held, it signs, rotates and interacts as ever, and what it sends is accepted; nothing of an identifier whose making was cut short keeps a name.",
   "all refused calls and all crash points within makings, rotations and interactions, in all histories",
   "Tests check one refused rotation; they do not end the process within an operation, nor go on after a refused making.",
   "Hab.incept/rotate (rollback), BaseHab.save/unsave, Manager.forget, Baser.reload, Habery.loadHabs", over=("crash points", "histories")),
]
