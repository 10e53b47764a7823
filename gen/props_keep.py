TECH = ("TLA+/TLC: Keep.tla is the contract of the keystore; recorded executions of the real Manager and Keeper on random histories, "
        "with crashes at any commit, are validated by KeepTrace.tla, and all short histories of a small keystore, enumerated and model "
        "checked by KeepMC.tla, are replayed into the real code")
NOTE = ("Random histories (8-30 operations, up to 10 identifiers, lots of 0-18 keys, salty and randomly made, every tier, encrypted under "
        "up to three authentication keys in turn or not) plus all histories of length 4 (thorough: 5) of two identifiers; what is in the "
        "keystore is read and opened after each. Real ciphers, keys and signatures; LMDB is an in-memory stand-in; stretching outside temp "
        "is a stand-in for argon2. A crash within a change of the authentication key, move or ingest is not explored. Bounded and sampled.")
K, SI = "src/keri/app/keeping.py", "src/keri/core/signing.py"


def p(id, title, statement, q, tests, mech, over=("histories", "inputs")):
    return dict(id=id, title=title, statement=statement, over=list(over), q=q, tests=tests, files=[K, SI], mech=mech, tech=TECH, note=NOTE)


PROPS = [
 p("C37", "A keystore reveals just the keys it committed to, keeps and signs with them",
   "However identifiers are begun, ingested, rotated, replayed, moved to their prefix and taken back in one keystore, a rotation or replay reveals exactly the keys committed to before and commits to the digests of the next lot's keys; the lot in use and the next are as the operations done say, the lots ingested ahead stay in order, identifiers do not touch each other, and no prefix is used twice. The private keys of every lot made or taken in are kept until erasing is asked for, which removes those of the lot before the one left and no other, so the owner can always sign with the keys in use and rotate to the next. A signature is made by each key asked for, in order, with the index and prior index asked for; without its private key, or with indices that do not fit, nothing is signed, and a rotation of what cannot rotate is refused.",
   "all histories of incepting, ingesting, rotating, replaying, taking back, moving, signing",
   "Tests follow one identifier through a fixed script; ingestion, moves and rotations of several with lots of different sizes are not combined.",
   "Manager.incept/rotate/replay/ingest/move/sign"),
 p("C46", "A keystore's secrets are encrypted under its authentication key, which opens it",
   "While an authentication id is in force, every secret in the keystore - the root salt, the salts of identifiers, all private keys, whichever operation stored them - is stored only encrypted to it, and nothing stored anywhere shows one in the clear; the keystore opens, and the id changes, only for who gives the seed of the one in force (and of the new one), after which all secrets are encrypted under the new, or in the clear when it is given up; a refused opening or change alters nothing. What is encrypted to a key of the keystore is opened by it and by no other.",
   "all histories of operations and changes of the authentication id with right, wrong and no seeds",
   "Tests change the id of a keystore with one salty identifier; ingested, random and unrooted keys and repeated or refused changes are not tried.",
   "Manager.setup/updateAeid/salt, Encrypter, Decrypter, CryptSignerSuber"),
 p("C47", "A crash or a failed call leaves the keystore usable",
   "A call of the keystore that fails leaves everything in it as it was. When the process ends at any point within an inception, a rotation or a replay, then after opening the keystore again that operation was either not done or done entire: the identifier's lot in use and next lot are from before or after, their private keys are there, other identifiers are untouched, the same and all other operations can be done then, and keys come from the same places as had the crash not been.",
   "all crash points within inceptions, rotations and replays, and all refused calls, in all histories",
   "Tests neither end a process within an operation nor look at the keystore after a refused call.",
   "Manager.incept/rotate/replay, Keeper", over=("crash points", "histories")),
 p("C48", "A salty identifier's keys follow from its salt, stem, tier and place alone",
   "Every key of an identifier made the salty way is the one derived from the identifier's salt (the root's, if it has none of its own), its stem (its number in the keystore, if it has none), its tier and its place - which lot, and how many keys were made for the identifier before it - in every lot, whatever was ingested, replayed, re-encrypted or reopened in between, so that the owner can make the keys again from these; salt, stem and tier stay with the identifier. Keys of different places, and all keys made randomly, are different.",
   "all histories, lot sizes, salts, stems, tiers and numbers",
   "Tests compare the first two lots with known keys; later lots after lots of various sizes, ingestion or replay are not compared.",
   "SaltyCreator.create, Manager.incept/rotate/ingest/replay (kidx, ridx, pidx), Salter.signer/stretch"),
]
