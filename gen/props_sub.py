F = ["src/keri/db/subing.py", "src/keri/db/koming.py", "src/keri/db/dbing.py"]
NOTE = ("Every call on a real typed sub-database is compared, result and content, with the deterministic TLA+ contract Sub "
        "(over StoreModel): all contents and calls of a small universe replayed through the classes, and TLC validation of long "
        "random histories over several sub-databases sharing one environment. Trusts TLC, its JSON module, the harness's "
        "encoding and the in-memory stand-in for lmdb; bounded universe.")
T = "TLA+/TLC: exhaustive state-graph replay into the code plus TLC validation of recorded traces (Sub.tla over StoreModel.tla)"
PROPS = [
 dict(id="C14", title="Typed sub-databases return the typed value last written, and refuse others",
  statement="A typed sub-database with one value per key (or per key and ordinal) returns exactly the typed value last written under that key - the same type and content, whatever the type (text, Base64 tuples, CESR primitives and concatenations of them, KERI messages, schemas, signers, data records in JSON, CBOR or MGPK) and in whatever form the key was given (text, bytes, memory view or sequence of parts, with any separator). Put never overwrites, pin always replaces, removal and counts are truthful, iterations and trimming cover exactly the entries of the branch asked for, no other sub-database is affected, values of another class are refused where the class promises it, and with an encrypter a signer's seed is held encrypted and only the matching key recovers it.",
  over=["histories", "inputs"], q="all histories of calls over all classes, keys in all forms, separators, ordinals and values, with several sub-databases in one environment",
  tests="Unit tests run one script per class with two or three keys and the default separator; the guarantee quantifies over classes, key forms, separators and histories together.",
  files=F, mech="SuberBase._tokey/_tokeys/_ser/_des and Suber, OnSuber, B64Suber, CesrSuber, CatCesrSuber, SerderSuber, SchemerSuber, SignerSuber, CryptSignerSuber, CesrOnSuber, Komer", tech=T, note=NOTE),
 dict(id="C15", title="Typed set sub-databases keep each set in insertion order",
  statement="A typed sub-database holding a set per key (or per key and ordinal) enumerates each set's members once each, in the order first added, as the typed values written; adding what is present changes nothing and says so, pinning replaces the set, removal takes exactly the member (or set) named, the last member is the most recently added one still there, appending takes the next ordinal, and forward, backward and last-only iterations over a key, from an ordinal or over everything agree with one another, for every separator and form of key.",
  over=["histories", "inputs"], q="all histories of put/add/pin/append/remove/count/iterate/last calls over all set classes, keys, separators, ordinals and values with repeats",
  tests="Tests run one script per class with the default separator; wrong hidden ordinals and lost separators only show after particular removals and with neighbouring keys.",
  files=F, mech="IoSetSuber and its B64/Cesr/CatCesr/Serder variants, OnIoSetSuber, B64OnIoSetSuber, IoSetKomer over LMDBer.*IoSet*", tech=T, note=NOTE),
 dict(id="C16", title="Duplicate-valued sub-databases hold each value once, in their order",
  statement="A typed sub-database holding several values per key as duplicates shows each value once: in the order of the values themselves (Dup classes) or the order first added (IoDup classes), whatever was removed and added again in between; put, add, pin, remove, count, last and all forward, backward and last-only iterations report and change exactly the values of the key (and ordinal) named, for every separator and form of key.",
  over=["histories", "inputs"], q="all histories of calls over all duplicate classes, keys, separators, ordinals and values with repeats",
  tests="Tests use one script per class; repeated values in one call, gaps left by removals and ordinals, and other separators are not combined.",
  files=F, mech="DupSuber, CesrDupSuber, CatCesrDupSuber, IoDupSuber, B64IoDupSuber, OnIoDupSuber, B64OnIoDupSuber, DupKomer over LMDBer dup and IoDup families", tech=T, note=NOTE),
]
