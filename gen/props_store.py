W = "src/keri/db/webdbing.py"
L = "src/keri/db/dbing.py"
STORE_NOTE = ("Every call is compared, result and content, with the deterministic TLA+ contract StoreModel: "
              "exhaustively for all contents and calls of a small universe, and by TLC trace validation for long "
              "random histories. Trusts TLC, its JSON module and the harness's encoding of results; bounded universe.")
TS = "TLA+/TLC: exhaustive state-graph replay into the code plus TLC validation of recorded traces (StoreModel.tla)"

PROPS = [
 dict(id="C01", title="Browser store: plain values behave as an exact map",
  statement="For any history of calls on a browser-backed store, putting a value succeeds exactly when the key is absent and never overwrites, setting always replaces, reading returns the last value written or nothing, and removal (of a key or of all keys under a prefix) reports truthfully whether anything was removed. Empty keys are refused without effect on put, set and get, and no call touches entries of other keys.",
  over=["histories", "inputs"], q="all histories of put/set/get/remove/prefix-remove/count/prefix-iterate calls over any keys (including keys that are prefixes of one another) and values",
  tests="tests/db/test_webdbing.py runs one fixed script per call; the guarantee quantifies over every interleaving of calls and key shapes.",
  files=[W], mech="WebDBer.putVal/setVal/getVal/remVal/remTop/cntTop/cntAll/getTopItemIter over a SortedDict per sub-database",
  tech=TS, note=STORE_NOTE),
 dict(id="C02", title="Browser store: ordinal entries are dense-append, never overwritten",
  statement="Appending under a key assigns an ordinal one greater than the greatest ordinal now present under that key (zero if none), never overwrites or disturbs any entry, and is refused when the ordinal space is exhausted. Put, pin, get, remove, remove-from and count on a key and ordinal affect and report exactly the entries of that key at (or at and after) that ordinal.",
  over=["histories", "inputs"], q="all histories of ordinal calls over any keys without the separator, any ordinals up to the maximum, any separator",
  tests="Tests use a handful of ordinals and keys in a fixed order; neighbouring keys, gaps left by removals and the top of the ordinal range combine in ways they do not reach.",
  files=[W], mech="WebDBer.putOnVal/pinOnVal/appendOnVal/getOnVal/getOnItem/remOn/remOnAll/cntOnAll/getOnAllItemIter, onKey/splitOnKey", tech=TS, note=STORE_NOTE),
 dict(id="C03", title="Browser store: sets keep insertion order and never repeat a value",
  statement="A multi-valued key holds a set: its members are enumerated in the order they were first added, adding or putting values already present changes nothing for those values and reports whether anything new was added, pinning replaces the whole set, and removal of one member keeps the order of the others. The last member reported is always the most recently added one still present.",
  over=["histories", "inputs"], q="all histories of put/add/pin/remove/remove-one/count/iterate/last calls over any keys, values with repeats, and separators",
  tests="Tests check fixed value lists; the hidden insertion ordinals only go wrong after particular sequences of removals and re-additions across neighbouring keys.",
  files=[W], mech="WebDBer.*IoSet* with hidden ordinal suffix (suffix/unsuffix)", tech=TS, note=STORE_NOTE),
 dict(id="C04", title="Browser store: ordinal sets combine append ordinals with set semantics",
  statement="Each (key, ordinal) pair holds an insertion-ordered set without repeats; appending a group of values creates the set at one ordinal past the last used for that key; put, add, pin and remove affect only the addressed set, and remove-from-ordinal removes exactly the sets of that key at or after the ordinal. Forward, backward, all and last-of-each enumerations agree with that content.",
  over=["histories", "inputs"], q="all histories of ordinal-set calls over any keys, ordinals, value groups and separators",
  tests="One long fixed script in test_on_ioset_db_level; two interacting hidden orderings make the reachable contents far larger.",
  files=[W], mech="WebDBer.*OnIoSet*", tech=TS, note=STORE_NOTE),
 dict(id="C05", title="Browser store: enumerations and counts are exact and ordered",
  statement="Every enumeration (by prefix, by key from an ordinal, over everything, forward, backward, or last member of each set) yields exactly the entries that match, once each, in key then ordinal then insertion order or its exact reverse. Every count equals the length of the matching enumeration.",
  over=["histories", "inputs"], q="all store contents reachable by any history, for every enumeration call and every starting key, ordinal, prefix",
  tests="Tests enumerate a few hand-made contents; boundaries (first/last key, prefix keys, missing start ordinals, empty store) multiply with every enumeration variant.",
  files=[W], mech="get*Iter*/cnt*/get*Last* of WebDBer", tech=TS, note=STORE_NOTE),
 dict(id="C06", title="Browser store: an enumeration is unaffected by writes made during it",
  statement="An enumeration that has begun yields exactly the content the store had when it began, whatever the consumer adds, replaces or removes in that store before the enumeration is exhausted. In particular a consumer that removes each entry as it is yielded visits every entry.",
  over=["histories", "schedules"], q="all interleavings of any number of open enumerations with any writes",
  tests="No test writes while iterating, though the escrow processing built on these stores does exactly that.",
  files=[W], mech="generator iterators over the sorted in-memory store; LMDB gives this by read transactions", tech=TS, note=STORE_NOTE),
 dict(id="C07", title="Browser store: a completed flush makes every prior write durable",
  statement="After a flush completes with no write since it began, reopening the database from storage yields exactly the content, the per-store duplicate setting and the database version that memory had, whatever kind of write or removal produced them. The number a flush returns is the number of stores it wrote.",
  over=["histories", "inputs"], q="all histories of every mutating call in every family, interleaved with flushes, reopens and settings, with arbitrary byte values",
  tests="test_flush_* exercise few of the mutating calls; one call that forgets to mark its store is invisible until a reopen after exactly that call.",
  files=[W], mech="SubDb.dirty, WebDBer.flush, _serialize_records/_deserialize_records, WebDBer.open", tech="TLA+/TLC: recorded histories with simulated storage validated by StoreTrace.tla", note="Histories on the real WebDBer over a simulated asynchronous storage; after each flush a fresh open of the stored bytes is compared with the model by TLC. Random histories, seeded; storage commits a namespace atomically as pyscript.storage does."),
 dict(id="C08", title="Browser store: no lost or torn data under faults, crashes and overlap",
  statement="At every moment, what a newly started process would read back for each store is exactly one version that store had at or after the start of the last completed flush, never a mixture and never an older one. A write made while a flush is waiting on storage, or before a flush that failed, is persisted by the next flush that completes.",
  over=["fault_sequences", "crash_points", "schedules"], q="all placements of storage failures, process deaths, writes and overlapping flushes at each storage wait",
  tests="Tests flush with a storage that never fails and no concurrent activity; the property is about what happens at each await.",
  files=[W], mech="WebDBer.flush awaiting handle.sync per store, dirty flags", tech="TLA+/TLC: flush protocol model (Durable.tla) plus fault-injected executions validated by StoreTrace.tla", note="Protocol model exhaustively checked; the real code is driven with failures, writes and overlapping flushes injected at each storage wait and every crash image reopened and checked by TLC. Storage is simulated with atomic per-namespace commit."),
 dict(id="C09", title="Browser store: declared stores only, isolated, cleared exactly on request",
  statement="Only stores declared at opening can be used, writes to one store or database never appear in another, opening with clear empties exactly the declared stores, and a closed database refuses use. A duplicate setting, once given to a store, survives reopening and is never changed by later opens, and stored records whose settings are missing are refused rather than guessed.",
  over=["histories", "configurations"], q="all histories of open (with any subset of stores, with or without clear), bind, write, flush, close and reopen",
  tests="Tests check each rule once in isolation.",
  files=[W], mech="WebDBer.open/close, WebEnv.open_db, namespace naming, meta key", tech="TLA+/TLC: recorded histories validated by StoreTrace.tla", note="Random histories of opens, clears, binds and restarts on the real code, judged by TLC against StoreTrace."),
 dict(id="C10", title="Browser and LMDB backends answer every shared call alike",
  statement="For the same history of plain, ordinal, insertion-ordered-set and ordinal-set calls with non-empty keys, the LMDB-backed and the browser-backed databases return the same results and hold the same content, both as the common contract prescribes.",
  over=["histories", "inputs", "configurations"], q="all histories of the shared calls, any separator",
  tests="Each backend has its own fixed test script; nothing compares them, and the scripts of the LMDB side do not run here.",
  files=[W, L], mech="WebDBer and LMDBer method families of the same names", tech=TS, note=STORE_NOTE + " LMDB itself is replaced by an in-memory stand-in with LMDB's transaction, cursor and key-order semantics."),
 dict(id="C11", title="Drift guard reports every difference between example values, and only those",
  statement="The worked-example guard finds a governed example in step with its canonical value exactly when the two values are equal as data (key order, formatting and integer-versus-float spelling aside), and otherwise names every place where they differ. It exits 0 only when everything is in step, 1 on any drift, and 2 when its inputs cannot be read.",
  over=["inputs"], q="all pairs of nested values and all single or multiple changes to them",
  tests="Five unit tests with one-field examples.",
  files=["tools/check_spec_examples.py"], mech="_diff_paths, compare, main", tech="TLA+/TLC: Examples.tla, TLC validation of recorded runs on generated values", note="Each generated pair and document is judged by the TLA+ definition of equality and difference; random, seeded, depth up to 4."),
 dict(id="C12", title="Drift guard accounts for every tagged example in a document",
  statement="In any document, every example marker directly above (blank lines aside) a JSON or Python block governs exactly that block; the guard passes only if the set of governed names equals the canonical set with no unparseable and no repeated block, and its report lists exactly the missing, extra, repeated, unparseable and drifted ones. Blocks in other languages and markers without a block count as absent.",
  over=["inputs"], q="all documents built from markers, fenced blocks of several languages, blank lines and prose, and all manifests",
  tests="Tests use single-block documents; interactions between neighbouring markers and blocks are untested.",
  files=["tools/check_spec_examples.py"], mech="_BLOCK_RE, parse_spec_blocks, compare, main", tech="TLA+/TLC: Examples.tla, exhaustive small documents replayed, larger ones validated", note="All documents up to a small length over an 11-item alphabet, plus random larger ones, in varied surface syntax."),
 dict(id="C13", title="Example tagger only adds unambiguous markers and is idempotent",
  statement="Tagging inserts a marker directly above a block exactly when the block is untagged, equals exactly one canonical example, and that example is not claimed by any other marker; every original line is kept unchanged and in order. Tagging a tagged document changes nothing, and a dry run never writes.",
  over=["inputs"], q="all documents and manifests, including repeated and ambiguous blocks",
  tests="The tagger has no test.",
  files=["tools/tag_spec_examples.py"], mech="find_blocks, already_tagged, tag, main", tech="TLA+/TLC: Examples.tla (idempotence model-checked), exhaustive small documents replayed, larger ones validated", note="As C12; idempotence and honesty of the tagging rule are invariants of the model, and the tool is compared with the rule document by document."),
]
