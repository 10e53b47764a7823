E = "src/keri/core/eventing.py"
B = "src/keri/db/basing.py"
P = "src/keri/core/parsing.py"
S = "src/keri/core/serdering.py"
I = "src/keri/core/indexing.py"
TECH = ("TLA+/TLC: Kel.tla is the event log contract; recorded executions of the real Parser, Kevery, Kever and Baser "
        "on random worlds are validated by KelTrace.tla, and every delivery order of small worlds, enumerated and model "
        "checked by KelMC.tla, is replayed into the real code")
NOTE = ("Random worlds (1-4 identifiers, up to about 16 events with forks, faulty events, v1 and v2 messages in JSON, CBOR, "
        "MGPK and CESR) plus all orders of small worlds; every accepted event, key state, log, stored state record and "
        "attachment is compared with the contract. Real signatures and digests; LMDB is an in-memory stand-in with LMDB's "
        "transaction and cursor semantics. Bounded and sampled, not proved.")
ALLV = ["histories", "inputs", "schedules"]

def p(id, title, statement, q, tests, files, mech, over=ALLV, note=NOTE, tech=TECH):
    return dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech, tech=tech, note=note)

PROPS = [
 p("C20", "A key event log is append-only, gapless, chained, and first seen wins",
   "For every identifier the validator holds at most one inception, and accepts a later event only as the next in sequence after the last one (or as a permitted recovery), naming by digest the event it follows, well formed, permitted by the identifier's configuration, and at most once. Its key event log, first-seen log, key state in memory and stored key state are at all times exactly those that the accepted events make in the order they were accepted; nothing delivered later, good or bad, changes or removes an accepted event, and an event of one identifier changes nothing of another.",
   "all histories of deliveries of good and bad events, in any order, repeated or forked, for any number of identifiers",
   "The core tests build one honest log per feature and check the last state; none deliver forked, reordered and malformed events together and compare every log.",
   [E, B, P, S], "Kever.__init__/update/rotate/incept/logEvent, Kevery.processEvent, Baser.kels/fels/states"),
 p("C21", "No event is accepted without its signing threshold by distinct current keys",
   "An event is accepted only when signatures that verify over its exact bytes, each by the key at its index in the key list in force, satisfy the current signing threshold (simple, fractional or nested weights), counting each key once however many signatures it made. Signatures that do not verify, name an index out of range or belong to other keys never count and never prevent acceptance; an event that has enough good signatures, at once or collected over time, is accepted.",
   "all key lists, thresholds, and multisets of good, bad, repeated and misplaced signatures delivered in any portions",
   "Tests sign with the right keys in the right order; the ways to repeat, misplace and mix signatures are unbounded.",
   [E, I, "src/keri/core/coring.py"], "verifySigs, Kever.valSigsWigsDel, Tholder.satisfy, escrowPSEvent, processEscrowPartialSigs"),
 p("C22", "A rotation is accepted only with the keys its predecessor committed to",
   "A rotation is accepted only when good signatures on it by keys whose digests the previous establishment event in its chain committed to satisfy that event's next threshold, each such key matched to its committed position, in addition to the rotation's own signing threshold. This holds for partial, reserve and augmented rotations and for recovery rotations, which answer to the commitment of the event they rotate from; after a commitment to nothing no event is accepted. A rotation that satisfies both thresholds is accepted.",
   "all sequences of rotations exposing any subset, order or augmentation of the committed keys, with any signatures and thresholds",
   "Tests cover a few exposure patterns; compromise of current keys shows only when an attacker holding them signs an otherwise well-formed rotation.",
   [E, I], "Kever.exposeds, Kever.valSigsWigsDel, Siger ondex"),
 p("C23", "Witness lists evolve exactly and witness thresholds are enforced",
   "The witness list in force is always the previous one less those cut plus those added in order; a rotation that cuts a stranger, adds a present witness, repeats one or sets an impossible threshold is refused. An event is accepted only when good signatures or receipts by distinct witnesses in force at that event reach its witness threshold, however they were delivered (indexed, as couples, or as separate receipts before or after the event); with enough of them it is accepted.",
   "all sequences of cuts, adds and thresholds and all portions and orders of witness signatures and receipts",
   "Tests rotate witnesses a few times and deliver receipts in order; duplicate witnesses, stale indices, late receipts and superseded lists interact.",
   [E], "Kever.deriveBacks, valSigsWigsDel, Kevery.processAttachedReceiptCouples/processReceipt, escrowPWEvent, processEscrowPartialWigs, processEscrowUnverWitness"),
 p("C24", "Duplicity never alters the log; only recovery rotations supersede",
   "Once an event is accepted at a sequence number, a different event there is never accepted unless it is a rotation superseding interactions after the last establishment event, or a delegated rotation superseding a delegated rotation by the rules of its delegation. A superseding event replaces the chain from its place on, keeps what it superseded in the logs, and answers to the keys and witnesses of the event it follows; other different events are recorded as likely duplicitous. Superseded branches can never be extended.",
   "all trees of conflicting events of any shape delivered in any order",
   "Tests exercise two or three hand-made forks; the number of fork shapes and delivery orders is exponential.",
   [E], "Kevery.processEvent superseding conditions, Kever.rotate, escrowLDEvent, processEscrowDuplicitous"),
 p("C25", "A delegated event is accepted only with its delegator's seal, by the rules",
   "A delegated inception or rotation is accepted only when an event in the delegator's accepted, unsuperseded log seals it by identifier, number and digest, whether or not its source reference is given or right, and never when the delegator forbids delegation; a plain rotation of a delegated identifier and a delegated rotation of a plain one are refused. A delegated rotation supersedes another only when its delegating event outranks the other's, recursively. Once the seal has come the event is accepted.",
   "all delegation trees, all seals placed anywhere in the delegators' logs, right, wrong or missing source references, all delivery orders",
   "Tests delegate once or twice with the right reference; superseding delegations recurse over two logs.",
   [E, B], "Kever.validateDelegation, fetchDelegatingEvent, Kevery.processEscrowPartialDels/processEscrowDelegables, Baser.fetchLastSealingEventByEventSeal"),
 p("C26", "What is accepted does not depend on delivery order; nothing stays stuck",
   "However events, portions of their signatures and receipts are ordered, split and repeated, an event is accepted as soon as everything it needs has come and escrows have been processed, and never before; after everything has been delivered the accepted logs and states of conflict-free identifiers are the same as for delivery in order.",
   "all orders, splits, repetitions and omissions of the deliveries of any set of events, with escrow processing anywhere between",
   "Escrow tests each hold back one thing; combinations of things held back (delegator, witness, prior event, signature) are what fails in practice.",
   [E, P], "Kevery.processEscrows and the ten escrow processors, escrowOOEvent/escrowPSEvent/escrowPWEvent/escrowPDEvent"),
 p("C27", "Stored signatures and receipts are true, and good ones are kept",
   "Every controller signature stored with an accepted event verifies with the key at its index; every witness signature is by the witness at its index; every receipt verifies; none was invented. A good signature, witness signature or receipt delivered with, before or after an accepted event in force is stored with it. No stored attachment of one event comes from another.",
   "all histories of good, bad, early, late and misplaced signatures and receipts",
   "Tests count attachments of honest deliveries; what is replayed to other validators is exactly what is stored here.",
   [E], "Kever.logEvent, Kevery.processReceipt, processAttachedReceiptCouples, processEscrowUnverNonTrans, escrowUReceipt"),
 p("C28", "Logs survive restarts and crashes and replay identically elsewhere",
   "A validator stopped at any commit and started again has the logs and key states of a validator that accepted a prefix of the same events, and after the same messages are delivered again ends in the same state as one never stopped. A log replayed in first-seen order to an empty validator in clone mode gives the same logs, key states, first-seen times and attachments.",
   "all crash points between database commits, restarts anywhere, all histories",
   "Tests never stop between two commits of one event and rarely restart a database mid-history.",
   [E, B], "Kever.logEvent, Baser.reload, statedict, clonePreIter/cloneEvtMsg, Kever(state=...)",
   over=["histories", "crash_points", "schedules"],
   note=NOTE + " Crash points are commits of the LMDB stand-in; the real engine's own atomicity is trusted."),
 p("C29", "Events of own identifiers are accepted only from protected local sources",
   "An event whose identifier is the validator's own, whose own identifier is among its witnesses, or whose delegator is its own is never accepted from a remote source; delivered locally it is, without waiting for witnesses it is itself part of. An event is recorded as locally sourced only when it was so delivered, and remains so.",
   "all mixes of local and remote deliveries of own, witnessed, delegated and foreign events in any order",
   "Tests check single remote deliveries; escrowed remote copies followed by local ones, or the reverse, are what leak.",
   [E], "Kever.locallyOwned/locallyWitnessed/locallyMembered/locallyDelegated, valSigsWigsDel local checks, escrowMFEvent, EventSourceRecord"),
]
