E = "src/keri/vdr/eventing.py"
V = "src/keri/vdr/verifying.py"
P = "src/keri/core/parsing.py"
TECH = ("TLA+/TLC: Tel.tla is the contract of registries and credentials; recorded executions of the real Parser, Tevery, "
        "Tever, Reger and Verifier on random worlds are validated by TelTrace.tla, and every delivery order of small worlds, "
        "enumerated and model checked by TelMC.tla, is replayed into the real code")
NOTE = ("Random worlds (1-4 issuers, 1-3 registries with rotations, up to 8 credentials with edges and schemas, twins, forged, "
        "mis-anchored, badly signed and superseded events) plus all orders of small worlds; every log, registry state in memory "
        "and stored, credential state, saved credential, index and attachment is compared with the contract. Real digests and "
        "signatures; LMDB is an in-memory stand-in with LMDB's transaction and cursor semantics. Bounded and sampled, not proved.")
ALLV = ["histories", "inputs", "schedules"]


def p(id, title, statement, q, tests, files, mech, over=ALLV, note=NOTE, tech=TECH):
    return dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech, tech=tech, note=note)


PROPS = [
 p("C39", "A registry's log is gapless and chained, and its backers those its events make",
   "A validator holds for every registry at most one inception and its rotations in sequence, each naming by digest the one before it, each at most once, and never changes or loses one. The backers in force are those of the inception with the cuts and additions of the accepted rotations applied, never one twice, never with a threshold they cannot meet; an event of a registry with backers is accepted only with verified signatures of at least the threshold of the backers that event puts in force (for an issuance or revocation: the backers at the registry event it names), and then is. The registry's state, in memory and stored, is the one its accepted events make.",
   "all histories of deliveries of good and bad registry events with any mix of backer signatures, in any order, repeated or forked",
   "The vdr tests build one honest registry with one or two rotations; forks, partial and forged backer signatures and rotations out of order are not combined.",
   [E, P], "Tever.incept/rotate/valAnchorBigs/escrow*, Tevery.processEvent, Reger.puts/states"),
 p("C40", "A credential is issued once and revoked once, in the registry that issued it",
   "A credential's log is an issuance and then at most a revocation that names it by digest in the same registry, of the kind (with or without backers) the registry has; both come only after the registry, and a backed one only after the registry event it names, is accepted. What a registry reports as the state of a credential is the last such event, nothing for a credential it has not issued; once revoked a credential stays revoked.",
   "all histories of issuances and revocations of any number of credentials in any number of registries, in any order, repeated, doubled or crossed between registries",
   "Tests issue and revoke one credential in one registry; the interesting cases are two registries, doubled events and revocations that come first.",
   [E], "Tever.issue/revoke/vcState/vcSn, Tevery.processEvent, TELstatus"),
 p("C41", "A transaction event counts only when its issuer's key event log seals it",
   "A registry inception, rotation, issuance or revocation is accepted only when a key event in the accepted, not superseded, log of the issuer of its registry seals exactly that event (identifier, sequence number and digest) and the delivered couple names that key event by sequence number and digest. The couple stored with an accepted event is one that does. Events of own registries are accepted only from local sources and others only from elsewhere.",
   "all mixes of right, wrong, missing, foreign, repeated and superseded anchors, delivered before or after the key events they name",
   "Tests attach the right couple, or none; other sequence numbers, other identifiers' logs, seals beside the right one and recoveries are not tried.",
   [E], "Tever.verifyAnchor/valAnchorBigs, Reger.ancs, Tevery.processEscrowAnchorless"),
 p("C42", "A credential is saved only when issued by its issuer, valid by schema and chain",
   "A credential is saved as verified only when its registry, incepted by the credential's own issuer, has issued it; its content satisfies its schema, which is known; and every credential its edges name is saved, not revoked, of the schema the edge asks, and stands to it as the edge's operators require (I2I, NI2I, E1E, in any combination). When all of that holds at delivery, or by a later escrow pass, it is saved. The indices by issuer, subject and schema name exactly the saved credentials, and a saved credential is never lost.",
   "all graphs of credentials with edges, operators, schemas, forged and foreign issuers, revocations, delivered in any order",
   "The tests verify short honest chains; operator combinations, revoked or late sources and foreign registries are sampled at most once.",
   [V, E], "Verifier.processCredential/verifyChain/processEscrows/saveCredential"),
 p("C43", "Registry events and credentials out of order come to the same as in order",
   "An event that lacks only what may yet come (its registry, the events before it, the registry event it names, the key event that seals it, more backer signatures) is kept and accepted by an escrow pass once that has come, with the signatures of its several deliveries taken together; a credential that lacks only its registry's events, its schema or its sources is kept and saved likewise. Where no two events claim one place the logs that come of a set of messages do not depend on the order they came in.",
   "all delivery orders, with escrow passes at any points between, of good and bad messages",
   "Tests deliver in one order; the number of orders with escrow passes between is beyond enumeration by hand.",
   [E, V], "Reger escrows oots/taes/tpwe, Tevery.escrow*/processEscrow*, Verifier escrows mre/mce/mse"),
 p("C44", "Registries and credentials survive restarts and crashes, and replay the same",
   "A validator of registries and credentials stopped at any commit and started again has the logs and states of one that accepted a prefix of the same events, and after the same messages are delivered again ends as one never stopped. The logs of a registry and its credentials replayed, with their attachments, to an empty validator give the same logs and states.",
   "all crash points between database commits, restarts anywhere, all histories",
   "Tests never stop between two commits of one event nor restart a registry database.",
   [E], "Tever.logEvent, Reger.tevers/states, Reger.cloneTvtAt/clonePreIter", over=["histories", "crash_points", "schedules"],
   note=NOTE + " Crash points are commits of the LMDB stand-in; the real engine's own atomicity is trusted."),
]
