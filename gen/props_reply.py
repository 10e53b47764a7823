TECH = ("TLA+/TLC: Reply.tla is the contract of signed replies; recorded executions of the real Parser, Revery, Router and Kevery "
        "on random worlds are validated by ReplyTrace.tla, and every delivery order of small worlds, enumerated and model checked "
        "by ReplyMC.tla, is replayed into the real code")
NOTE = ("Random worlds (1-3 identifiers with rotations and recoveries plus nontransferable ones, up to 3 keys with up to 7 replies, "
        "couples and signature groups good, partial, forged, stranger's, mis-numbered, several to a message) plus all orders of small "
        "worlds; records, accepted digests, stored replies, dates and the stored signatures themselves are compared. Real digests and "
        "signatures; LMDB is an in-memory stand-in; the clock is the real one (old replies are dated days back). Bounded and sampled.")
R, E = "src/keri/core/routing.py", "src/keri/core/eventing.py"


def p(id, title, statement, q, tests, mech, over=("histories", "inputs", "schedules")):
    return dict(id=id, title=title, statement=statement, over=list(over), q=q, tests=tests, files=[R, E], mech=mech, tech=TECH, note=NOTE)


PROPS = [
 p("C30", "A reply is recorded only when its owner signed it and nothing later is on record",
   "An endpoint role, endpoint location or watched identifier is recorded only from a well-formed reply signed by the identifier it belongs to: a nontransferable one by its own key, a transferable one by signatures that meet the threshold of the establishment event of its log in force that the signature group names by sequence number and digest; own identifiers' replies are let in only where configured. A record is replaced only by a reply signed under a later establishment event, or under the same one with a later date-time (as an instant, whatever its zone); repeating, re-signing with older keys, or adding bad signatures to a message never brings an earlier reply back. The record says what the accepted reply says, and the reply, its date and signatures that prove it are stored with it.",
   "all histories of replies for a key with any dates, signatures by any of the owner's establishment events, partial, forged or foreign signatures, in any order and repeated",
   "Tests send one or two honest replies in date order; orderings against rotations, re-signed repeats and bad groups beside good ones are not tried.",
   "Revery.processReply/acceptReply/updateReply/removeReply, Kevery.processReplyEndRole/LocScheme/AddWatched, updateEnd/updateLoc/updateWatched"),
 p("C31", "A reply with all it needs is accepted, at once or from escrow, in any order",
   "A well-formed reply that comes with sufficient signatures of its owner and is later than what is on record is accepted at once, whatever bad or foreign signatures come with it. One whose signing event is not yet known, or that has too few signatures yet, is kept, its signatures of several deliveries taken together, and accepted - by the next escrow pass or the delivery that completes it - when that has come, unless its date is by then more than the escrow's time-out past. What is accepted stays, with its proof, through escrow passes, repeats and restarts, so that validators shown the same replies and key events in any order record the same.",
   "all orders and interleavings of key events, whole and partial replies, escrow passes and restarts",
   "Tests escrow one reply once for one reason; partial signatures across deliveries, repeats of accepted replies and passes in between are not combined.",
   "Revery.acceptReply/escrowReply/processEscrowReply, Kevery.processReply*"),
 p("C45", "A key state notice is saved only signed by its source and agreeing with the log",
   "A key state notice is saved, for the identifier it is about and the source that gives it, only when its source signed it (sufficiently, by its own key or under an establishment event of its log in force), the source is - unless the processor takes any - the identifier itself, a backer the notice names or a configured watcher, it is not behind the log already held, and where the log in force has the event it names by number, the digest is that event's. A notice for which all that holds is saved, at once or from escrow once its source's event is known.",
   "all histories of key events and notices from any sources, true, behind, ahead, contradicting, unsigned or partly signed",
   "Tests process one notice for each rule; sources whose own log comes later and identifiers that recover are not tried.",
   "Kevery.processReplyKeyStateNotice/updateKeyState, Revery.acceptReply/processEscrowReply"),
]
