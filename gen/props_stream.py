TECH = ("TLA+/TLC: Stream.tla is the contract of the parser; what the real Parser hands on of random streams of real messages, made with "
        "messagize or by hand, in either domain, cut anywhere and damaged, is validated by StreamTrace.tla, and all streams of three units "
        "and all ways to cut them, enumerated and model checked by StreamMC.tla, are replayed into the real code")
NOTE = ("Random streams (1-7 parts, message bodies of all kinds and serializations, attachments of every group in CESR 1 and 2, nested messages, "
        "generic groups, version codes, text and binary) given at once, a byte at a time or cut at random, with damage in counted groups and "
        "outside, plus the enumerated streams and cuts, sampled in the quick tier. What takes the messages is a stand-in that records "
        "them. Bounded and sampled.")
P, E = "src/keri/core/parsing.py", "src/keri/core/eventing.py"

PROPS = [
 dict(id="C33", title="Streams are parsed alike however cut, and damage costs no more than it hit",
      statement="What is made into a stream of messages with attachments is handed on by the parser message by message, in order, each once, to what is to take its kind, with exactly the attachments and nested messages it was sent with and whether it is local - whether attachments follow bare, in a counted group or with the body in one, single or in groups of messages, in CESR version 1 or 2 or switching between, in text or binary, and however the stream is cut as it arrives - and nothing of it is left over. A message that what takes it fails on costs only itself. Damage inside a counted group costs only what that group holds; damage elsewhere may cost what follows but never what came before; nothing is handed on that was not sent.",
      over=["streams", "ways to cut them", "damage"],
      q="all streams of messages with all attachments, all ways to cut them into pieces, all damage",
      tests="Tests parse some hand-made streams given whole, undamaged; pieces, damage and what follows it are tried once or not at all.",
      files=[P, E], mech="Parser.parsator/allParsator/onceParsator/groupParsator/msgParsator/msgProcess and group extractors, messagize, Counter.enclose",
      tech=TECH, note=NOTE),
]
