TECH = ("TLA+/TLC: Thold.tla says which expressions are thresholds, what they ask for and who meets them; all small expressions, enumerated and model "
        "checked by TholdMC.tla, and random larger ones are given in every form to the real Tholder, tried on all (or many) sets of signers; "
        "TholdTrace.tla judges")
NOTE = ("All numbers to 5, all one clause expressions of up to three of five weights, two clause and nested ones of up to two, with all sets of "
        "signers; random ones of up to four clauses of eight elements, nested to four, valid or not, with 40 sets. Bounded and sampled.")
C = "src/keri/core/coring.py"
PROPS = [
 dict(id="C32", title="A threshold is met by just those whose weights make it up",
      statement="A threshold expression - a number, or clauses of fractional weights some of which stand for nested groups of weights - is taken exactly when its weights are from 0 to 1 and those of every clause and nested group come to at least 1. It is met exactly by those sets of signers who meet every clause, a nested group counting with its weight when its own members meet it, a number by that many distinct signers (none for 0); repeated indices count once, and ones past the end count nothing. However it is given (list, text, number, fractions) and put down (expression, JSON, limen) and read again it is the same threshold, for the same number of signers.",
      over=["threshold expressions", "sets of signers"],
      q="all threshold expressions and all sets of signers",
      tests="Tests try some expressions on a few sets of indices; nested groups with several sets hardly.",
      files=[C], mech="Tholder: _processSith/_processLimen/_processThold/_processWeighted, satisfy, sith, limen",
      tech=TECH, note=NOTE),
]
