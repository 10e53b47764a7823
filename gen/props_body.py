TECH = ("TLA+/TLC: Body.tla says which bodies a reader takes and what a maker makes; all bodies of all kinds altered up to twice, enumerated and "
        "model checked by BodyMC.tla, are written byte by byte by the harness and read by the real code, as are bodies of random contents, "
        "made by the real code too and damaged; BodyTrace.tla judges")
NOTE = ("All 44 body types of both protocols and versions in JSON, CBOR, MGPK and (version 2) native serialization; alterations enumerated to depth "
        "two, sampled in the quick tier, random contents. Serializations and digests are computed by the harness apart from the code under test, "
        "except native bytes, whose digest alone is. Two known findings. Bounded and sampled.")
S, M = "src/keri/core/serdering.py", "src/keri/core/mapping.py"
PROPS = [
 dict(id="C36", title="A message body is read back as it was made, and only if it is right",
      statement="A body made of given fields, in whatever order they are given, has exactly the fields of its type and version in their order, its size and the digest of its own bytes as identifier (for a compactable credential that of its most compact form, however much of it is shown); in every serialization (JSON, CBOR, MGPK, native) it is read back with the same contents, protocol, version, type and identifier, taking just its own bytes of what it is read from, in text or binary. A body is refused, whatever its kind, when a field is missing, too much, out of order or both of two alternatives, when its identifier (or that of who it begins) is not the digest of its bytes or no digest at all, when a section message holds a wrong identifier, when its size is wrong, when it is in other bytes than the canonical ones, or cut or changed anywhere, or when its identifier prefix is none or not one such an event may have.",
      over=["message types", "serializations", "contents", "alterations"],
      q="all types of bodies in all serializations with all contents and all alterations of them",
      tests="Tests make and read hand-picked bodies with fixed contents and try a few alterations of some; the space of types, serializations, contents and alterations is hardly sampled.",
      files=[S, M], mech="Serder/SerderKERI/SerderACDC makify, _inhale, _validate, _verify, _compute, _loads/_dumps; Mapper, Compactor, Aggor",
      tech=TECH, note=NOTE),
]
