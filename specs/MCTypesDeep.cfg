SPECIFICATION Spec
CONSTANTS N = 2
  C = 2
  Declared = {"u1", "i1", "bool", "r8", "<u2", ">u2", "<i2", ">f2", "r16", "e", "e<u2", "er16"}
  Elements = {"u8", "i8", "bool", "r8", "u16", "i16", "f16", "r16", "r24", "u32"}
  ByteVals = {0, 1}
INVARIANTS Faithful OneKind Neutral
CHECK_DEADLOCK FALSE
