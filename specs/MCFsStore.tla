------------------------------- MODULE MCFsStore -------------------------------
EXTENDS FsStore, IOUtils
VariantEnv == IF "VARIANT" \in DOMAIN IOEnv THEN IOEnv.VARIANT ELSE "none"
DeviateEnv == ~("STRICT" \in DOMAIN IOEnv)
Three == {"p", "q", "r"}
OneEach == [x \in Three |-> 1]
Two == {"p", "q"}
TwoEach == [x \in Two |-> 2]
Mixed == [x \in Three |-> IF x = "p" THEN 2 ELSE 1]
=============================================================================
