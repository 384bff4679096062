------------------------------- MODULE Metadata -------------------------------
(* Array metadata: what describes an array, the document in which it is        *)
(* stored, and which documents load, to what.                                  *)
(*                                                                             *)
(* A document is the set of its leaves <<path, kind, text>>: "obj" and "arr"   *)
(* with the number of their members, "str", "bool", "null", numbers as "n32",  *)
(* "n64" (natural numbers of that many bits), "int" (others of 32 bits) and    *)
(* "num" (the rest), and "json", any value whose structure does not matter.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Has(L, p) == \E x \in L : x[1] = p
Leaf(L, p) == CHOOSE x \in L : x[1] = p
Kind(L, p) == IF Has(L, p) THEN Leaf(L, p)[2] ELSE "none"
Text(L, p) == IF Has(L, p) THEN Leaf(L, p)[3] ELSE ""
Below(L, p) == {x \in L : Len(x[1]) >= Len(p) /\ SubSeq(x[1], 1, Len(p)) = p}
Nat2(s) == CHOOSE n \in 0..40 : ToString(n) = s      \* lengths
At(p, i) == p \o "/" \o ToString(i - 1)

(* --- data types ------------------------------------------------------------ *)
Orders == {"<", ">"}
Core == {"bool", "i1", "u1"} \cup {o \o k : o \in Orders,
         k \in {"i2", "i4", "i8", "u2", "u4", "u8", "f2", "f4", "f8"}}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE NumVal(_)                         \* of a string of up to 9 digits
NumVal(s) == IF Len(s) = 0 THEN 0
             ELSE NumVal(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal(SubSeq(s, Len(s), Len(s)))
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
IsRaw(s) == /\ Len(s) > 1 /\ Len(s) =< 10 /\ SubSeq(s, 1, 1) = "r"
            /\ AllDigits(SubSeq(s, 2, Len(s))) /\ SubSeq(s, 2, 2) # "0"
            /\ NumVal(SubSeq(s, 2, Len(s))) % 8 = 0
KnownType(s) == s \in Core \/ IsRaw(s)
(* spellings on which the protocol is silent: a byte order for single bytes,   *)
(* sizes written with leading zeros, zero or enormous ones                     *)
UnclearType(s) == \/ s \in {o \o k : o \in Orders, k \in {"i1", "u1"}}
                  \/ /\ Len(s) > 1 /\ SubSeq(s, 1, 1) = "r" /\ AllDigits(SubSeq(s, 2, Len(s)))
                     /\ (SubSeq(s, 2, 2) = "0" \/ Len(s) > 10)
SameType(s) == IF s \in {"<i1", ">i1"} THEN "i1" ELSE IF s \in {"<u1", ">u1"} THEN "u1" ELSE s

(* --- codecs ------------------------------------------------------------------ *)
GzipURI == "https://purl.org/zarr/spec/codec/gzip/1.0"
CodecIds == {"raw", "bzip2", GzipURI, "lz4", "xz"}
Param(id) == CASE id = "bzip2" -> "blockSize" [] id = GzipURI -> "level"
               [] id = "lz4" -> "blockSize" [] id = "xz" -> "preset" [] OTHER -> "none"
Default(id) == CASE id = "bzip2" -> "9" [] id = GzipURI -> "-1"
                 [] id = "lz4" -> "65536" [] id = "xz" -> "6" [] OTHER -> ""

(* --- the document of a description -------------------------------------------- *)
(* d: shape, chunk (sequences of decimal strings), sep, dt (string, or "" for   *)
(* an extension type, then ext = <<uri, type>> or with a fallback), layout,      *)
(* codec, conf, fill (a text), attrs and exts (of texts)                         *)
Nums(p, s) == {<<p, "arr", ToString(Len(s))>>}
NumLeaf(p, s, k) == {<<At(p, i), k[i], s[i]>> : i \in 1..Len(s)}
TypeLeaves(d) ==
  IF d.dt # "" THEN {<<"/data_type", "str", d.dt>>}
  ELSE {<<"/data_type", "obj", ToString(Len(d.ext))>>,
        <<"/data_type/extension", "str", d.ext[1]>>, <<"/data_type/type", "str", d.ext[2]>>}
       \cup (IF Len(d.ext) = 3 THEN {<<"/data_type/fallback", "str", d.ext[3]>>} ELSE {})
CodecLeaves(d) ==
  IF d.codec = "raw" THEN {}
  ELSE {<<"/compressor", "obj", "2">>, <<"/compressor/codec", "str", d.codec>>,
        <<"/compressor/configuration", "obj", "1">>,
        <<"/compressor/configuration/" \o Param(d.codec), d.confkind, d.conf>>}
ExtLeaves(d) ==
  {<<"/extensions", "arr", ToString(Len(d.exts))>>} \cup
  UNION {LET p == At("/extensions", i)  e == d.exts[i] IN
         {<<p, "obj", IF e[2] = "none" THEN "2" ELSE "3">>,
          <<p \o "/extension", "str", e[1]>>, <<p \o "/must_understand", "bool", "false">>}
         \cup (IF e[2] = "none" THEN {} ELSE {<<p \o "/configuration", "json", e[2]>>})
         : i \in 1..Len(d.exts)}
AttrLeaves(d) == {<<"/attributes", "obj", ToString(Len(d.attrs))>>} \cup
                 {<<"/attributes/" \o d.attrs[i][1], "json", d.attrs[i][2]>> : i \in 1..Len(d.attrs)}
Leaves(d) ==
  {<<"", "obj", IF d.codec = "raw" THEN "7" ELSE "8">>,
   <<"/chunk_grid", "obj", "3">>, <<"/chunk_grid/type", "str", "regular">>,
   <<"/chunk_grid/separator", "str", d.sep>>, <<"/chunk_memory_layout", "str", d.layout>>,
   <<"/fill_value", "json", d.fill>>}
  \cup Nums("/shape", d.shape) \cup NumLeaf("/shape", d.shape, d.shapekind)
  \cup Nums("/chunk_grid/chunk_shape", d.chunk)
  \cup NumLeaf("/chunk_grid/chunk_shape", d.chunk, [i \in 1..Len(d.chunk) |-> "n32"])
  \cup TypeLeaves(d) \cup CodecLeaves(d) \cup ExtLeaves(d) \cup AttrLeaves(d)

(* --- what a description is, as seen by a program ------------------------------- *)
AttrSet(d) == {d.attrs[i] : i \in 1..Len(d.attrs)}
View(d) == [shape |-> d.shape, chunk |-> d.chunk, sep |-> d.sep, dt |-> d.dt,
            ext |-> IF d.dt = "" THEN d.ext ELSE <<>>, layout |-> d.layout, codec |-> d.codec,
            conf |-> IF d.codec = "raw" THEN "" ELSE d.conf, fill |-> d.fill,
            attrs |-> AttrSet(d), exts |-> d.exts]

(* --- what a document describes --------------------------------------------------- *)
ArrOf(L, p) == [i \in 1..Nat2(Text(L, p)) |-> Text(L, At(p, i))]
DocCodec(L) == IF Kind(L, "/compressor") # "obj" THEN "raw" ELSE Text(L, "/compressor/codec")
DocConf(L) == LET c == DocCodec(L)
                  p == "/compressor/configuration/" \o Param(c)
              IN IF c = "raw" THEN "" ELSE IF Has(L, p) THEN Text(L, p) ELSE Default(c)
ViewOf(L) ==
  [shape |-> ArrOf(L, "/shape"), chunk |-> ArrOf(L, "/chunk_grid/chunk_shape"),
   sep |-> Text(L, "/chunk_grid/separator"),
   dt |-> IF Kind(L, "/data_type") = "str" THEN SameType(Text(L, "/data_type")) ELSE "",
   ext |-> IF Kind(L, "/data_type") = "str" THEN <<>>
           ELSE <<Text(L, "/data_type/extension"), Text(L, "/data_type/type")>> \o
                (IF Kind(L, "/data_type/fallback") = "str"
                 THEN <<SameType(Text(L, "/data_type/fallback"))>> ELSE <<>>),
   layout |-> Text(L, "/chunk_memory_layout"), codec |-> DocCodec(L), conf |-> DocConf(L),
   fill |-> IF Has(L, "/fill_value") THEN Text(L, "/fill_value") ELSE "null",
   attrs |-> {<<SubSeq(x[1], 13, Len(x[1])), x[3]>> : x \in Below(L, "/attributes/")},
   exts |-> [i \in 1..Nat2(IF Has(L, "/extensions") THEN Text(L, "/extensions") ELSE "0") |->
             LET p == At("/extensions", i) IN
             <<Text(L, p \o "/extension"), IF Has(L, p \o "/configuration")
                THEN Text(L, p \o "/configuration") ELSE "none">>]]

(* --- which documents load ----------------------------------------------------------- *)
Nats(L, p, ks) == Kind(L, p) = "arr" /\ \A i \in 1..Nat2(Text(L, p)) : Kind(L, At(p, i)) \in ks
RECURSIVE Times(_, _)
(* the product of decimal numbers, or 0 where it may be beyond 2^31 *)
Times(s, i) == IF i > Len(s) THEN 1
  ELSE IF Len(s[i]) > 4 \/ Times(s, i + 1) > 100000 \/ Times(s, i + 1) = 0 THEN 0
  ELSE NumVal(s[i]) * Times(s, i + 1)
BadShape(L) == ~Nats(L, "/shape", {"n32", "n64"})
BadGrid(L) == \/ Kind(L, "/chunk_grid") # "obj"
              \/ Kind(L, "/chunk_grid/type") # "str" \/ Text(L, "/chunk_grid/type") # "regular"
              \/ ~Nats(L, "/chunk_grid/chunk_shape", {"n32"})
              \/ \E i \in 1..Nat2(Text(L, "/chunk_grid/chunk_shape")) :
                   Text(L, At("/chunk_grid/chunk_shape", i)) = "0"
              \/ Text(L, "/shape") # Text(L, "/chunk_grid/chunk_shape")
              \/ Kind(L, "/chunk_grid/separator") \notin {"str", "none"}
TypeStr(L, p) == Kind(L, p) = "str" /\ (KnownType(Text(L, p)) \/ UnclearType(Text(L, p)))
BadType(L) == \/ Kind(L, "/data_type") \notin {"str", "obj"}
              \/ Kind(L, "/data_type") = "str" /\ ~TypeStr(L, "/data_type")
              \/ Kind(L, "/data_type") = "obj" /\
                   \/ Kind(L, "/data_type/extension") # "str" \/ Kind(L, "/data_type/type") # "str"
                   \/ Kind(L, "/data_type/fallback") \notin {"none", "null"} /\
                        ~TypeStr(L, "/data_type/fallback")
BadLayout(L) == Kind(L, "/chunk_memory_layout") # "str" \/ Text(L, "/chunk_memory_layout") \notin {"C", "F"}
BadExts(L) == \/ Kind(L, "/extensions") \notin {"arr", "none"}
              \/ /\ Kind(L, "/extensions") = "arr"
                 /\ \E i \in 1..Nat2(Text(L, "/extensions")) :
                      LET p == At("/extensions", i) IN
                      \/ Kind(L, p) # "obj" \/ Kind(L, p \o "/extension") # "str"
                      \/ Kind(L, p \o "/must_understand") # "bool"
                      \/ Text(L, p \o "/must_understand") = "true"
BadAttrs(L) == Kind(L, "/attributes") \notin {"obj", "none"}
BadCodec(L) == \/ Kind(L, "/compressor") \notin {"obj", "none", "null"}
               \/ /\ Kind(L, "/compressor") = "obj"
                  /\ \/ Kind(L, "/compressor/codec") # "str"
                     \/ Text(L, "/compressor/codec") \notin CodecIds
                     \/ /\ Kind(L, "/compressor/configuration") = "obj"
                        /\ Kind(L, "/compressor/configuration/" \o Param(DocCodec(L))) \in
                             {"str", "obj", "arr", "bool"}
                     \/ Kind(L, "/compressor/configuration") \in {"str", "bool", "n32", "n64", "int", "num"}
(* structures written as arrays of their members: neither required nor refused *)
Positional(L) == \/ Kind(L, "") = "arr" \/ Kind(L, "/data_type") = "arr" \/ Kind(L, "/chunk_grid") = "arr"
                 \/ Kind(L, "/compressor") = "arr"
                 \/ \E x \in L : x[2] = "arr" /\ \E i \in 1..9 : x[1] = At("/extensions", i)
MustReject(L) == /\ ~Positional(L)
                 /\ \/ Kind(L, "") # "obj"
                    \/ BadShape(L) \/ BadGrid(L) \/ BadType(L) \/ BadLayout(L) \/ BadExts(L)
                    \/ BadAttrs(L) \/ BadCodec(L)
Known == {"shape", "data_type", "chunk_grid", "chunk_memory_layout", "fill_value", "extensions",
          "attributes", "compressor"}
Unclear(L) ==
  \/ Positional(L)
  \/ Kind(L, "/chunk_grid/separator") = "none" \/ Kind(L, "/extensions") = "none"
  \/ Kind(L, "/attributes") = "none" \/ Kind(L, "/compressor") = "null"
  \/ Kind(L, "/data_type") = "str" /\ UnclearType(Text(L, "/data_type"))
  \/ Kind(L, "/data_type/fallback") = "null"
  \/ Kind(L, "/data_type/fallback") = "str" /\ UnclearType(Text(L, "/data_type/fallback"))
  \/ Kind(L, "/compressor") = "obj" /\
       \/ DocCodec(L) = "raw" /\ Kind(L, "/compressor/configuration") # "null"
       \/ DocCodec(L) # "raw" /\ Kind(L, "/compressor/configuration") # "obj"
       \/ /\ DocCodec(L) # "raw"
          /\ Kind(L, "/compressor/configuration/" \o Param(DocCodec(L))) \notin {"none", "n32", "int"}
       \/ DocCodec(L) = "bzip2" /\ ~(Text(L, "/compressor/configuration/blockSize") \in
                                       {""} \cup {ToString(n) : n \in 0..255})
       \/ Len(Text(L, "/compressor/configuration/" \o Param(DocCodec(L)))) > 9
  \/ \E i \in 1..Nat2(IF Kind(L, "/extensions") = "arr" THEN Text(L, "/extensions") ELSE "0") :
       Kind(L, At("/extensions", i) \o "/configuration") \notin {"none", "json"}
  \* chunks of more elements than can be handled, or perhaps so
  \/ Times(ArrOf(L, "/chunk_grid/chunk_shape"), 1) = 0
MustAccept(L) == ~MustReject(L) /\ ~Unclear(L)
===============================================================================
