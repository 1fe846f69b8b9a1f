----------------------------- MODULE UrlEncode -----------------------------
(***************************************************************************)
(* The url-encoding of requests (crates/core/src/urlencode): a value tree   *)
(* is encoded to a query string and decoded back, directed by its shape.    *)
(* Text is a sequence of symbols: a one-character string, or "U+xxxx" for   *)
(* characters that are awkward to write here; numbers, true, false and null *)
(* are single symbols.  A query string is a sequence of pieces, each one    *)
(* character or one percent-encoded character.                              *)
(*                                                                          *)
(* Values: [t |-> "text", s], [t |-> "num", k, v], [t |-> "bool", v],       *)
(* [t |-> "char", c], [t |-> "unitv", n], [t |-> "newtype", x],             *)
(* [t |-> "some", x], [t |-> "none"], [t |-> "skip"], [t |-> "list", xs],   *)
(* [t |-> "bytes", xs] (a byte string, written as a list of numbers),       *)
(* [t |-> "tuple", xs], [t |-> "tstruct", xs], [t |-> "struct", fs],        *)
(* [t |-> "map", fs], [t |-> "newv", n, x], [t |-> "tupv", n, xs],          *)
(* [t |-> "structv", n, fs]; fs is a sequence of <<key, value>>.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Alnum == {"a", "b", "c", "d", "e", "f", "g", "k", "l", "n", "r", "s", "t", "u", "v", "x", "A", "N", "S", "T", "U", "Z",
          "0", "1", "2", "5", "7", "8", "9"}
Unreserved == Alnum \cup {"-", "_", ".", "~"}

\* what each other character looks like percent-encoded (UTF-8, one piece per character)
PctTable ==
  ("!" :> "%21") @@ ("\"" :> "%22") @@ ("#" :> "%23") @@ ("$" :> "%24") @@ ("%" :> "%25") @@ ("&" :> "%26")
  @@ ("'" :> "%27") @@ ("(" :> "%28") @@ (")" :> "%29") @@ ("*" :> "%2A") @@ ("+" :> "%2B") @@ ("," :> "%2C")
  @@ ("/" :> "%2F") @@ (":" :> "%3A") @@ (";" :> "%3B") @@ ("<" :> "%3C") @@ ("=" :> "%3D") @@ (">" :> "%3E")
  @@ ("?" :> "%3F") @@ ("@" :> "%40") @@ ("[" :> "%5B") @@ ("\\" :> "%5C") @@ ("]" :> "%5D") @@ ("^" :> "%5E")
  @@ ("`" :> "%60") @@ ("{" :> "%7B") @@ ("|" :> "%7C") @@ ("}" :> "%7D") @@ (" " :> "%20")
  @@ ("U+0000" :> "%00") @@ ("U+0001" :> "%01") @@ ("U+0008" :> "%08") @@ ("U+0009" :> "%09")
  @@ ("U+000A" :> "%0A") @@ ("U+000C" :> "%0C") @@ ("U+000D" :> "%0D") @@ ("U+001F" :> "%1F")
  @@ ("U+007F" :> "%7F") @@ ("U+00E9" :> "%C3%A9") @@ ("U+00DF" :> "%C3%9F") @@ ("U+20AC" :> "%E2%82%AC")
  @@ ("U+2028" :> "%E2%80%A8") @@ ("U+FEFF" :> "%EF%BB%BF") @@ ("U+1F600" :> "%F0%9F%98%80")
  @@ ("U+0080" :> "%C2%80") @@ ("U+00A0" :> "%C2%A0") @@ ("U+07FF" :> "%DF%BF") @@ ("U+0800" :> "%E0%A0%80")
  @@ ("U+0301" :> "%CC%81") @@ ("U+200B" :> "%E2%80%8B") @@ ("U+D7FF" :> "%ED%9F%BF") @@ ("U+E000" :> "%EE%80%80")
  @@ ("U+FFFD" :> "%EF%BF%BD") @@ ("U+FFFF" :> "%EF%BF%BF") @@ ("U+10000" :> "%F0%90%80%80")
  @@ ("U+10FFFF" :> "%F4%8F%BF%BF")

Reserved == DOMAIN PctTable
Control == {"U+0000", "U+0001", "U+0008", "U+0009", "U+000A", "U+000C", "U+000D", "U+001F"}

\* how JSON escapes control characters inside strings
JsonEsc ==
  ("U+0000" :> <<"\\", "u", "0", "0", "0", "0">>) @@ ("U+0001" :> <<"\\", "u", "0", "0", "0", "1">>)
  @@ ("U+0008" :> <<"\\", "b">>) @@ ("U+0009" :> <<"\\", "t">>) @@ ("U+000A" :> <<"\\", "n">>)
  @@ ("U+000C" :> <<"\\", "f">>) @@ ("U+000D" :> <<"\\", "r">>)
  @@ ("U+001F" :> <<"\\", "u", "0", "0", "1", "f">>)
  @@ ("\"" :> <<"\\", "\"">>) @@ ("\\" :> <<"\\", "\\">>)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Present(fs) == SelectSeq(fs, LAMBDA f : f[2].t # "skip")

(***************************** Encoding ************************************)
JsonText(s) == <<"\"">> \o Flat(Map(LAMBDA c : IF c \in DOMAIN JsonEsc THEN JsonEsc[c] ELSE <<c>>, s)) \o <<"\"">>

RECURSIVE JsonOf(_)
JsonObject(fs) == <<"{">> \o Join(Map(LAMBDA f : JsonText(f[1]) \o <<":">> \o JsonOf(f[2]), Present(fs)), <<",">>) \o <<"}">>
JsonList(xs) == <<"[">> \o Join(Map(JsonOf, xs), <<",">>) \o <<"]">>
JsonOf(v) ==
  CASE v.t = "text" -> JsonText(v.s)
    [] v.t = "num" -> <<v.v>>
    [] v.t = "bool" -> <<v.v>>
    [] v.t = "char" -> JsonText(<<v.c>>)
    [] v.t = "unitv" -> JsonText(v.n)
    [] v.t \in {"newtype", "some"} -> JsonOf(v.x)
    [] v.t = "none" -> <<"null">>
    [] v.t \in {"list", "tuple", "tstruct", "bytes"} -> JsonList(v.xs)
    [] v.t \in {"struct", "map"} -> JsonObject(v.fs)
    [] v.t = "newv" -> <<"{">> \o JsonText(v.n) \o <<":">> \o JsonOf(v.x) \o <<"}">>
    [] v.t = "tupv" -> <<"{">> \o JsonText(v.n) \o <<":">> \o JsonList(v.xs) \o <<"}">>
    [] v.t = "structv" -> <<"{">> \o JsonText(v.n) \o <<":">> \o JsonObject(v.fs) \o <<"}">>

\* a parameter: the text of plain values, JSON for structured ones
RECURSIVE ParamText(_)
ParamText(v) ==
  CASE v.t = "text" -> v.s
    [] v.t \in {"num", "bool"} -> <<v.v>>
    [] v.t = "char" -> <<v.c>>
    [] v.t = "unitv" -> v.n
    [] v.t \in {"newtype", "some"} -> ParamText(v.x)
    [] OTHER -> JsonOf(v)

Pct(c) == IF c \in Reserved THEN PctTable[c] ELSE c
Encode(v) ==
  Join(Map(LAMBDA f : Map(Pct, f[1]) \o <<"=">> \o Map(Pct, ParamText(f[2])), Present(v.fs)), <<"&">>)

\* a value with one variant name is a single parameter of that name
EncodeVariant(v) == LET w == IF v.t = "newv" THEN ParamText(v.x) ELSE JsonList(v.xs) IN
  Map(Pct, v.n) \o <<"=">> \o Map(Pct, w)

(***************************** Decoding ************************************)
Unpct(p) == IF \E c \in Reserved : PctTable[c] = p THEN CHOOSE c \in Reserved : PctTable[c] = p ELSE p

RECURSIVE Index(_, _, _)
Index(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Index(s, c, i + 1)

RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET i == Index(s, c, 1) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o SplitOn(SubSeq(s, i + 1, Len(s)), c)

\* <<name, value>> of every non-empty pair
Pairs(q) ==
  LET ps == SelectSeq(SplitOn(q, "&"), LAMBDA p : p # <<>>)
      one(p) == LET i == Index(p, "=", 1) IN
        IF i = 0 THEN <<Map(Unpct, p), <<>>>>
        ELSE <<Map(Unpct, SubSeq(p, 1, i - 1)), Map(Unpct, SubSeq(p, i + 1, Len(p)))>>
  IN Map(one, ps)

Fail == [ok |-> FALSE]
Got(v, r) == [ok |-> TRUE, v |-> v, rest |-> r]

\* the text of a JSON string whose opening quote has been consumed
RECURSIVE StringTail(_, _)
StringTail(s, acc) ==
  IF s = <<>> THEN Fail
  ELSE IF s[1] = "\"" THEN Got(acc, Tail(s))
  ELSE IF s[1] # "\\" THEN IF s[1] \in Control THEN Fail ELSE StringTail(Tail(s), Append(acc, s[1]))
  ELSE IF Len(s) >= 2 /\ s[2] # "u"
       THEN LET hit == {c \in DOMAIN JsonEsc : JsonEsc[c] = <<"\\", s[2]>>} IN
            IF hit = {} THEN Fail ELSE StringTail(SubSeq(s, 3, Len(s)), Append(acc, CHOOSE c \in hit : TRUE))
       ELSE LET hit == {c \in DOMAIN JsonEsc : JsonEsc[c] = SubSeq(s, 1, 6)} IN
            IF hit = {} THEN Fail ELSE StringTail(SubSeq(s, 7, Len(s)), Append(acc, CHOOSE c \in hit : TRUE))
JString(s) == IF s # <<>> /\ s[1] = "\"" THEN StringTail(Tail(s), <<>>) ELSE Fail
Lit(s, c) == s # <<>> /\ s[1] = c

\* a JSON value of the shape of v: shapes are given by example
RECURSIVE JValue(_, _), JItems(_, _, _, _), JFields(_, _, _)
JItems(xs, i, s, acc) ==
  IF i > Len(xs) THEN IF Lit(s, "]") THEN Got(acc, Tail(s)) ELSE Fail
  ELSE LET s2 == IF i = 1 THEN s ELSE IF Lit(s, ",") THEN Tail(s) ELSE <<>>
           r == JValue(xs[i], s2)
       IN IF s2 = <<>> \/ ~r.ok THEN Fail ELSE JItems(xs, i + 1, r.rest, Append(acc, r.v))
\* fields in the order they are written, absent ones stay skipped
JFields(fs, s, acc) ==
  IF fs = <<>> THEN IF Lit(s, "}") THEN Got(acc, Tail(s)) ELSE Fail
  ELSE IF Head(fs)[2].t = "skip" THEN JFields(Tail(fs), s, Append(acc, Head(fs)))
  ELSE LET first == \A i \in 1..Len(acc) : acc[i][2].t = "skip"
           s2 == IF first THEN s ELSE IF Lit(s, ",") THEN Tail(s) ELSE <<>>
           k == JString(s2)
       IN IF s2 = <<>> \/ ~k.ok \/ ~Lit(k.rest, ":") THEN Fail
          ELSE IF k.v # Head(fs)[1] THEN Fail
          ELSE LET r == JValue(Head(fs)[2], Tail(k.rest)) IN
               IF ~r.ok THEN Fail ELSE JFields(Tail(fs), r.rest, Append(acc, <<k.v, r.v>>))
JBody(v, s) ==
  CASE v.t = "newv" -> LET r == JValue(v.x, s) IN IF r.ok THEN Got([v EXCEPT !.x = r.v], r.rest) ELSE Fail
    [] v.t = "tupv" -> IF ~Lit(s, "[") THEN Fail ELSE
         LET r == JItems(v.xs, 1, Tail(s), <<>>) IN IF r.ok THEN Got([v EXCEPT !.xs = r.v], r.rest) ELSE Fail
    [] v.t = "structv" -> IF ~Lit(s, "{") THEN Fail ELSE
         LET r == JFields(v.fs, Tail(s), <<>>) IN IF r.ok THEN Got([v EXCEPT !.fs = r.v], r.rest) ELSE Fail
JValue(v, s) ==
  IF s = <<>> THEN Fail ELSE
  CASE v.t = "text" -> LET r == JString(s) IN IF r.ok THEN Got([v EXCEPT !.s = r.v], r.rest) ELSE Fail
    [] v.t \in {"num", "bool"} -> Got([v EXCEPT !.v = s[1]], Tail(s))
    [] v.t = "char" -> LET r == JString(s) IN
         IF r.ok /\ Len(r.v) = 1 THEN Got([v EXCEPT !.c = r.v[1]], r.rest) ELSE Fail
    [] v.t = "unitv" -> LET r == JString(s) IN IF r.ok /\ r.v = v.n THEN Got(v, r.rest) ELSE Fail
    [] v.t = "none" -> IF Lit(s, "null") THEN Got(v, Tail(s)) ELSE Fail
    [] v.t \in {"newtype", "some"} ->
         LET r == JValue(v.x, s) IN IF r.ok THEN Got([v EXCEPT !.x = r.v], r.rest) ELSE Fail
    [] v.t \in {"list", "tuple", "tstruct", "bytes"} -> IF ~Lit(s, "[") THEN Fail ELSE
         LET r == JItems(v.xs, 1, Tail(s), <<>>) IN IF r.ok THEN Got([v EXCEPT !.xs = r.v], r.rest) ELSE Fail
    [] v.t \in {"struct", "map"} -> IF ~Lit(s, "{") THEN Fail ELSE
         LET r == JFields(v.fs, Tail(s), <<>>) IN IF r.ok THEN Got([v EXCEPT !.fs = r.v], r.rest) ELSE Fail
    [] OTHER -> IF ~Lit(s, "{") THEN Fail ELSE
         LET k == JString(Tail(s)) IN IF ~k.ok \/ ~Lit(k.rest, ":") THEN Fail ELSE IF k.v # v.n THEN Fail ELSE
         LET r == JBody(v, Tail(k.rest)) IN
         IF r.ok /\ Lit(r.rest, "}") THEN Got(r.v, Tail(r.rest)) ELSE Fail

RECURSIVE DecodeParam(_, _)
DecodeParam(v, s) ==
  CASE v.t = "text" -> Got([v EXCEPT !.s = s], <<>>)
    [] v.t \in {"num", "bool"} -> IF Len(s) = 1 THEN Got([v EXCEPT !.v = s[1]], <<>>) ELSE Fail
    [] v.t = "char" -> IF Len(s) = 1 THEN Got([v EXCEPT !.c = s[1]], <<>>) ELSE Fail
    [] v.t = "unitv" -> IF s = v.n THEN Got(v, <<>>) ELSE Fail
    [] v.t \in {"newtype", "some"} ->
         LET r == DecodeParam(v.x, s) IN IF r.ok THEN Got([v EXCEPT !.x = r.v], <<>>) ELSE Fail
    [] OTHER -> LET r == JValue(v, s) IN IF r.ok /\ r.rest = <<>> THEN r ELSE Fail

\* decode a query string into the shape of v; pairs may come in any order, unknown ones are ignored
Decode(v, q) ==
  LET ps == Pairs(q)
      at(k) == {i \in 1..Len(ps) : ps[i][1] = k}
      val(f) == IF f[2].t = "skip" THEN Got(f[2], <<>>)
                ELSE IF at(f[1]) = {} THEN Fail
                ELSE DecodeParam(f[2], ps[CHOOSE i \in at(f[1]) : TRUE][2])
      rs == Map(val, v.fs)
  IN IF \E i \in 1..Len(rs) : ~rs[i].ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, v |-> [v EXCEPT !.fs = [i \in 1..Len(v.fs) |-> <<v.fs[i][1], rs[i].v>>]]]

(***************************** Properties **********************************)
RoundTrip(v) == LET d == Decode(v, Encode(v)) IN d.ok /\ d.v = v

\* nothing but separators, unreserved characters and percent-encodings; one pair per present field
WellFormed(v) ==
  LET e == Encode(v)
      n == Len(Present(v.fs))
      count(c) == Cardinality({i \in 1..Len(e) : e[i] = c})
  IN /\ \A i \in 1..Len(e) : e[i] \notin Reserved \/ e[i] \in {"&", "="}
     /\ count("=") = n
     /\ count("&") = (IF n = 0 THEN 0 ELSE n - 1)
     /\ LET ps == Pairs(e) IN
          Len(ps) = n /\ \A i \in 1..n : ps[i] = <<Present(v.fs)[i][1], ParamText(Present(v.fs)[i][2])>>
=============================================================================
