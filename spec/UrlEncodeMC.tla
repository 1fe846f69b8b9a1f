--------------------------- MODULE UrlEncodeMC ---------------------------
(* Enumerates values and query strings, checks the model on each and prints *)
(* each with what the model says, for replay against the real encoder.      *)
EXTENDS UrlEncode, Json, Integers
CONSTANTS Deep,   \* FALSE: quick tier
          Part    \* "rt" | "dec"
VARIABLE c

T(s) == [t |-> "text", s |-> s]
Num(k, v) == [t |-> "num", k |-> k, v |-> v]
B(v) == [t |-> "bool", v |-> v]
Ch(x) == [t |-> "char", c |-> x]
UnitV == [t |-> "unitv", n |-> <<"U", "n">>]
Some(x) == [t |-> "some", x |-> x]
New(x) == [t |-> "newtype", x |-> x]
None == [t |-> "none"]
Skip == [t |-> "skip"]
List(xs) == [t |-> "list", xs |-> xs]
Tup(xs) == [t |-> "tuple", xs |-> xs]
TStruct(xs) == [t |-> "tstruct", xs |-> xs]
Struct(fs) == [t |-> "struct", fs |-> fs]
MapV(fs) == [t |-> "map", fs |-> fs]
NewV(x) == [t |-> "newv", n |-> <<"N", "e">>, x |-> x]
TupV(xs) == [t |-> "tupv", n |-> <<"T", "u">>, xs |-> xs]
StructV(fs) == [t |-> "structv", n |-> <<"S", "t">>, fs |-> fs]
KA == <<"a">>
KB == <<"b">>
KC == <<"c">>
S1(x) == Struct(<< <<KA, x>> >>)
S2(x, y) == Struct(<< <<KA, x>>, <<KB, y>> >>)
S3(x, y, z) == Struct(<< <<KA, x>>, <<KB, y>>, <<KC, z>> >>)

Full == Reserved \cup {"a", "Z", "0", "9", "-", "_", ".", "~"}
Special == {"&", "=", "%", "+", "\"", "\\", "{", "}", "[", "]", ",", ":", "a", "0", "2", " ", "U+000A", "U+00E9", "/"}
Tiny == {"\"", "\\", "{", "[", "&", "="}
Texts1 == {<<>>} \cup {<<x>> : x \in Full}
Texts2 == {<<x, y>> : x \in Special, y \in Special}
Texts3 == {<<x, y, z>> : x \in Tiny, y \in Tiny, z \in Tiny}
\* text that reads like percent-encodings
PctLike == {<<"%", "20">>, <<"%", "41">>, <<"a", "%", "2B", "b">>, <<"%", "26">>, <<"%", "C3", "%", "A9">>, <<"100", "%", "25">>, <<"%">>, <<"%", "2525">>}
Nasty == {<<>>, <<"&">>, <<"a", "=", "b", "&", "c">>, <<"%", "2", "5">>, <<"\"", ",", "\"">>, <<"{", "}">>, <<"[">>,
          <<"]", "\"">>, <<"n", "u", "l", "l">>, <<"{", "\"", "a", "\"", ":", "1", "}">>, <<"t", "r", "u", "e">>,
          <<"U+1F600", " ", "U+0000">>, <<"a", ",">>, <<"{">>, <<"0">>, <<"\\", "u", "0", "0", "0", "1">>,
          <<" ", "a", " ">>, <<"+", "1", "+">>, <<"#", "a">>, <<"a", "[", "]">>, <<"e", ";", "f">>,
          <<"a", "&">>, <<"a", "=">>, <<"a", "{">>, <<"a", "[">>, <<"\"">>, <<"a", "\\">>} \cup PctLike
\* text as it occurs in requests (pieces of unreserved characters are written as one)
InUse == {<<"https", ":", "/", "/", "a.b", "/", "c", "?", "d", "=", "e", "&", "f", "=", "g", "#", "h">>, <<"http", ":", "/", "/", "localhost", ":", "8080">>,
          <<"urn", ":", "ietf", ":", "params", ":", "oauth", ":", "x">>, <<"did", ":", "web", ":", "a", "%", "3A80", ":", "x", "#", "0">>,
          <<"did", ":", "key", ":", "z6Mk">>, <<"openid-credential-offer", ":", "/", "/", "?", "x", "=", "%", "7B">>,
          <<"eyJhbGciOiJFUzI1NiJ9.eyJzdWIi.c2ln">>, <<"ab", "+", "/", "c", "=", "=">>, <<"WyJ-_A~WyJ~">>, <<"me", "@", "a.b">>, <<"2024-01-01T00", ":", "00", "+", "01", ":", "00">>,
          <<"data", ":", "image", "/", "png", ";", "base64", ",", "AA", "=", "=">>, <<"openid", " ", "profile">>, <<"$", ".", "vc", "[", "*", "]", ".", "type">>,
          <<"^", "(", "a", "|", "b", ")", "$">>, <<"None">>, <<"undefined">>, <<"1e5">>, <<"-0">>, <<"00">>, <<"NaN">>, <<"U", "n">>, <<"N", "e">>}
SomeTexts == Texts1 \cup Texts2 \cup (IF Deep THEN Texts3 ELSE {})

Scalars ==
  {Num("u8", "0"), Num("u8", "255"), Num("u16", "65535"), Num("u32", "4294967295"),
   Num("u64", "18446744073709551615"), Num("i8", "-128"), Num("i16", "-32768"), Num("i32", "-2147483648"),
   Num("i64", "-9223372036854775808"), Num("i64", "9223372036854775807"), Num("f64", "1.5"), Num("f64", "-0.25"),
   Num("f32", "2.5"), Num("f64", "3"), Num("f32", "0.125"), Num("f64", "0.30000000000000004"), Num("f64", "0.000000001"),
   Num("f64", "1000000000000000000000"), Num("f64", "-123456789.125"), Num("f64", "1234567.0625"), Num("i32", "-1"), Num("u32", "1000000"),
   Num("f64", "16777217"), Num("f64", "9007199254740992"), Num("f64", "0.1"), Num("f64", "123456.789"), Num("f32", "16777216"),
   Num("u64", "9223372036854775808"), Num("u64", "4294967296"), Num("u64", "9007199254740993"), Num("i64", "-9007199254740993"),
   Num("u16", "256"), Num("i16", "-129"), Num("i32", "-32769"), Num("i64", "-2147483649"), Num("u8", "128"), Num("i8", "127"), B("true"), B("false"), UnitV}
  \cup {Ch(x) : x \in Full}
Compounds ==
  {List(<<>>), List(<<T(<<>>)>>), List(<<T(<<"a", ",">>), T(<<"\"">>)>>), List(<<List(<<>>), List(<<>>)>>),
   List(<<List(<<T(<<"[">>)>>), List(<<Num("u8", "1"), Num("u8", "2")>>)>>), List(<<None, Some(T(<<"a">>))>>),
   Struct(<<>>), S1(T(<<"{">>)), S2(T(<<"\"", "}">>), Num("u8", "7")), S1(S2(T(<<"&">>), List(<<>>))),
   S3(Skip, T(<<"a">>), Skip), S2(Skip, S1(T(<<>>))), S2(Struct(<<>>), T(<<"a">>)), MapV(<<>>),
   MapV(<< <<<<"{">>, T(<<"a">>)>>, <<<<>>, T(<<"b">>)>>, <<<<"\"">>, S1(B("true"))>> >>),
   Tup(<<T(<<"a">>), Num("i8", "-1"), B("false")>>), TStruct(<<T(<<"=">>), List(<<T(<<"&">>)>>)>>),
   NewV(T(<<"a">>)), NewV(S1(T(<<"b">>))), NewV(List(<<>>)), TupV(<<Num("u8", "1"), T(<<"]">>)>>),
   StructV(<< <<KA, Num("u8", "1")>>, <<KB, T(<<"}">>)>> >>), StructV(<< <<KA, NewV(UnitV)>> >>),
   List(<<Struct(<<>>), S1(T(<<"a">>))>>), List(<<NewV(Num("u8", "1")), UnitV, StructV(<<>>)>>),
   List(<<Tup(<<T(<<"{">>), T(<<"}">>)>>), Tup(<<T(<<"[">>), T(<<"]">>)>>)>>)}
\* elements that end or begin like the containers around them
EdgeItems == {List(<<>>), MapV(<<>>), Struct(<<>>), Tup(<<>>), None, T(<<>>), T(<<"[">>), T(<<"{">>), T(<<",">>), T(<<"a", "[">>), T(<<"{", "\"">>), S1(Skip),
              List(<<List(<<>>)>>), S1(List(<<>>)), Num("u8", "0"), B("true"), UnitV, NewV(List(<<>>)), TupV(<<List(<<>>)>>), StructV(<<>>), Some(MapV(<<>>))}
Both(x, y) == {List(<<x, y>>), Tup(<<x, y>>), TStruct(<<x, y>>), TupV(<<x, y>>), S2(x, y), MapV(<< <<KA, x>>, <<KB, y>> >>),
               StructV(<< <<KA, x>>, <<KB, y>> >>), Tup(<<x, y, x>>), List(<<x, List(<<y>>)>>), S2(S1(x), y)}
Wrap(x) == {x, Some(x), New(x), List(<<x>>), List(<<x, x>>), S1(x), S2(x, T(<<"a">>)), MapV(<< <<KA, x>>, <<KB, x>> >>),
            Tup(<<T(<<"a">>), x>>), NewV(x), TupV(<<x, x>>), StructV(<< <<KA, x>>, <<KB, x>> >>), List(<<Some(x), None>>),
            TStruct(<<x, x>>)}
Mixed == Compounds \cup {T(<<"&", "=">>), T(<<"{">>), Num("u8", "5"), Skip, UnitV, Some(T(<<>>))}

\* long text, wide and deep values
Lengths == IF Deep THEN {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300} ELSE {16, 17, 33, 64, 65, 129}
Patterns == {<<"a">>, <<"&", "=">>, <<"\"", "\\">>, <<"%", "2", "5">>, <<"U+1F600", "a">>, <<"{", "[", ",">>, <<"a", "b", "c", " ", "+">>}
Long == {[i \in 1..n |-> p[1 + (i % Len(p))]] : n \in Lengths, p \in Patterns}
        \cup {[i \in 1..n |-> IF i = n THEN "&" ELSE "a"] : n \in Lengths} \cup {[i \in 1..n |-> IF i = 1 THEN "{" ELSE "a"] : n \in Lengths}
\* longer still, in pieces of 64
Block == "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-_"
VeryLong == {[i \in 1..n |-> IF i \in at THEN x ELSE Block] : n \in (IF Deep THEN {9, 17, 18, 33, 34, 65, 66, 80} ELSE {9, 17, 33, 66}),
             at \in {{1}, {5}, {9}, {2, 3, 8}}, x \in {"&", "\"", "U+1F600", "%", "\\"}}
Widths == IF Deep THEN {3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 33} ELSE {3, 5, 9, 11, 17}
Letters == <<"a", "b", "c", "d", "e", "f", "g", "k", "l", "n">>
KeyNo(i) == <<Letters[1 + (i % 10)], Letters[1 + (i \div 10)]>>
WideItems == {T(<<"&", ",">>), Num("u8", "7"), List(<<T(<<"]">>)>>), S1(T(<<"}">>)), UnitV, Some(T(<<>>))}
Wide(x, n) == {List([i \in 1..n |-> x]), Tup([i \in 1..n |-> x]), TStruct([i \in 1..n |-> x]), TupV([i \in 1..n |-> x]),
               MapV([i \in 1..n |-> <<KeyNo(i), x>>]), StructV([i \in 1..n |-> <<KeyNo(i), x>>]),
               Struct([i \in 1..n |-> <<KeyNo(i), IF i % 4 = 3 THEN Skip ELSE x>>])}
Storey(k, x) ==
  CASE k = "l" -> List(<<x>>) [] k = "L" -> List(<<T(<<"a">>), x>>) [] k = "s" -> S1(x) [] k = "S" -> S2(x, T(<<"b">>))
    [] k = "m" -> MapV(<< <<KA, x>> >>) [] k = "v" -> NewV(x) [] k = "V" -> StructV(<< <<KA, x>>, <<KB, Num("u8", "1")>> >>)
    [] k = "t" -> TupV(<<x, T(<<"a">>)>>) [] k = "o" -> Some(x) [] k = "n" -> New(x)
RECURSIVE Tower(_, _, _)
Tower(ks, i, x) == IF i = 0 THEN x ELSE Tower(ks, i - 1, Storey(ks[i], x))
Repeat(p, n) == [i \in 1..n |-> p[1 + (i % Len(p))]]
Towers == {Repeat(p, n) : p \in {<<"l">>, <<"s">>, <<"m">>, <<"v">>, <<"L", "S">>, <<"V", "t">>, <<"o", "l", "n", "s">>, <<"S", "L", "V">>, <<"t">>},
                          n \in IF Deep THEN {3, 4, 5, 6, 7, 8, 10, 12, 16, 20} ELSE {4, 6, 9, 12}}
Edge == {"U+0080", "U+00A0", "U+07FF", "U+0800", "U+0301", "U+200B", "U+D7FF", "U+E000", "U+FFFD", "U+FFFF", "U+10000", "U+10FFFF"}
Alphabet == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
             "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
             "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Bytes(bs) == [t |-> "bytes", xs |-> [i \in 1..Len(bs) |-> Num("u8", bs[i])]]

\* cases come in families so that TLC's workers share them
Rt(f) ==
  CASE f = 1 -> {S1(T(s)) : s \in SomeTexts}
    [] f = 2 -> {S1(w) : w \in UNION {Wrap(T(s)) : s \in Texts1 \cup Nasty}}
    [] f = 3 -> {S1(List(<<T(s), T(<<"a">>)>>)) : s \in SomeTexts}
    [] f = 4 -> {S1(S2(T(s), T(<<"b">>))) : s \in SomeTexts}
    [] f = 5 -> {S2(T(s), T(t)) : s \in Nasty, t \in Nasty}
    [] f = 6 -> {S2(List(<<T(s), T(t)>>), T(s)) : s \in Nasty, t \in Nasty}
    [] f = 7 -> {S1(w) : w \in UNION {Wrap(x) : x \in Scalars \cup Compounds}}
    [] f = 8 -> {S2(w, T(<<"a">>)) : w \in UNION {Wrap(x) : x \in Compounds}}
    [] f = 9 -> {S2(x, y) : x \in Mixed, y \in Mixed}
    [] f = 10 -> {MapV(<< <<s, T(t)>> >>) : s \in Texts1, t \in Nasty}
    [] f = 11 -> {MapV(<< <<<<"a">> \o s, T(<<"b">>)>>, <<KB, x>> >>) : s \in Nasty, x \in Mixed \ {Skip}}
    [] f = 12 -> {MapV(<< <<KA, x>>, <<KB, y>> >>) : x \in Mixed \ {Skip}, y \in Mixed \ {Skip}}
    [] f = 13 -> {Struct(<<>>), MapV(<<>>)}
    [] f = 14 -> {S3(x, y, z) : x \in {m \in Mixed : m.t \in {"list", "text", "num"}}, y \in Mixed, z \in Mixed}
    [] f = 15 -> {S3(x, y, z) : x \in {m \in Mixed : m.t \notin {"list", "text", "num", "struct", "map"}}, y \in Mixed, z \in Mixed}
    [] f = 16 -> {S3(x, y, z) : x \in {m \in Mixed : m.t \in {"struct", "map"}}, y \in Mixed, z \in Mixed}
    [] f = 17 -> {S1(w) : w \in UNION {UNION {Wrap(w2) : w2 \in Wrap(x)} : x \in Compounds}}
    [] f = 18 -> {S1(w) : w \in UNION {UNION {Wrap(w2) : w2 \in Wrap(T(s))} : s \in Nasty}}
    [] f = 19 -> {S1(w) : w \in UNION {UNION {Wrap(w2) : w2 \in Wrap(x)} : x \in Scalars}}
    [] f = 20 -> {S1(List(<<T(s), T(t)>>)) : s \in Texts2, t \in Nasty}
    [] f = 21 -> {S1(T(s)) : s \in Long} \cup {S2(List(<<T(s)>>), T(s)) : s \in Long} \cup {S2(T(s), S1(T(s))) : s \in Long}
    [] f = 22 -> UNION {{S1(w) : w \in Wide(x, n)} : x \in WideItems, n \in Widths}
                 \cup {Struct([i \in 1..n |-> <<KeyNo(i), IF i % 4 = 3 THEN Skip ELSE x>>]) : x \in WideItems, n \in Widths}
                 \cup {MapV([i \in 1..n |-> <<KeyNo(i), x>>]) : x \in WideItems, n \in Widths}
    [] f = 23 -> {S2(Tower(ks, Len(ks), x), T(<<"&">>)) : ks \in Towers, x \in {T(<<"{", "\"">>), Num("u8", "5"), List(<<>>), UnitV}}
    [] f = 24 -> {S1(w) : w \in UNION {{T(<<x>>), T(<<"a", x, x>>), Ch(x), List(<<T(<<x>>), Ch(x)>>), S1(T(<<x, "\"">>)),
                                         MapV(<< <<<<x>>, T(<<"b">>)>> >>)} : x \in Edge \cup Alphabet}}
                 \cup {MapV(<< <<<<x, "a">>, T(<<x>>)>> >>) : x \in Edge \cup Alphabet}
    [] f = 25 -> {S2(w, T(<<"a">>)) : w \in UNION {Wrap(Bytes(b)) : b \in {<<>>, <<"0">>, <<"255", "0", "7">>, [i \in 1..20 |-> "9"]}}}
                 \cup {S1(Num("f64", "0.9042017708477751")), S1(List(<<Num("f64", "0.9042017708477751")>>))}
    [] f = 26 -> {S1(w) : w \in UNION {Both(x, y) : x \in EdgeItems, y \in EdgeItems}}
    [] f = 27 -> {MapV(<< <<KA, T(s)>>, <<KB, T(t)>> >>) : s \in Nasty, t \in Nasty} \cup {MapV(<< <<s, T(t)>>, <<KB \o s, T(s)>> >>) : s \in InUse, t \in InUse}
    [] f = 28 -> {S1(T(s)) : s \in VeryLong} \cup {S2(List(<<T(s)>>), T(s)) : s \in VeryLong} \cup {MapV(<< <<KA \o s, S1(T(s))>> >>) : s \in VeryLong}
    [] f = 29 -> {S2(T(s), T(t)) : s \in InUse, t \in InUse} \cup {S1(w) : w \in UNION {Wrap(T(s)) : s \in InUse}}
    [] f = 30 -> {S3(x, y, z) : x \in EdgeItems \ {None}, y \in EdgeItems \ {None}, z \in EdgeItems \ {None}}
RtFamilies == IF Deep THEN 1..30 ELSE 1..13 \cup 21..29

\* enumerations as a whole request: a single parameter named after the variant
Variants == {NewV(x) : x \in (Mixed \ {Skip}) \cup {T(s) : s \in Nasty}}
            \cup {TupV(xs) : xs \in {<<Num("u8", "1")>>, <<Num("u8", "1"), Num("i8", "-1"), B("true")>>, <<List(<<T(<<"]">>)>>), S1(T(<<"&">>))>>}}

(* query strings: values written down with variations the decoder must not care about *)
Lower == [x \in {"%26", "%3D", "%22", "%5B", "%5D", "%7B", "%7D", "%2C", "%3A", "%5C", "%C3%A9", "%2B"} |->
  CASE x = "%26" -> "%26" [] x = "%3D" -> "%3d" [] x = "%22" -> "%22" [] x = "%5B" -> "%5b" [] x = "%5D" -> "%5d"
    [] x = "%7B" -> "%7b" [] x = "%7D" -> "%7d" [] x = "%2C" -> "%2c" [] x = "%3A" -> "%3a" [] x = "%5C" -> "%5c"
    [] x = "%C3%A9" -> "%c3%a9" [] x = "%2B" -> "%2b"]
AllPct == ("a" :> "%61") @@ ("b" :> "%62") @@ ("c" :> "%63") @@ ("1" :> "%31") @@ ("7" :> "%37") @@ ("-" :> "%2D")
          @@ ("true" :> "%74rue") @@ ("null" :> "nul%6C") @@ ("255" :> "2%355") @@ ("." :> "%2E")
Mixed1 == ("%C3%A9" :> "%C3%a9") @@ ("%7B" :> "%7b") @@ ("%5D" :> "%5d") @@ ("a" :> "%61") @@ ("255" :> "%32%355")
\* not percent-encoded where a character separates nothing
Bare == [x \in {"%3D", "%22", "%5B", "%5D", "%7B", "%7D", "%2C", "%3A", "%5C", "%2F", "%3F", "%40", "%24", "%27", "%28", "%29", "%2A", "%21", "%3B", "%C3%A9"} |->
  CHOOSE y \in Reserved : PctTable[y] = x]
Respell(q, how) ==
  CASE how = "as-is" -> q
    [] how = "lower" -> Map(LAMBDA x : IF x \in DOMAIN Lower THEN Lower[x] ELSE x, q)
    [] how = "all" -> Map(LAMBDA x : IF x \in DOMAIN AllPct THEN AllPct[x] ELSE x, q)
    [] how = "mixed" -> Map(LAMBDA x : IF x \in DOMAIN Mixed1 THEN Mixed1[x] ELSE x, q)
    [] how = "bare" -> Map(LAMBDA x : IF x \in DOMAIN Bare THEN Bare[x] ELSE x, q)
Pieces(v) == Map(LAMBDA f : Encode([v EXCEPT !.fs = <<f>>]), Present(v.fs))
Arrange(ps, how) ==
  CASE how = "order" -> Join(ps, <<"&">>)
    [] how = "reverse" -> Join([i \in 1..Len(ps) |-> ps[Len(ps) + 1 - i]], <<"&">>)
    [] how = "unknown-first" -> Join(<< <<"x", "=", "1">> >> \o ps, <<"&">>)
    [] how = "unknown-last" -> Join(ps \o << <<"x", "=", "%7B">> >>, <<"&">>)
    [] how = "unknown-bare" -> Join(ps \o << <<"x">> >>, <<"&">>)
    [] how = "unknown-near" -> Join(<< <<"A", "=", "%7B">>, <<"a", "a", "a", "=", "1">> >> \o ps \o << <<"b", "b", "b", "=", "2">>, <<"a", "%5B", "%5D", "=", "3">> >>, <<"&">>)
    [] how = "empty-pairs" -> <<"&">> \o Join(ps, <<"&", "&">>) \o <<"&">>
DecValues == {S2(T(s), T(<<"-", ".">>)) : s \in Nasty \cup InUse} \cup {S2(T(<<"b">>), x) : x \in UNION {Both(y, y) : y \in EdgeItems}} \cup {S2(x, T(<<"c">>)) : x \in Compounds}
             \cup {S2(T(<<"b">>), x) : x \in Scalars} \cup {S3(Some(T(<<"7">>)), New(Num("u8", "255")), List(<<None>>))}
             \cup {S2(T(<<x>>), List(<<T(<<x, "a">>)>>)) : x \in Edge \cup Reserved}
             \cup {S2(Tower(Repeat(p, 9), 9, T(<<"{", "a">>)), Num("u8", "255")) : p \in {<<"l">>, <<"S", "L">>, <<"V", "t">>}}
             \cup {Struct([i \in 1..n |-> <<KeyNo(i), T(<<"a">> \o KeyNo(i))>>]) : n \in {5, 9, 17}}
             \cup (IF Deep THEN {S2(x, y) : x \in Mixed \ {Skip}, y \in Mixed \ {Skip}} ELSE {})
Arrangements == {"order", "reverse", "unknown-first", "unknown-last", "unknown-bare", "unknown-near", "empty-pairs"}
Good(h) == {[v |-> v, q |-> Arrange(Map(LAMBDA p : Respell(p, h), Pieces(v)), a)] : v \in DecValues, a \in Arrangements}

\* the first parameter replaced by something that is not of its type, or left out
Beyond == [k \in {"u16", "u32", "u64", "i8", "i16", "i32", "i64"} |->
  CASE k = "u16" -> {"65536", "-1", "1.5"} [] k = "u32" -> {"4294967296", "-1"} [] k = "u64" -> {"18446744073709551616", "-1", "1e3"}
    [] k = "i8" -> {"128", "-129"} [] k = "i16" -> {"32768", "-32769"} [] k = "i32" -> {"2147483648", "-2147483649", "1.0"}
    [] k = "i64" -> {"9223372036854775808", "-9223372036854775809"}]
\* a structured value cut short, run on, or begun by something else
Damaged(x) == LET e == Map(Pct, ParamText(x)) IN
  {SubSeq(e, 1, Len(e) - 1), SubSeq(e, 2, Len(e)), e \o <<"x">>, e \o e, <<"x">> \o e, e \o <<"%2C">>, e \o <<"%5D">>, e \o <<"%7D">>}
IsStructured(x) == x.t \in {"list", "tuple", "tstruct", "struct", "map", "newv", "tupv", "structv"}
WrongFor(x) ==
  CASE x.t = "num" /\ x.k \in {"u8"} -> {<<>>, <<"-", "1">>, <<"2", "5", "6">>, <<"a">>, <<"1", ".", "5">>, <<"%22", "1", "%22">>}
    [] x.t = "num" -> {<<>>, <<"a">>, <<"1", "x">>, <<"%20", "1">>, <<"1", "%20">>, <<"0", "x", "1">>, <<"1", "%2C", "0">>, <<"-">>, <<"%5B", "1", "%5D">>}
                      \cup (IF x.k \in DOMAIN Beyond THEN {<<b>> : b \in Beyond[x.k]} ELSE {})
    [] x.t = "bool" -> {<<>>, <<"1">>, <<"0">>, <<"T", "r", "u", "e">>, <<"TRUE">>, <<"yes">>, <<"true", "%20">>, <<"t">>}
    [] x.t = "char" -> {<<>>, <<"a", "b">>}
    [] x.t = "unitv" -> {<<>>, <<"x">>, <<"%7B", "%7D">>}
    [] x.t \in {"list", "tuple", "tstruct"} -> {<<>>, <<"a">>, <<"%5B">>, <<"%5B", "1", "%2C">>, <<"%7B", "%7D">>, <<"null">>}
    [] x.t \in {"struct", "map"} -> {<<>>, <<"a">>, <<"%7B">>, <<"%7B", "%22">>, <<"%7B", "a", "%3A", "1", "%7D">>, <<"null">>}
    [] OTHER -> {<<"%7B">>, <<"%7B", "%22", "x", "%22", "%3A", "1", "%7D">>, <<"5">>}
Bad == UNION {{[v |-> v, q |-> <<"a", "=">> \o w \o <<"&", "b", "=", "c">>] : w \in WrongFor(v.fs[1][2])}
              : v \in {S2(x, T(<<"c">>)) : x \in Scalars \cup Compounds}}
       \cup UNION {{[v |-> S2(x, T(<<"c">>)), q |-> <<"a", "=">> \o w \o <<"&", "b", "=", "c">>] : w \in Damaged(x)}
                    : x \in {y \in Compounds : IsStructured(y)}}
       \cup {[v |-> S2(x, T(<<"c">>)), q |-> <<"a", "=">> \o w \o <<"&", "b", "=", "c">>] :
               x \in {List(<<Num("u8", "1")>>), Tup(<<Num("u8", "1"), B("true")>>), List(<<B("true")>>), TStruct(<<Num("i8", "1"), T(<<"a">>)>>)},
               w \in {<<"%5B", "%22", "1", "%22", "%5D">>, <<"%5B", "256", "%5D">>, <<"%5B", "null", "%5D">>, <<"%5B", "%5B", "1", "%5D", "%5D">>,
                      <<"%5B", "1", "%2C", "%5D">>, <<"1">>}}
       \cup {[v |-> S2(S2(T(<<"a">>), Num("u8", "1")), T(<<"c">>)), q |-> <<"a", "=">> \o w \o <<"&", "b", "=", "c">>] :
               w \in {<<"%7B%22a%22%3A%22x%22%7D">>, <<"%7B%22b%22%3A1%7D">>, <<"%7B%22a%22%3A1%2C%22b%22%3A1%7D">>, <<"%7B%22a%22%3A%22x%22%2C%22b%22%3A%221%22%7D">>,
                      <<"%7B%22a%22%3A%22x%22%2C%22b%22%3A256%7D">>, <<"%7B%22a%22%3Anull%2C%22b%22%3A1%7D">>, <<"%7B%22A%22%3A%22x%22%2C%22b%22%3A1%7D">>}}
       \cup {[v |-> v, q |-> Pieces(v)[i]] :
               v \in {S2(x, T(<<"c">>)) : x \in Scalars \cup Compounds \cup {T(<<"a">>), New(T(<<"a">>))}}, i \in {1, 2}}
       \cup {[v |-> S2(T(<<>>), Num("u8", "1")), q |-> q] : q \in {<<>>, <<"&">>, <<"=">>, <<"=", "a">>, <<"a", "b">>}}

\* arbitrary strings: the decoder answers, whatever the answer
Junk == {"%", "%2", "%GG", "%E9", "%FF%FE", "&", "=", "[", "]", "{", "}", "\"", "a", "a=", "%5B", "%7B%22", "%00", "+", "U+00E9", "#"}
AnyCases == {[v |-> S2(x, T(<<"c">>)), q |-> q] :
          x \in {T(<<"a">>), Num("u8", "1"), List(<<T(<<"a">>)>>), S1(T(<<"a">>)), NewV(T(<<"a">>)), Ch("a")},
          q \in {<<"a", "=">> \o <<i, j>> : i \in Junk, j \in Junk} \cup {<<i, j, k>> : i \in Junk, j \in Junk, k \in {"", "=", "&"}}
                \cup {<<"a", "=", i, "&", "b", "=", j>> : i \in Junk, j \in Junk}
                \cup (IF Deep THEN {<<i, j, k, l>> : i \in Junk, j \in Junk, k \in {"=", "&", "%", "{"}, l \in {"a", "&", "%"}} ELSE {})}

Init == \/ Part = "rt" /\ c \in [kind : {"fam"}, f : RtFamilies \cup {0}]
        \/ Part = "dec" /\ c \in [kind : {"fam"}, f : {"as-is", "lower", "all", "mixed", "bare", "bad", "any"}]
Next == /\ c.kind = "fam"
        /\ \/ Part = "rt" /\ c.f = 0 /\ c' \in [kind : {"enc"}, v : Variants]
           \/ Part = "rt" /\ c.f # 0 /\ c' \in [kind : {"rt"}, v : Rt(c.f)]
           \/ Part = "dec" /\ c.f = "bad" /\ c' \in [kind : {"bad"}, d : Bad]
           \/ Part = "dec" /\ c.f = "any" /\ c' \in [kind : {"any"}, d : AnyCases]
           \/ Part = "dec" /\ c.f \notin {"bad", "any"} /\ c' \in [kind : {"good"}, d : Good(c.f)]
Spec == Init /\ [][Next]_c

RoundTripHolds == c.kind = "rt" => RoundTrip(c.v)
WellFormedHolds == c.kind = "rt" => WellFormed(c.v)
\* respelt and rearranged query strings mean the same; percent-encodings the table does not know are resolved first
Known(q) == Map(LAMBDA x :
   IF \E k \in DOMAIN Mixed1 : Mixed1[k] = x THEN CHOOSE k \in DOMAIN Mixed1 : Mixed1[k] = x
   ELSE IF x \in Reserved \ {"&", "="} THEN PctTable[x]
   ELSE IF \E k \in DOMAIN Lower : Lower[k] = x THEN CHOOSE k \in DOMAIN Lower : Lower[k] = x
   ELSE IF \E k \in DOMAIN AllPct : AllPct[k] = x THEN CHOOSE k \in DOMAIN AllPct : AllPct[k] = x ELSE x, q)
DecodeHolds ==
  /\ c.kind = "good" => LET r == Decode(c.d.v, Known(c.d.q)) IN r.ok /\ r.v = c.d.v
  /\ c.kind = "bad" /\ (\E k \in {1, 2} : \A i \in 1..Len(Pairs(c.d.q)) : Pairs(c.d.q)[i][1] # c.d.v.fs[k][1])
       => ~Decode(c.d.v, c.d.q).ok

Emit ==
  IF c.kind = "fam" THEN TRUE
  ELSE IF c.kind = "enc" THEN PrintT(ToJson([kind |-> "enc", v |-> c.v, enc |-> EncodeVariant(c.v)]))
  ELSE IF c.kind = "rt" THEN PrintT(ToJson([kind |-> "rt", v |-> c.v, enc |-> Encode(c.v)]))
  ELSE PrintT(ToJson([kind |-> c.kind, v |-> c.d.v, q |-> c.d.q]))
=============================================================================
