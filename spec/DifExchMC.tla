---------------------------- MODULE DifExchMC ----------------------------
(* Enumerates constraints and credentials; checks the model; prints each    *)
(* case with the model's verdict for replay.                                *)
EXTENDS DifExch, Json
CONSTANTS Deep, Part   \* Part: "fields" | "filters"
VARIABLE c

T(s) == [j |-> "text", s |-> s]
Num(v) == [j |-> "num", v |-> v]
B(v) == [j |-> "bool", v |-> v]
Null == [j |-> "null"]
Arr(xs) == [j |-> "arr", xs |-> xs]
Obj(fs) == [j |-> "obj", fs |-> fs]
N1(n) == [k |-> "name", n |-> n]
P(steps) == [p |-> "path", steps |-> steps]
PName(n) == P(<<N1(n)>>)
Bad(n) == [p |-> "bad", n |-> n]
NoFilter == [f |-> "none"]
Const(s) == [f |-> "const", s |-> s]
Pattern(r) == [f |-> "pattern", r |-> r]
Format(n) == [f |-> "format", n |-> n]
Fd(paths, filter, optional) == [paths |-> paths, filter |-> filter, optional |-> optional]

(********************* filters against one value ***************************)
Ab == {"a", "b", "1"}
Words == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>, <<"A">>, <<"1">>, <<"1", "2">>, <<"-", "1">>,
          <<"1", ".", "5">>, <<"t", "r", "u", "e">>, <<"f", "a", "l", "s", "e">>, <<"n", "u", "l", "l">>, <<" ", "a">>, <<"a", " ">>,
          <<"\"", "a", "\"">>, <<"[", "a", "]">>, <<"U+00E9">>, <<"0">>, <<"1", "0">>, <<"[", "]">>, <<"{", "}">>, <<"a", ".", "b">>, <<"a", "x", "b">>,
          <<"a", "#", "b">>, <<"#">>, <<"a", "U+000A">>, <<"U+000A", "a">>, <<"a", "U+000A", "b">>, <<"e", "U+0301">>, <<"a", "b", "a", "b">>}
\* numbers that do not fit 53, 63 bits or are only equal as numbers
LongWords == {<<"9007199254740992">>, <<"9007199254740993">>, <<"18446744073709551615">>, <<"18446744073709551614">>, <<"-9223372036854775808">>, <<"1">>,
              <<"1.0">>, <<"1.5">>, <<"1000">>, <<"1e3">>, <<"0.1">>, <<"-1">>, <<"-1.5">>}
Numbers == {Num(<<"1">>), Num(<<"1", "2">>), Num(<<"-", "1">>), Num(<<"1", ".", "5">>), Num(<<"0">>), Num(<<"1", "0">>)}
Bools == {B(<<"t", "r", "u", "e">>), B(<<"f", "a", "l", "s", "e">>)}
Leaves == {T(w) : w \in Words} \cup Numbers \cup Bools
Arrays == {Arr(<<>>)} \cup {Arr(<<x>>) : x \in Leaves \cup {Null}} \cup {Arr(<<T(<<"a">>), x>>) : x \in Leaves}
          \cup {Arr(<<x, T(<<"b">>), T(<<"a", "b">>)>>) : x \in {T(<<>>), Num(<<"1">>), Null, T(<<"1">>)}}
Objects == {Obj(<<>>), Obj(<< <<"a", T(<<"a">>)>> >>), Obj(<< <<"a", Num(<<"1">>)>> >>)}
Nested == {Arr(<<Arr(<<T(<<"a">>)>>)>>), Arr(<<Obj(<< <<"a", T(<<"a">>)>> >>)>>)}
Values == Leaves \cup Arrays \cup Objects \cup Nested \cup {Null}

L(x) == [r |-> "lit", c |-> x]
Cls(xs) == [r |-> "cls", cs |-> xs]
AnyC == [r |-> "any"]
Bol == [r |-> "bol"]
Eol == [r |-> "eol"]
Sq(a, b) == [r |-> "seq", a |-> a, b |-> b]
Alt(a, b) == [r |-> "alt", a |-> a, b |-> b]
Star(a) == [r |-> "star", a |-> a]
Plus(a) == [r |-> "plus", a |-> a]
Opt(a) == [r |-> "opt", a |-> a]
Empty == [r |-> "empty"]
Rep(a, lo, hi) == [r |-> "rep", a |-> a, lo |-> lo, hi |-> hi]
Grp(a, n) == [r |-> "grp", a |-> a, n |-> n]        \* a group that captures, named if n # ""
Fold(x, cs) == [r |-> "fold", w |-> x, cs |-> cs]   \* other spellings of a set of characters
Folds == {Fold("(?i:a)", {"a", "A"}), Fold("\\d", {"0", "1", "2", "5"}), Fold("[^a]", {"b", "A", "0", "1", "2", "5", ".", "-", "x", " ", "e", "t", "r", "u", "f", "l", "s", "n",
             "\"", "[", "]", "{", "}", "U+00E9", "U+000A", "U+0301", "#"}), Fold("\\s", {" ", "U+000A"}), Fold("#", {"#"}), Fold("\\pL", {"a", "b", "A", "x", "e", "t", "r", "u", "f", "l", "s", "n", "U+00E9"}),
             Fold("[a-c]", {"a", "b"}), Fold("\\.", {"."}), Fold("\\x61", {"a"}), Fold("(?s:.)", {"a", "b", "A", "0", "1", "2", "5", ".", "-", "x", " ", "e", "t", "r", "u", "f", "l", "s", "n",
             "\"", "[", "]", "{", "}", "U+00E9", "U+000A", "U+0301", "#"})}
Atoms == {L("a"), L("b"), L("1"), L("."), AnyC, Cls({"a", "b"}), Cls({"0", "1", "2"}), L("\""), L("U+00E9"), L(" ")}
Re1 == Atoms \cup {Star(x) : x \in Atoms} \cup {Plus(x) : x \in Atoms} \cup {Opt(x) : x \in Atoms}
Regexes ==
  Re1 \cup {Sq(x, y) : x \in Atoms, y \in Atoms} \cup {Alt(x, y) : x \in {L("a"), L("1")}, y \in Atoms}
  \cup {Sq(Bol, Sq(x, Eol)) : x \in Re1} \cup {Sq(Bol, x) : x \in Re1} \cup {Sq(x, Eol) : x \in Re1}
  \cup {Sq(Bol, Sq(Alt(L("a"), L("b")), Eol)), Sq(Bol, Eol), Empty, Sq(Bol, Sq(Plus(Cls({"a", "b"})), Eol))}
  \cup Folds \cup {Sq(Bol, Sq(Plus(x), Eol)) : x \in Folds} \cup {Sq(x, L("a")) : x \in Folds}
  \cup {Rep(x, lo, hi) : x \in {L("a"), Cls({"a", "b"}), AnyC}, lo \in 0..2, hi \in 2..3}
  \cup {Sq(Bol, Sq(Rep(x, lo, hi), Eol)) : x \in {L("a"), Cls({"a", "b"}), AnyC, Grp(Sq(L("a"), L("b")), "")}, lo \in 0..2, hi \in 2..3}
  \cup {Grp(x, n) : x \in {L("a"), Sq(L("a"), L("b"))}, n \in {"", "x"}}
  \cup (IF Deep THEN {Sq(x, Sq(y, z)) : x \in Atoms, y \in Re1, z \in {L("a"), L("b"), Eol}}
                     \cup {Sq(Bol, Sq(Plus(Alt(x, y)), Eol)) : x \in Atoms, y \in Atoms} ELSE {})

\* dates and timestamps, with what can be wrong with them
Date(y, m, d, junk) == [j |-> "when", w |-> [k |-> "date", y |-> y, m |-> m, d |-> d, junk |-> junk]]
Stamp(y, m, d, h, mi, sec, zone, sep, junk) ==
  [j |-> "when", w |-> [k |-> "stamp", y |-> y, m |-> m, d |-> d, h |-> h, mi |-> mi, sec |-> sec, zone |-> zone, sep |-> sep, junk |-> junk]]
Years == {1, 1900, 9999, 2000, 2023, 2024, 2100} \cup (IF Deep THEN {1999, 1600, 9999, 2028} ELSE {})
Dates == {Date(y, m, d, "") : y \in Years, m \in (IF Deep THEN 0..13 ELSE {0, 1, 2, 4, 12, 13}), d \in {0, 1, 28, 29, 30, 31, 32}}
         \cup {Date(2024, 2, 29, x) : x \in {"x", " ", "T"}}
Stamps == {Stamp(2023, 11, 20, h, mi, sec, z, "T", "") : h \in {0, 23, 24}, mi \in {0, 59, 60}, sec \in {0, 59}, z \in {"Z", "+00:00", "-05:30", ""}}
          \cup {Stamp(y, m, d, 12, 0, 0, "Z", "T", "") : y \in Years, m \in {2, 12, 13}, d \in {28, 29, 30, 31}}
          \cup {Stamp(2023, 11, 20, 1, 2, 3, z, s, x) : z \in {"Z", "+14:00", "PST"}, s \in {"T", "-"}, x \in {"", "x"}}
          \cup {Stamp(2023, 2, d, 1, 2, 3, z, "T", "") : d \in {28, 29}, z \in {".5Z", ".123456789+00:00", "+0000"}}
\* almost dates
Loose == {[j |-> "when", w |-> [k |-> "loose", text |-> x]] : x \in {"2024-1-1", "2024-01-1", "24-01-01", "+2024-01-01", " 2024-01-01", "20240101",
            "2024-001", "2024/01/01", "01-01-2024", "2024-01", "2024", "T", "2024-W01-1", "2024-01-01T", "2024-01-01T00:00Z", "2024- 1-01", "2024-01- 1", "+202-01-01", "+2024-1-01", "-2024-1-01", "02024-1-1", "2024-1 -01", "12024-01-01", "2024-01-01 ", "2024 01 01", "2024-01-01T00:00:00 +00:00", "2024 -01-01T00:00:00Z", "2024-01-01T00:00:00 UTC", "2024-01-01T00:00:00+00", "2024-01-01T0:00:00Z", "+2024-01-01T00:00:00Z", "2024-01-01T00:00:00,5Z", "2024-01-01T00:00:00.Z", "2024-01-01T00:00:00Z ", "2024-01-01T00:00:00+24:00", "2024-01-01T00:00:00+00:60", "2024-01-01T00Z", "2024-1-1T00:00:00Z", " 2024-01-01T00:00:00Z"}}
Whens == Dates \cup Stamps \cup Loose
\* long text that differs in one place, long arrays that hold it in one place
LongText(n, i, x) == [k \in 1..n |-> IF k = i THEN x ELSE "a"]
Sizes == IF Deep THEN {8, 9, 16, 17, 32, 33, 64, 65, 128, 129} ELSE {9, 17, 33, 65}
LongConst == UNION {{[fs |-> <<Fd(<<PName("v")>>, Const(LongText(n, 0, "a")), "absent")>>, val |-> v] :
                v \in {T(LongText(m, i, x)) : m \in {n - 1, n, n + 1}, i \in {1, n \div 2, n}, x \in {"a", "b", "A"}}
                     \cup {Arr([k \in 1..n |-> IF k = i THEN T(LongText(n, 0, "a")) ELSE T(<<"a">>)]) : i \in {0, 1, n \div 2, n - 1, n}}} : n \in Sizes}
LongPattern == UNION {{[fs |-> <<Fd(<<PName("v")>>, Pattern(r), "absent")>>, val |-> v] :
                r \in {L("b"), Sq(L("b"), Eol), Sq(Bol, L("b")), Sq(Bol, Sq(Plus(L("a")), Eol)), Sq(Bol, Sq(Rep(Cls({"a", "b"}), 1, 300), Eol)), Rep(L("a"), n, n), Sq(Bol, Sq(Rep(Fold("\\w", {"a", "b", "c"}), 0, 64), Eol))},
                v \in {T(LongText(n, i, "b")) : i \in {0, 1, n \div 2, n}}
                     \cup {Arr([k \in 1..n |-> IF k = i THEN T(<<"b">>) ELSE T(<<"c">>)]) : i \in {0, 1, n \div 2, n - 1, n}}} : n \in Sizes}
FilterCases(g) ==
  CASE g = "long" -> LongConst \cup LongPattern []  g = "const" -> {[fs |-> <<Fd(<<PName("v")>>, Const(s), "absent")>>, val |-> v] : s \in Words, v \in Values}
    [] g = "const2" -> {[fs |-> <<Fd(<<PName("v")>>, Const(s), "absent")>>, val |-> v] : s \in LongWords,
                          v \in {T(w) : w \in LongWords} \cup {Num(w) : w \in LongWords \ {<<"1e3">>, <<"1.0">>}} \cup {Arr(<<T(w)>>) : w \in LongWords}}
    [] g = "pattern" -> {[fs |-> <<Fd(<<PName("v")>>, Pattern(r), "absent")>>, val |-> v] :
                          r \in Regexes, v \in Leaves \cup {x \in Arrays : \A i \in 1..Len(x.xs) : Plain(x.xs[i])}}
    [] g = "format" -> {[fs |-> <<Fd(<<PName("v")>>, Format(n), "absent")>>, val |-> v] :
                          n \in {"date", "date-time"}, v \in Whens}
    [] g = "format2" -> {[fs |-> <<Fd(<<PName("v")>>, Format(n), "absent")>>, val |-> v] :
                          n \in {"date", "date-time", "time", "email", "", "Date"}, v \in Values \cup {Date(2024, 1, 1, ""), Stamp(2024, 1, 1, 1, 1, 1, "Z", "T", "")}}
    [] g = "bad" -> {[fs |-> <<Fd(<<PName("v")>>, [f |-> "badpattern", n |-> n], "absent")>>, val |-> v] :
                          n \in {"(", "[", "a{2,1}", "*", "(?P<x", "\\"}, v \in Values}
DocOf(v) == Obj(<< <<"v", v>> >>)

(********************* fields, paths and optionality ***********************)
Doc == Obj(<< <<"a", T(<<"x">>)>>,
              <<"b", Obj(<< <<"a", T(<<"y">>)>>, <<"c", Null>>, <<"d", B(<<"f", "a", "l", "s", "e">>)>> >>)>>,
              <<"e", Arr(<<T(<<"x">>), T(<<"z">>)>>)>>, <<"g", Arr(<<>>)>>, <<"n", Num(<<"0">>)>>, <<"t", T(<<>>)>> >>)
Docs == {Doc, Obj(<<>>), Obj(<< <<"a", T(<<"y">>)>> >>), Obj(<< <<"b", Obj(<< <<"a", T(<<"x">>)>> >>)>> >>)}
I(i) == [k |-> "index", i |-> i]
Wild == [k |-> "wild"]
DeepN(n) == [k |-> "deep", n |-> n]
Paths == {PName("a"), PName("b"), PName("x"), P(<<N1("b"), N1("a")>>), P(<<N1("b"), N1("c")>>), P(<<N1("b"), N1("d")>>), P(<<N1("e"), I(0)>>), P(<<N1("e"), I(1)>>),
          P(<<N1("e"), I(-1)>>), P(<<N1("e"), I(2)>>), P(<<N1("e"), I(-2)>>), P(<<N1("e"), I(-3)>>), P(<<N1("e"), Wild>>), PName("e"), PName("g"), P(<<N1("g"), Wild>>), PName("n"), PName("t"), P(<<>>),
          P(<<N1("a"), N1("a")>>), P(<<DeepN("c")>>), P(<<DeepN("x")>>), P(<<N1("a"), I(0)>>)}
FewPaths == {PName("a"), PName("x"), P(<<N1("b"), N1("a")>>), PName("g"), Bad("$."), P(<<N1("b"), N1("c")>>)}
FFilters == {NoFilter, Const(<<"x">>), Const(<<"y">>), Const(<<>>), Const(<<"0">>), Pattern(L("x")), Pattern(Empty), Format("date"), Format("nope"), [f |-> "badpattern", n |-> "("]}
Bads == {Bad(n) : n \in {"", "a", "$.", "$[", "$.a[", "$..", "$a", "@.a"}}
\* exemplars of every way a field can turn out on Doc
Exemplars == {Fd(<<PName("a")>>, NoFilter, "absent"), Fd(<<PName("a")>>, Const(<<"x">>), "false"), Fd(<<PName("a")>>, Const(<<"q">>), "absent"),
              Fd(<<PName("a")>>, Const(<<"q">>), "true"), Fd(<<PName("x")>>, NoFilter, "absent"), Fd(<<PName("x")>>, Const(<<"q">>), "true"),
              Fd(<<PName("x"), PName("a")>>, Const(<<"x">>), "absent"), Fd(<<PName("e")>>, Pattern(Sq(Bol, Sq(L("z"), Eol))), "absent"), Fd(<<>>, NoFilter, "absent"), Fd(<<>>, NoFilter, "true"),
              Fd(<<Bad("$.")>>, NoFilter, "absent"), Fd(<<PName("x")>>, NoFilter, "false")}
\* many fields of which one may fail, many paths of which one may select
Good == Fd(<<PName("a")>>, Const(<<"x">>), "absent")
WideFields == UNION {{[fs |-> [k \in 1..n |-> IF k = i THEN x ELSE IF k % 3 = 0 THEN Fd(<<PName("x")>>, Const(<<"q">>), "true") ELSE Good], val |-> Doc] :
                i \in {0, 1, n \div 2, n - 1, n}, x \in Exemplars} : n \in (IF Deep THEN {4, 5, 6, 8, 9, 12, 16, 17, 33} ELSE {5, 8, 12})}
WidePaths == UNION {{[fs |-> <<Fd([k \in 1..n |-> IF k = i THEN p ELSE IF k > i /\ i > 0 THEN q ELSE PName("x")], f, o)>>, val |-> Doc] :
                i \in {0, 1, n \div 2, n - 1, n}, p \in {PName("a"), P(<<N1("b"), N1("a")>>), P(<<N1("e"), I(1)>>)}, q \in {PName("x"), P(<<N1("b"), N1("a")>>)},
                f \in {NoFilter, Const(<<"x">>), Const(<<"y">>), Const(<<"z">>)}, o \in {"absent", "true"}} : n \in (IF Deep THEN {4, 5, 8, 9, 16, 17} ELSE {5, 9})}
FieldCases(g) ==
  CASE g = "wide" -> WideFields \cup WidePaths [] g = "one" -> {[fs |-> <<Fd(<<p>>, f, o)>>, val |-> d] : p \in Paths \cup Bads, f \in FFilters, o \in {"absent", "false", "true"}, d \in Docs}
    [] g = "two" -> {[fs |-> <<Fd(<<p, q>>, f, o)>>, val |-> d] : p \in FewPaths, q \in FewPaths, f \in {NoFilter, Const(<<"x">>), Const(<<"y">>)}, o \in {"absent", "true"}, d \in Docs}
    [] g = "three" -> {[fs |-> <<Fd(<<p, q, r>>, f, o)>>, val |-> d] : p \in FewPaths, q \in FewPaths, r \in FewPaths, f \in {NoFilter, Const(<<"x">>)}, o \in {"absent", "true"}, d \in (IF Deep THEN Docs ELSE {Doc})}
    [] g = "many" -> {[fs |-> <<x, y>>, val |-> Doc] : x \in Exemplars, y \in Exemplars} \cup {[fs |-> <<x, y, z>>, val |-> Doc] : x \in Exemplars, y \in Exemplars, z \in Exemplars}
                     \cup {[fs |-> <<x>>, val |-> Doc] : x \in Exemplars} \cup {[fs |-> <<>>, val |-> d] : d \in Docs}
    \* members of a constraint that say nothing about what satisfies it
    [] g = "extras" -> {[fs |-> <<x, Good>>, val |-> Doc, ex |-> [pred |-> p, retain |-> r, label |-> l, limit |-> m]] : x \in Exemplars,
                          p \in {"", "required", "preferred"}, r \in {"absent", "true", "false"}, l \in {"", "a"}, m \in {"", "required", "preferred"}}
                       \cup {[fs |-> <<>>, val |-> Doc, ex |-> [pred |-> "", retain |-> "absent", label |-> "", limit |-> m]] : m \in {"", "required", "preferred"}}
    [] g = "four" -> IF Deep THEN {[fs |-> <<w, x, y, z>>, val |-> d] : w \in Exemplars, x \in Exemplars, y \in Exemplars, z \in Exemplars, d \in {Doc, Obj(<<>>)}} ELSE {}

\* left open: a bad path that is not the last word, or is optional (the documentation allows an error there), and what a
\* pattern says about null and objects, which have no text
PathOpen(f) == \E k \in 1..Len(f.paths) : f.paths[k].p = "bad" /\ (k < Len(f.paths) \/ f.optional = "true")
Textual(v) == Plain(v) \/ (v.j = "arr" /\ \A i \in 1..Len(v.xs) : Plain(v.xs[i]))
ValueOpen(f, doc) == f.filter.f = "pattern" /\ LET d == Decided(f.paths, doc) IN d.r = "value" /\ ~Textual(d.v)
Open(fs, doc) == \E i \in 1..Len(fs) : PathOpen(fs[i]) \/ ValueOpen(fs[i], doc)

Groups == IF Part = "filters" THEN {"long", "const", "const2", "pattern", "format", "format2", "bad"} ELSE {"wide", "one", "two", "three", "many", "extras", "four"}
Init == c \in [kind : {"group"}, g : Groups]
Next == c.kind = "group" /\ \/ Part = "filters" /\ c' \in [kind : {"filter"}, d : FilterCases(c.g)]
                            \/ Part = "fields" /\ c' \in [kind : {"field"}, d : FieldCases(c.g)]
Spec == Init /\ [][Next]_c

TheDoc == IF c.kind = "filter" THEN DocOf(c.d.val) ELSE c.d.val
Verdict == Satisfied(c.d.fs, TheDoc)

(* facts the statement of the properties makes, checked on the model *)
NoFieldsSatisfied == c.kind = "field" /\ c.d.fs = <<>> => Verdict
EveryField == c.kind = "field" => (Verdict <=> \A i \in 1..Len(c.d.fs) : Satisfied(<<c.d.fs[i]>>, TheDoc))
OrderIrrelevant == c.kind = "field" /\ Len(c.d.fs) = 2 => (Verdict <=> Satisfied(<<c.d.fs[2], c.d.fs[1]>>, TheDoc))
OptionalNeverStricter ==
  c.kind = "field" /\ Len(c.d.fs) = 1 /\ c.d.fs[1].optional # "true" /\ Verdict => Satisfied(<<[c.d.fs[1] EXCEPT !.optional = "true"]>>, TheDoc)
MissingNeedsOptional ==
  c.kind = "field" /\ Len(c.d.fs) = 1 /\ ~Selects(c.d.fs[1].paths, TheDoc) => (Verdict <=> c.d.fs[1].optional = "true")
InvalidFiltersMatchNothing ==
  c.kind = "filter" /\ (c.d.fs[1].filter.f = "badpattern" \/ (c.d.fs[1].filter.f = "format" /\ c.d.fs[1].filter.n \notin {"date", "date-time"})) => ~Verdict
ConstOnNullOrObject == c.kind = "filter" /\ c.d.fs[1].filter.f = "const" /\ c.d.val.j \in {"null", "obj"} => ~Verdict

Emit == IF c.kind = "group" THEN TRUE
        ELSE PrintT(ToJson([kind |-> c.kind, fs |-> c.d.fs, ex |-> IF "ex" \in DOMAIN c.d THEN c.d.ex ELSE [pred |-> "", retain |-> "absent", label |-> "", limit |-> ""], doc |-> TheDoc, want |-> Verdict, open |-> Open(c.d.fs, TheDoc)]))
=============================================================================
