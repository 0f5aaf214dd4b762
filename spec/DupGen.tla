------------------------------- MODULE DupGen --------------------------------
(* Attributes of one tag: all short sequences of attribute names with          *)
(* prefixes, for prefixes that stand for the same, similar and different URLs  *)
(* written in different ways and declared in different places. The kind of a   *)
(* case is how its attributes are related pair by pair.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlDoc, XmlObs, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"

\* <<text, prefix, local name>>; prefixes by number, 0 none
Attrs == << <<S(" p:x=''"), 1, "x">>, <<S(" q:x='1'"), 2, "x">>, <<S(" r:x=\"\""), 3, "x">>, <<S(" x=''"), 0, "x">>, <<S(" p:y=''"), 1, "y">>, <<S(" q:y = '&lt;'"), 2, "y">>, <<S(" r:xx=''"), 3, "xx">> >>

\* URLs of p, q and r: <<texts, classes>>
Maps == << << <<"u", "u", "u">>, <<1, 1, 1>> >>,
           << <<"u", "v", "u">>, <<1, 2, 1>> >>,
           << <<"u", "v", "v">>, <<1, 2, 2>> >>,
           << <<"u", "u", "v">>, <<1, 1, 2>> >>,
           << <<"u", "v", "w">>, <<1, 2, 3>> >>,
           << <<"u", "uu", "U">>, <<1, 2, 3>> >>,
           << <<"u", "&#117;", "v">>, <<1, 1, 2>> >>,
           << <<"&#x75;v", "uv", "&#117;&#x76;">>, <<1, 1, 1>> >>,
           << <<"u&amp;", "u&#38;", "u&lt;">>, <<1, 1, 2>> >>,
           << <<"http://a/b", "http://a/c", "http://a/b/">>, <<1, 2, 3>> >> >>
Places == 1..9
Decl(x, url) == S(" xmlns:" \o x \o "='" \o url \o "'")

\* <<text before the attributes, text behind them>> of the tag
Head1(m, place) ==
  LET u  == m[1]
      D3 == Decl("p", u[1]) \o Decl("q", u[2]) \o Decl("r", u[3])
  IN CASE place = 1 -> <<S("<e") \o D3, <<>>, S("/>")>>
       [] place = 2 -> <<S("<e"), D3, S("></e>")>>
       [] place = 3 -> <<S("<e") \o D3 \o S("><f"), <<>>, S("/></e>")>>
       [] place = 4 -> <<S("<e") \o Decl("p", u[1]) \o S("><f") \o Decl("r", u[3]), Decl("q", u[2]), S("/></e>")>>
       [] place = 5 -> <<S("<e") \o Decl("p", u[2]) \o Decl("q", u[3]) \o Decl("r", u[3]) \o S("><f") \o Decl("r", u[3]) \o Decl("p", u[1]), Decl("q", u[2]), S("></f></e>")>>
       [] place = 6 -> <<S("<e") \o D3 \o S("><d p:x='' q:z='' xmlns:p='z'/><d y='' q:y=''>t</d><f"), <<>>, S("/></e>")>>
       \* behind elements that declared the same prefixes
       [] place = 7 -> <<S("<e><d xmlns:p='z' xmlns:q='z' xmlns:r='z'/><f") \o D3, <<>>, S("/></e>")>>
       [] place = 8 -> <<S("<e><d xmlns:p='x'><c xmlns:q='y' xmlns:r='z'/></d><f") \o Decl("p", u[1]), Decl("r", u[3]) \o Decl("q", u[2]), S("></f></e>")>>
       [] place = 9 -> <<S("<e xmlns:r='") \o S(u[3]) \o S("'><d xmlns:r='x' xmlns:q='x' xmlns:p='x'><c xmlns='y' xmlns:s='z'>t</c></d><f") \o Decl("q", u[2]) \o Decl("p", u[1]) \o S("><g"), <<>>, S("/></f></e>")>>

VARIABLES as, h, m, place, s, doc

Rel(a, b) ==
  LET cl(x) == IF x[2] = 0 THEN 0 ELSE m[2][x[2]] IN
  CASE a[1] = b[1] -> "same"
    [] a[2] # 0 /\ b[2] # 0 /\ a[3] = b[3] /\ cl(a) = cl(b) -> "collide"
    [] a[3] = b[3] -> "local"
    [] cl(a) = cl(b) /\ a[2] # 0 -> "url"
    [] OTHER -> "other"

Want(t) == IF t.grey THEN 2 ELSE IF Accepts(t) THEN 1 ELSE 0
Emit1(d, k, t) == \A w \in {Want(t)} : PrintT(ToJson([d |-> d, ns |-> t.ns, k |-> k, x |-> w]))

Finish(sq) ==
  LET key == [k \in 1..((Len(sq) * (Len(sq) - 1)) \div 2) |->
               LET p == CHOOSE p \in (1..Len(sq)) \X (1..Len(sq)) : p[1] < p[2] /\ (((p[2] - 1) * (p[2] - 2)) \div 2) + p[1] = k IN Rel(sq[p[1]], sq[p[2]])]
      rest == h[2] \o h[3]
  IN \A t \in {IF s'.mode = "dead" THEN s' ELSE Run(s', rest)} : Emit1(doc' \o rest, <<key, place, t.ns>>, t)

Init == \E k \in 1..Len(Maps) : \E q \in Places : \E b \in {TRUE, FALSE} :
          /\ m = Maps[k] /\ place = q /\ as = <<>> /\ h = Head1(Maps[k], q)
          /\ b \/ q \in {1, 3}
          /\ s = Run(Init0(0, b), h[1]) /\ doc = h[1]

MaxAttrs == IF Big \/ (s.ns /\ place < 7 /\ (place + m[2][2] + m[2][3]) % 5 = 0) THEN 4 ELSE 3
Next == \E j \in 1..Len(Attrs) :
          /\ Len(as) < MaxAttrs
          /\ as' = Append(as, Attrs[j]) /\ UNCHANGED <<h, m, place>>
          /\ s' = (IF s.mode = "dead" THEN s ELSE Run(s, Attrs[j][1])) /\ doc' = doc \o Attrs[j][1]
          /\ Finish(as')
=============================================================================
