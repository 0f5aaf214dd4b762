-------------------------------- MODULE NsGen --------------------------------
(* Scopes of namespace declarations: a state is a document whose elements      *)
(* only declare; transitions open an element, close one, or put in a probe: a  *)
(* tag that uses prefixes. Where the use of a prefix stands to declarations of *)
(* it (on the tag itself, around it, on a preceding sibling, within one ...)   *)
(* is the kind of the case.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, XmlDoc, XmlObs, TLC, Json, IOUtils

Big == IOEnv.BIG = "1"
\* WIDE: longer histories, but only one for every situation of declarations
Wide == IOEnv.WIDE = "1"
MaxOps == IF Wide THEN (IF Big THEN 8 ELSE 6) ELSE IF Big THEN 5 ELSE 4
MaxElems == IF Wide THEN (IF Big THEN 6 ELSE 5) ELSE MaxOps - 1

\* declarations of an element: sets of prefixes with the text
Decls == << <<{}, <<>>>>,
            <<{"p"}, S(" xmlns:p='u'")>>,
            <<{"q"}, S(" xmlns:q='u'")>>,
            <<{"p", "q"}, S(" xmlns:p='u' xmlns:q='v'")>>,
            <<{}, S(" xmlns='u'")>>,
            <<{"pp"}, S(" xmlns:pp='u'")>> >>


\* probes: the text of a tag (without > or />) and the prefixes it uses, with
\* those among them that it declares itself before (b) or behind (a) the use
Probes == << <<S("<e"), {}, {}>>,
             <<S("<p:e"), {"p"}, {}>>,
             <<S("<q:e"), {"q"}, {}>>,
             <<S("<pp:e"), {"pp"}, {}>>,
             <<S("<e p:x=''"), {"p"}, {}>>,
             <<S("<e y='' q:x=''"), {"q"}, {}>>,
             <<S("<e p:x='' q:x=''"), {"p", "q"}, {}>>,
             <<S("<q:e p:x='1' p:y='2'"), {"p", "q"}, {}>>,
             <<S("<e xmlns:r='w' p:x=''"), {"p"}, {}>>,
             <<S("<p:e xmlns:q='w'"), {"p"}, {}>>,
             <<S("<p:e xmlns:p='w'"), {"p"}, {"p"}>>,
             <<S("<e p:x='' xmlns:p='w'"), {"p"}, {"p"}>>,
             <<S("<e xmlns:p='w' p:x=''"), {"p"}, {"p"}>>,
             <<S("<e q:x='' xmlns:p='w'"), {"q"}, {}>> >>

VARIABLES stack, gone, ops, n, doc, s, decls, probes
\* stack: declarations of the open elements; gone: of their closed children and
\* of what was within these, by level

vars == <<stack, gone, ops, n, doc, s, decls, probes>>

Used(pr, x) ==
  IF x \in pr[3] THEN "own"
  ELSE LET L == {k \in 1..Len(stack) : x \in stack[k]} IN
       IF L # {} THEN (IF Len(stack) \in L THEN "parent" ELSE "above")
       ELSE "none"
\* where else the prefix was declared, out of scope
Leak(x) == {IF k = Len(stack) + 1 THEN "sibling" ELSE IF k > Len(stack) + 1 THEN "within-sibling" ELSE "sibling-above" : k \in {j \in 1..Len(gone) : x \in gone[j]}}

Toks == IOEnv.TOKS = "1"
Want(t) == IF t.grey THEN 2 ELSE IF Accepts(t) THEN 1 ELSE 0
Emit1(d, k, t) ==
  \A w \in {Want(t)} :
    PrintT(ToJson(IF w = 1 /\ Toks THEN [d |-> d, ns |-> t.ns, k |-> k, x |-> w, t |-> Observed(t)]
                  ELSE [d |-> d, ns |-> t.ns, k |-> k, x |-> w]))

Probe(j, form) ==
  LET pr   == probes[j]
      \* an empty tag or a start tag
      tail == IF form = 1 THEN S("/>") ELSE S(">")
      t    == Run(s, pr[1] \o tail)
      end  == IF t.mode = "dead" THEN Closing(Run(s, S("<e") \o tail)) ELSE Closing(t)
      key  == <<j, form, {<<x, Used(pr, x), Leak(x)>> : x \in pr[2]}, Len(stack)>>
  IN \A v \in {<<t, end>>} :
       \A u \in {IF v[1].mode = "dead" THEN v[1] ELSE Run(v[1], v[2])} : Emit1(doc \o pr[1] \o tail \o v[2], key, u)

OpenEl(j, form) ==
  LET d == decls[j]
      txt == S("<e") \o d[2] \o (IF form = 1 THEN S("/>") ELSE S(">"))
  IN /\ doc' = doc \o txt
     /\ s' = Run(s, txt)
     /\ n' = n + 1
     /\ IF form = 1
        THEN /\ stack' = stack
             /\ gone' = LET l == Len(stack) + 1 IN
                        [k \in 1..(IF Len(gone) < l THEN l ELSE Len(gone)) |-> (IF k <= Len(gone) THEN gone[k] ELSE {}) \cup (IF k = l THEN d[1] ELSE {})]
        ELSE stack' = Append(stack, d[1]) /\ gone' = gone

CloseEl ==
  /\ doc' = doc \o S("</e>") /\ s' = Run(s, S("</e>")) /\ n' = n
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ gone' = LET l == Len(stack) IN
             [k \in 1..(IF Len(gone) < l THEN l ELSE Len(gone)) |-> (IF k <= Len(gone) THEN gone[k] ELSE {}) \cup (IF k = l THEN stack[l] ELSE {})]

Init == /\ stack = <<>> /\ gone = <<>> /\ ops = 0 /\ n = 0 /\ doc = <<>> /\ s = Init0(0, TRUE)
        /\ decls = (IF Wide THEN SubSeq(Decls, 1, 3) ELSE Decls) /\ probes = (IF Wide THEN SubSeq(Probes, 2, 2) \o SubSeq(Probes, 6, 6) ELSE Probes)

View == IF Wide THEN <<stack, gone>> ELSE <<doc>>

Next == /\ (stack # <<>> \/ n = 0)
        /\ \A j \in 1..Len(probes) : \A form \in {1, 2} : (ops < MaxOps \/ ((n + j) % 2) + 1 = form) => Probe(j, form)
        /\ ops < MaxOps
        /\ ops' = ops + 1 /\ UNCHANGED <<decls, probes>>
        /\ \/ n < MaxElems /\ \E j \in 1..Len(decls) : OpenEl(j, 2)
           \/ n < MaxElems /\ n > 0 /\ \E j \in 2..Len(decls) : OpenEl(j, 1)
           \/ Len(stack) > 1 /\ CloseEl
=============================================================================
