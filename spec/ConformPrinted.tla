---------------------------- MODULE ConformPrinted ----------------------------
(***************************************************************************)
(* Texts the code prints, read by the machine of Printed (C22).            *)
(*                                                                         *)
(* A case has an expression (ast), the bytes w by which it was derived,    *)
(* the text of the result with its table of symbols, the same cut off at   *)
(* several lengths, and the texts of other expressions of the set.  TLC    *)
(* steps through the text token by token; then it follows what was read    *)
(* and the residual of the expression side by side, over all words.        *)
(***************************************************************************)
EXTENDS Printed, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, mode, c, tab, x, y
vars == <<k, mode, c, tab, x, y>>
C == Cases[k]
T == C.text
Sigma == Range(C.reps)

\* a set over the representatives; -1 in it says that it tells a byte from others of its class,
\* or that there is no such byte
Classes(B) ==
  LET R == B \cap Range(C.reps)
      whole == B = {b \in 0..(C.n - 1) : C.reps[C.cls[b + 1]] \in R}
  IN <<"set", IF whole THEN R ELSE R \union {-1}>>
M(S) == IF C.sym
        THEN IF S = 0..255 THEN Classes(UNION {tab[s] : s \in DOMAIN tab})
             ELSE IF \A s \in S : s + 1 \in DOMAIN tab
             THEN Classes(UNION {tab[s + 1] : s \in S})
             ELSE <<"set", {-1}>>
        ELSE Classes(S)

Init == k \in 1..Len(Cases) /\ mode = "start" /\ c = Start /\ tab = <<>> /\ x = Eps /\ y = Eps
Load ==
  /\ mode = "start" /\ C.panic = ""
  /\ mode' = IF C.deep THEN "end" ELSE "read"
  /\ tab' = IF C.sym THEN Table(T, Break(T) + 1, <<>>) ELSE <<>>
  /\ UNCHANGED <<k, c, x, y>>
Reading ==
  /\ mode = "read" /\ ~Done(T, c)
  /\ c' = Read(T, c, C.sym, M)
  /\ UNCHANGED <<k, mode, tab, x, y>>
Compare ==
  /\ mode = "read" /\ Done(T, c) /\ Good(c)
  /\ mode' = IF C.la THEN "end" ELSE "walk"
  /\ x' = Result(c)
  /\ y' = IF C.la THEN Eps ELSE DerWord(FromJ(C.ast), C.w, Sigma)
  /\ c' = Start
  /\ UNCHANGED <<k, tab>>
Walk ==
  /\ mode = "walk" /\ x # y /\ ~C.exact
  /\ \E b \in Sigma : x' = Der(x, b, Sigma) /\ y' = Der(y, b, Sigma)
  /\ UNCHANGED <<k, mode, c, tab>>
Next == Load \/ Reading \/ Compare \/ Walk
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoPanic == C.panic = ""
\* the text can be read
ReadOK == mode = "read" => c.bad = {} /\ (Done(T, c) => Good(c))
SetsOK ==
  mode = "read" =>
     \A i \in DOMAIN c.st[Len(c.st)].items :
        LET t == c.st[Len(c.st)].items[i] IN t[1] = "set" => -1 \notin t[2]
\* what is read is what was built; repetitions with large bounds (exact) can be written in one way
\* only and are not followed step by step
MeansOK == mode = "walk" => IF C.exact THEN x = y ELSE Nullable(x, Sigma) = Nullable(y, Sigma)
\* each symbol has a line with exactly its bytes
TableOK ==
  mode = "read" /\ C.sym /\ c.i = 1 =>
     /\ Len(tab) = C.syms
     /\ \A b \in 0..255, s \in DOMAIN tab : b \in tab[s] <=> C.map[b + 1] = s - 1

Full == SubSeq(T, 1, Break(T) - 1)
Parens(t) == Cardinality({i \in 1..Len(t) : t[i] = 40})
CutAt(t) == IF \E i \in 1..Len(t) : Is(t, i, tCut)
            THEN CHOOSE i \in 1..Len(t) : Is(t, i, tCut) /\ \A j \in 1..(i - 1) : ~Is(t, j, tCut)
            ELSE 0
\* a text that fits is whole; else it begins like the whole, as far as the ellipsis, and is not
\* longer than asked for by more than one item and the closing of what was open
CutOK ==
  (mode = "read" /\ Done(T, c)) \/ (mode = "end" /\ C.deep) =>
     \A j \in 1..Len(C.cuts) :
        LET m == C.cuts[j][1]
            t == C.cuts[j][2]
            p == CutAt(t)
            f == CutAt(Full)
            room == 1200 + 60 * Parens(t)
        IN IF ~C.deep /\ Len(Full) <= m THEN t = Full
           ELSE /\ Len(t) <= m + room
                /\ IF C.deep /\ f > 0 THEN p > 0 /\ p <= f ELSE p > 0 \/ t = Full
                /\ p > 0 => SubSeq(t, 1, p - 1) = SubSeq(Full, 1, p - 1)
InfoOK == mode = "read" => C.info
\* different expressions, different texts
NamesOK == mode = "read" /\ c.i = 1 => Cardinality(Range(C.names)) = Len(C.names)
=============================================================================
