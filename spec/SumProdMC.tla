----------------------------- MODULE SumProdMC ------------------------------
(* Every program of element-wise sums and products up to the bound: a        *)
(* sequence of equations, each added through the constructor or afterwards,  *)
(* possibly ill-formed.  The invariants are about the declared dependency    *)
(* structure: which entry of which input a row of the output depends on.     *)
EXTENDS VectorMath, TLC, Json
CONSTANTS Kind, MaxEqs, Pairs, Emit      \* Pairs: "all": any first equation is followed by others

VecSeqs == { <<1>>, <<3>>, <<1, 1>>, <<2, 2>>, <<1, 4>>, <<3, 1>>, <<2, 2, 2>>, <<1, 3, 3>>, <<3, 1, 1>>, <<1, 1, 1>>, <<2, 1, 2, 1>> }
SomeVecs == { <<1, 3>>, <<2, 2>>, <<3, 1, 3>>, <<1>> }
Uniform(v) == \A i \in 1..Len(v) : v[i] = v[1]
Divs(k) == IF Kind = "mul" THEN {<<>>} \cup [1..k -> BOOLEAN] ELSE {<<>>}
\* unit pattern: none given, every input, only even inputs, only odd inputs
Eq(v, len, multi, sf, div, um, bnd, bad) ==
    [kind |-> Kind, nin |-> Len(v), vec |-> IF bad = "veclen" THEN Append(v, v[1]) ELSE v, multi |-> multi, len |-> len,
     nsf |-> IF bad = "sflen" THEN Len(v) + 1 ELSE IF sf THEN (IF Kind = "add" THEN Len(v) ELSE 0) ELSE 0,
     sf |-> sf, div |-> div, ndiv |-> IF bad = "divlen" THEN Len(v) + 1 ELSE Len(div),
     um |-> um, nun |-> IF bad = "unlen" THEN Len(v) + 1 ELSE IF um = "none" \/ Kind = "add" THEN 0 ELSE Len(v), bnd |-> bnd]
FullSpace == { Eq(v, len, multi, sf, div, um, bnd, bad) :
      v \in VecSeqs, len \in {1, 2}, multi \in BOOLEAN, sf \in BOOLEAN, div \in UNION {Divs(k) : k \in 1..4},
      um \in {"none", "all", "odd", "even"}, bnd \in BOOLEAN, bad \in {"no", "sflen", "veclen", "divlen", "unlen"} }
Bad(x) == ~LegalMath(x)
WF(x) == /\ Len(x.div) \in {0, x.nin}
         /\ (Len(x.vec) = x.nin => (~x.multi => Uniform(x.vec)))
         /\ (Len(x.vec) # x.nin => x.multi)
         /\ (Kind = "add" => x.ndiv = 0 /\ x.nun = 0 /\ x.um \in {"none", "all"})
         /\ (Kind = "mul" => x.nsf = 0)
         /\ (x.bnd => x.len = 1 /\ x.sf)                                  \* thins the space
         /\ (Bad(x) => x.len = 1 /\ ~x.bnd /\ (x.ndiv > x.nin => x.div # <<>>) /\ (x.nun > x.nin => x.um # "none"))
Space == {x \in FullSpace : WF(x)}
SmallSpace == {x \in Space : x.vec \in SomeVecs /\ x.multi /\ x.len = 1 /\ ~x.bnd /\ LegalMath(x)
                             /\ (x.div = <<>> \/ x.div[1]) /\ x.um \in {"none", "all"}}

VARIABLES prog, styles, done
vars == <<prog, styles, done>>
Init == prog = <<>> /\ styles = <<>> /\ done = FALSE
\* the constructor can define one equation, before any other
Add(x, st) == /\ ~done /\ prog' = Append(prog, x) /\ styles' = Append(styles, st) /\ UNCHANGED done
AddFirst == prog = <<>> /\ \E x \in Space : \E st \in {"init", "add"} : Add(x, st)
AddMore == prog # <<>> /\ Len(prog) < MaxEqs /\ LegalMath(prog[1]) /\ (Pairs = "all" \/ prog[1] \in SmallSpace) /\ \E x \in SmallSpace : Add(x, "add")
Go == /\ ~done /\ prog # <<>> /\ done' = TRUE /\ UNCHANGED <<prog, styles>>
      /\ Emit => PrintT("@@" \o ToJson([eqs |-> prog, styles |-> styles, legal |-> \A i \in 1..Len(prog) : LegalMath(prog[i])]))
Next == AddFirst \/ AddMore \/ Go
Spec == Init /\ [][Next]_vars

\* every row reads exactly one entry of every input, and it is an entry that exists;
\* every entry of every input is read by as many rows as the broadcast demands
Structure == \A k \in 1..Len(prog) : LegalMath(prog[k]) => LET x == prog[k] IN
    \A i \in 1..x.nin :
        /\ \A r \in Rows(x) : Reads(x, i, r) \in Cols(x, i)
        /\ \A c \in Cols(x, i) : Cardinality({r \in Rows(x) : Reads(x, i, r) = c}) = (IF x.vec[i] = 1 THEN VecOut(x) ELSE 1)
\* component b of a node only reads component b
Aligned == \A k \in 1..Len(prog) : LegalMath(prog[k]) => LET x == prog[k] IN
    \A i \in 1..x.nin : \A r \in Rows(x) : ((Reads(x, i, r) - 1) % x.len) = CompOf(x, r) - 1
=============================================================================
