---------------------------- MODULE ElementStoreGen ----------------------------
(* Histories of an element store: explored exhaustively for small grids, sampled for replay into the library. *)
EXTENDS ElementStore, TLC, Json
CONSTANTS Grids, Depth, MaxFill
SmallGrids == { << 2, 1, 1 >>, << 1, 2, 2 >>, << 3, 1, 1 >>, << 1, 1, 1 >> }
SimGrids == { << 2, 2, 2 >>, << 3, 2, 2 >>, << 2, 3, 1 >>, << 1, 1, 1 >>, << 4, 1, 1 >>, << 1, 3, 3 >>, << 1, 4, 1 >>, << 1, 1, 5 >>, << 3, 3, 2 >> }
VARIABLES st, h, fill
vars == << st, h, fill >>
N == st.n[1] * st.n[2] * st.n[3]
Ids == 1..N
Odd == {0, N + 1}           \* ids that do not exist in the grid: lookups only
Do(op) == /\ Len(h) < Depth
          /\ st' = Apply(st, op)[1] /\ h' = Append(h, op) /\ fill' = fill
Init == \E n \in Grids : \E f \in 0..MaxFill : st = StoreInit(n) /\ h = << >> /\ fill = f
Make == \E id \in Ids, k \in 1..2 : Do([op |-> "make", id |-> id, k |-> k, b |-> 1])
Make2 == Make
MakeNone == \E id \in Ids, k \in 1..2 : ~st.lk /\ Do([op |-> "make", id |-> id, k |-> k, b |-> 0])
MakeDup == \E x \in st.e, k \in 1..2 : Do([op |-> "make", id |-> x[1], k |-> k, b |-> 1])
Lock == Cardinality(st.e) >= fill /\ ~st.lk /\ Do([op |-> "lock"])
Relock == st.lk /\ Do([op |-> "lock"])
Move == Do([op |-> "move"])
Reserve == ~st.lk /\ Do([op |-> "reserve"])
Get == \E id \in Ids \cup Odd, f \in 0..2 : Do([op |-> "get", id |-> id, f |-> f])
PGet == \E id \in Ids \cup Odd, f \in 1..2 : Do([op |-> "pget", id |-> id, f |-> f])
Next1 == \E id \in Ids, d \in 1..6, f \in 0..2 : Do([op |-> "next", id |-> id, d |-> d, f |-> f])
Next1b == Next1
PNext == \E id \in Ids, d \in 1..6, f \in 1..2 : Do([op |-> "pnext", id |-> id, d |-> d, f |-> f])
IsEnd == \E id \in Ids, d \in 1..6 : Do([op |-> "isend", id |-> id, d |-> d])
Count == Do([op |-> "count"])
List == \E f \in 0..2 : Do([op |-> "list", f |-> f])
Next == \/ Make \/ Make2 \/ MakeNone \/ MakeDup \/ Lock \/ Relock \/ Move \/ Reserve \/ Get \/ PGet \/ Next1 \/ Next1b \/ PNext \/ IsEnd \/ Count \/ List
Spec == Init /\ [][Next]_vars
View == << st, fill >>
Last == h[Len(h)]
Ans == Apply(st, Last')[2]     \* answer of the step that is taken
\* the laws of the store
TypeOK == \A x \in st.e : x[1] \in Ids /\ x[2] \in 1..2
Typed == \A x \in st.e : \A y \in st.e : x[1] = y[1] => x = y
FrozenOnceLocked == [][st.lk => st'.e = st.e /\ st'.lk]_vars
IsRefused == Last'.op # "list" /\ Ans = Refused
RefusalChangesNothing == [][IsRefused => st' = st]_vars
GrowsByTheAddedElement == [][st'.e # st.e => Last'.op = "make" /\ Ans[1] = 1 /\ st'.e = st.e \cup { << Last'.id, Last'.k >> } /\ ~st.lk]_vars
OnlyLockedAnswersLookups == [][(Last'.op \in {"get", "pget", "next", "pnext"}) => (IsRefused <=> ~st.lk)]_vars
\* stepping there and back again: the neighbour relation is symmetric inside lines
Symmetric == \A id \in Ids : \A d \in 1..6 : LET r == SNext(st.n, id, d) IN r[2] = 0 => SNext(st.n, r[1], IF d % 2 = 1 THEN d + 1 ELSE d - 1)[1] = id
EndsAgree == \A id \in Ids : \A d \in 1..6 : (SNext(st.n, id, d)[2] # 0) <=> SIsEnd(st.n, id, d)
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([n |-> st.n, ops |-> h]))
=============================================================================
