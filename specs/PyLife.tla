-------------------------------- MODULE PyLife --------------------------------
(* Lifetimes of what a model hands out to Python. An object is a Python wrapper; it keeps other objects alive and    *)
(* refers to memory that another object, its owner, frees when it goes. Slots are the program's variables.           *)
(* Kinds: H holder of settings, O its settings; M model, S its settings, I its information; D section, L list of     *)
(* dictionaries, li iterator, d entry; E elements, e element, P points, pi iterator, p point; C conditions,          *)
(* c condition, f its settings, G segments, gi iterator, g segment, m mesh, T iterator, t triangle, V iterator,      *)
(* v vertex, b boundary points, q one of them; K holder of a dictionary that may be appended to a list, k its entry. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* how a child is obtained: kept parent ("par"), what the parent keeps ("up"), nothing ("no"); and where it lives
Row(k, keep, home) == [k |-> k, keep |-> keep, home |-> home]
Kids == [ H |-> {Row("O", "par", "set")}, K |-> {Row("k", "par", "ent")},
          O |-> {Row("D", "par", "set"), Row("L", "par", "set")},
          M |-> {Row("S", "par", "set"), Row("I", "par", "mod"), Row("E", "par", "mod"), Row("C", "par", "mod")},
          S |-> {Row("D", "par", "set"), Row("L", "par", "set")},
          I |-> {Row("D", "par", "mod"), Row("L", "par", "mod")},
          L |-> {Row("d", "par", "same"), Row("li", "par", "same")}, li |-> {Row("d", "par", "same")},
          E |-> {Row("e", "up", "mod")}, e |-> {Row("P", "par", "mod")},
          P |-> {Row("p", "par", "mod"), Row("pi", "par", "mod")}, pi |-> {Row("p", "par", "mod")},
          C |-> {Row("c", "up", "mod")}, c |-> {Row("f", "par", "set"), Row("G", "par", "mod")},
          G |-> {Row("g", "par", "mod"), Row("gi", "par", "mod")}, gi |-> {Row("g", "par", "mod")},
          g |-> {Row("m", "par", "mod")}, m |-> {Row("T", "par", "mod"), Row("V", "par", "mod")},
          T |-> {Row("t", "no", "own")}, V |-> {Row("v", "no", "own")}, t |-> {Row("b", "no", "own")},
          b |-> {Row("q", "par", "par")} ]
HasKids(k) == k \in DOMAIN Kids
Iterators == {"li", "pi", "gi", "T", "V"}
Shows == {"O", "S", "I", "D", "L", "d", "E", "e", "P", "p", "C", "c", "f", "G", "g", "m", "t", "v", "b", "q", "k"}
Indexed == {"D", "d", "e", "p", "c", "g", "q"}

\* memory that is not an object: settings, model and entry of root r
Set(r) == 1000 + 3 * r
Mod(r) == 1001 + 3 * r
Ent(r) == 1002 + 3 * r

Empty(K) == [o |-> << >>, s |-> [i \in 1..K |-> 0], w |-> [x \in {} |-> 0], n |-> 0]
Obj(k, keeps, home, r, path) == [k |-> k, keeps |-> keeps, home |-> home, r |-> r, path |-> path, cnt |-> 0, rel |-> FALSE]
NewId(st) == Len(st.o) + 1
Put(st, d, ob) == [st EXCEPT !.o = Append(@, ob), !.s[d] = NewId(st)]
Own(st, x, who) == [st EXCEPT !.w = [y \in DOMAIN st.w \cup {x} |-> IF y = x THEN who ELSE st.w[y]]]
Step(st, op) ==
    LET src == IF op.s = 0 \/ st.s[op.s] = 0 THEN Obj("none", {}, 0, 0, "") ELSE st.o[st.s[op.s]]
        me == IF op.s = 0 THEN 0 ELSE st.s[op.s]
        r1 == st.n + 1
        root == "r" \o ToString(r1)
    IN CASE op.op = "model" ->
              << [Own(Own(Put(st, op.d, Obj("M", {}, 0, r1, root \o "M")), Set(r1), NewId(st)), Mod(r1), NewId(st)) EXCEPT !.n = r1], 0 >>
         [] op.op = "holder" -> << [Own(Put(st, op.d, Obj("H", {}, 0, r1, root \o "H")), Set(r1), NewId(st)) EXCEPT !.n = r1], 0 >>
         [] op.op = "entry" -> << [Own(Put(st, op.d, Obj("K", {}, 0, r1, root \o "K")), Ent(r1), NewId(st)) EXCEPT !.n = r1], 0 >>
         [] op.op = "drop" -> << [st EXCEPT !.s[op.d] = 0], 0 >>
         \* the model takes the settings; what was obtained from the holder stays valid
         [] op.op = "make" ->
              IF src.rel THEN << st, -1 >>
              ELSE << Own(Own([Put([st EXCEPT !.o[me].rel = TRUE], op.d, Obj("M", {}, 0, src.r, "r" \o ToString(src.r) \o "M"))
                               EXCEPT !.o[me].keeps = @ \cup {NewId(st)}],
                              Set(src.r), NewId(st)), Mod(src.r), NewId(st)), 0 >>
         \* the entry of a holder (slot d) goes to a list (slot s)
         [] op.op = "append" ->
              LET kk == st.s[op.d] IN
              IF st.o[kk].rel THEN << st, -1 >>
              ELSE << Own([st EXCEPT !.o[kk].rel = TRUE, !.o[kk].keeps = @ \cup {me}], Ent(st.o[kk].r), src.home), 0 >>
         [] op.op = "use" -> << st, 1 >>
         [] op.op = "get" ->
              LET row == CHOOSE x \in Kids[src.k] : x.k = op.k
                  home == CASE row.home = "set" -> Set(src.r) [] row.home = "mod" -> Mod(src.r) [] row.home = "ent" -> Ent(src.r)
                            [] row.home = "same" -> src.home [] row.home = "par" -> me [] OTHER -> 0
                  keeps == CASE row.keep = "par" -> {me} [] row.keep = "up" -> src.keeps [] OTHER -> {}
                  path == src.path \o "/" \o op.k \o (IF op.k \in Indexed THEN ToString(op.i) ELSE "")
              IN IF src.rel THEN << st, -1 >>
                 ELSE << Put([st EXCEPT !.o[me].cnt = @ + 1], op.d, Obj(op.k, keeps, home, src.r, path)), 0 >>

\* what is still there
RECURSIVE Closure(_, _)
Closure(o, x) == LET y == x \cup UNION { o[i].keeps : i \in x } IN IF y = x THEN x ELSE Closure(o, y)
There(st) == Closure(st.o, { st.s[i] : i \in DOMAIN st.s } \ {0})
RECURSIVE OwnerOf(_, _)
OwnerOf(st, x) == IF x < 1000 THEN x ELSE OwnerOf(st, st.w[x])
\* every object a slot refers to has its memory
Usable(st) == LET a == There(st) IN \A i \in DOMAIN st.s : LET id == st.s[i] IN
                 (id # 0 /\ st.o[id].home # 0) => OwnerOf(st, st.o[id].home) \in a
=============================================================================
