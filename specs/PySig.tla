-------------------------------- MODULE PySig --------------------------------
(* What kind of value each parameter of the Python interface takes. A call with a value of another kind raises an    *)
(* exception; a call whose values are all of the right kind does not. Kinds of parameters: n number, i index,        *)
(* s string, p three numbers, v three indices, m mesh, d dictionary, q point, h holder of settings, l settings.      *)
(* Kinds of values: int, neg (negative integer), float, text, none, p3 (three floats), v3 (three integers), two,     *)
(* four, mixed (numbers and text), dict, mesh, settings, holder, info, point, bpoint, section, obj, big (2^70).      *)
EXTENDS Integers, Sequences, FiniteSets

Values == {"int", "neg", "float", "text", "none", "p3", "v3", "two", "four", "mixed", "dict", "mesh", "settings", "holder", "info", "point", "bpoint", "section", "obj", "big"}
\* values which are taken, and values which may or may not be
Takes == [n |-> {"int", "neg", "float"}, i |-> {"int"}, s |-> {"text"}, p |-> {"p3", "v3"}, v |-> {"v3"}, m |-> {"mesh"}, q |-> {"point"},
          b |-> {"bpoint"}, g |-> {"settings"}]
May == [n |-> {"big"}, i |-> {"neg", "big", "float"}, s |-> {}, p |-> {}, v |-> {"p3"}, m |-> {}, q |-> {}, b |-> {}, g |-> {"holder", "info", "section"}]
\* "i" with a negative or too big number: refused or an exception of its own; judged where the call is made
Sig == [ IntegrationPoint |-> << "n", "n", "n", "n" >>, BoundaryIntegrationPoint |-> << "n", "n", "n", "n", "p" >>,
         AddVertex |-> << "p" >>, AddTriangle |-> << "v" >>, Volume |-> << "m" >>, Area |-> << "m" >>,
         AppendPoint |-> << "q" >>, AppendBoundaryPoint |-> << "b" >>, SetPoint |-> << "i", "q" >>,
         ReadMesh |-> << "m", "s" >>, Grid |-> << "g" >>, ReadSettings |-> << "s" >>, Create |-> << "s" >>,
         Reserve |-> << "i" >>, Ips |-> << "i" >>, WriteJson |-> << "g", "s" >> ]
Names == DOMAIN Sig
\* +1 the call succeeds, -1 it raises, 0 either
Expect(c, a) == IF Len(a) # Len(Sig[c]) THEN -1
                ELSE IF \E k \in 1..Len(a) : a[k] \notin Takes[Sig[c][k]] \cup May[Sig[c][k]] THEN -1
                ELSE IF \E k \in 1..Len(a) : a[k] \in May[Sig[c][k]] THEN 0 ELSE 1
CallOk(c, a, r) == CASE Expect(c, a) = 1 -> r = 1 [] Expect(c, a) = -1 -> r = -1 [] OTHER -> r \in {1, -1}
=============================================================================
