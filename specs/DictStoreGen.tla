------------------------------ MODULE DictStoreGen ------------------------------
(* Histories of dictionaries: exhaustively over a small registry with every kind of key, sampled over QuESo's. *)
EXTENDS DictStore, Json
CONSTANTS Roots, Depth, MaxLen, Sample
MiniRegistry == [ R |-> Kind(<< >>, << << "a", "A" >>, << "b", "B" >> >>, << "l", "E" >>, "RK"),
                  A |-> Kind(<< K("x", "I", 1, 0), K("y", "D", 0, 0) >>, << >>, << >>, ""),
                  B |-> Kind(<< K("x", "P", 1, 1) >>, << << "a", "A" >> >>, << >>, "BK"),
                  E |-> Kind(<< K("x", "D", 1, 0) >>, << >>, << >>, "") ]
MiniRoots == { << "R", "R" >> }
QuesoRoots == { << "S", "Settings" >>, << "M", "ModelInfo" >> }
MiniTypes == {"I", "D", "P", "V", "n"}
MiniPool(t) == IF t = "n" THEN 1..1 ELSE 1..2
Types == IF Sample THEN ArgTypes ELSE MiniTypes
Pool(t) == IF Sample THEN 1..PoolSize[t] ELSE MiniPool(t)
Pick(S) == IF Sample THEN {RandomElement(S)} ELSE S
VARIABLES st, h
vars == << st, h >>
Do(op) == Len(h) < Depth /\ st' = (LET n == Step(st, op)[1] IN IF n = st THEN st ELSE Force(n)) /\ h' = Append(h, op)
AliveNodes == { p \in DOMAIN st.n : st.n[p].a = 1 }
DataNodes == { p \in AliveNodes : HasData(st.n[p].k) }
AllKinds == DOMAIN Registry
DataKinds == { x \in AllKinds : HasData(x) }
EnumKinds == { x \in AllKinds : Reg(x).enum # "" }
KeysOf(kd) == { Reg(kd).keys[i] : i \in 1..Len(Reg(kd).keys) }
AllKeys == UNION { KeysOf(kd) : kd \in AllKinds }
ObjKeys == UNION { { Reg(kd).subs[i][1] : i \in 1..Len(Reg(kd).subs) } : kd \in AllKinds } \cup UNION { IF Reg(kd).list = << >> THEN {} ELSE {Reg(kd).list[1]} : kd \in AllKinds }
Names == { x.k : x \in AllKeys } \cup ObjKeys \cup {"no_such_key", ""}
Accepted(kt) == { t \in Types : Stored(kt, t, 1) # 0 }
Init == st = Force(DictInit(Roots)) /\ h = << >>
\* string access to own keys with a value that is accepted, to own keys with any value, to any name
SetGood == \E p \in Pick(DataNodes) : \E key \in Pick(KeysOf(st.n[p].k)) : \E t \in Pick(Accepted(key.t)) : \E i \in Pick(Pool(t)) :
              Do([op |-> "set", a |-> "s", e |-> "", n |-> p, k |-> key.k, t |-> t, i |-> i])
SetAnyType == \E p \in Pick(DataNodes) : \E key \in Pick(KeysOf(st.n[p].k)) : \E t \in Pick(Types) : \E i \in Pick(Pool(t)) :
              Do([op |-> "set", a |-> "s", e |-> "", n |-> p, k |-> key.k, t |-> t, i |-> i])
SetAnyName == \E p \in Pick(AliveNodes) : \E k \in Pick(Names) : \E t \in Pick(Types) : \E i \in Pick(Pool(t)) :
              Do([op |-> "set", a |-> "s", e |-> "", n |-> p, k |-> k, t |-> t, i |-> i])
SetEnum == \E p \in Pick(DataNodes) : \E key \in Pick(KeysOf(st.n[p].k)) : \E i \in Pick(Pool(key.t)) :
              \E t \in Pick({key.t} \cup (IF key.t = "I" THEN {"u"} \cap Types ELSE {})) :
              Do([op |-> "set", a |-> "e", e |-> st.n[p].k, n |-> p, k |-> key.k, t |-> t, i |-> i])
SetEnumOther == \E p \in Pick(AliveNodes) : \E e \in Pick(DataKinds) : \E key \in Pick(KeysOf(e)) : \E i \in Pick(Pool(key.t)) :
              Do([op |-> "set", a |-> "e", e |-> e, n |-> p, k |-> key.k, t |-> key.t, i |-> i])
GetGood == \E p \in Pick(DataNodes) : \E key \in Pick(KeysOf(st.n[p].k)) :
              Do([op |-> "get", a |-> "s", e |-> "", n |-> p, k |-> key.k, t |-> key.t, i |-> 0])
GetAny == \E p \in Pick(AliveNodes) : \E k \in Pick(Names) : \E t \in Pick(StoredTypes \cap Types) :
              Do([op |-> "get", a |-> "s", e |-> "", n |-> p, k |-> k, t |-> t, i |-> 0])
GetEnum == \E p \in Pick(DataNodes) : \E key \in Pick(KeysOf(st.n[p].k)) :
              Do([op |-> "get", a |-> "e", e |-> st.n[p].k, n |-> p, k |-> key.k, t |-> key.t, i |-> 0])
GetEnumOther == \E p \in Pick(AliveNodes) : \E e \in Pick(DataKinds) : \E key \in Pick(KeysOf(e)) :
              Do([op |-> "get", a |-> "e", e |-> e, n |-> p, k |-> key.k, t |-> key.t, i |-> 0])
IsSetS == \E p \in Pick(AliveNodes) : \E k \in Pick(Names) : Do([op |-> "isset", a |-> "s", e |-> "", n |-> p, k |-> k])
IsSetE == \E p \in Pick(AliveNodes) : \E e \in Pick(({st.n[p].k} \cap DataKinds) \cup Pick(DataKinds)) : \E key \in Pick(KeysOf(e)) :
              Do([op |-> "isset", a |-> "e", e |-> e, n |-> p, k |-> key.k])
Has == \E p \in Pick(AliveNodes) : \E k \in Pick(Names) : Do([op |-> "has", a |-> "s", e |-> "", n |-> p, k |-> k])
Sub == \E p \in Pick(AliveNodes) : \E k \in Pick(ObjKeys \cup {"no_such_key"}) : Do([op |-> "sub", a |-> "s", e |-> "", n |-> p, k |-> k])
SubE == \E p \in Pick(AliveNodes) : \E e \in Pick(EnumKinds) : \E i \in Pick(1..Len(Reg(e).subs)) :
              Do([op |-> "sub", a |-> "e", e |-> Reg(e).enum, n |-> p, k |-> Reg(e).subs[i][1]])
LenS == \E p \in Pick(AliveNodes) : \E k \in Pick(ObjKeys) : Do([op |-> "len", a |-> "s", e |-> "", n |-> p, k |-> k])
LenE == \E p \in Pick(AliveNodes) : \E e \in Pick({ x \in EnumKinds : Reg(x).list # << >> }) :
              Do([op |-> "len", a |-> "e", e |-> Reg(e).enum, n |-> p, k |-> Reg(e).list[1]])
App(b) == \E p \in Pick(DOMAIN st.len) : st.len[p] < MaxLen /\ Do([op |-> "append", a |-> "s", e |-> "", n |-> p, k |-> "", b |-> b])
AppendEntry == App(1)
AppendNothing == (Sample => RandomElement(1..6) = 1) /\ App(0)
Chk == \E p \in Pick(AliveNodes) : Do([op |-> "check", a |-> "s", e |-> "", n |-> p, k |-> ""])
ChkRoot == \E p \in Pick(DOMAIN st.len) : Do([op |-> "check", a |-> "s", e |-> "", n |-> p, k |-> ""])
Replace == (Sample => RandomElement(1..3) = 1) /\ \E p \in Pick({ q \in AliveNodes : Reg(st.n[q].k).subs # << >> }) : \E e \in Pick({st.n[p].k}) : \E i \in Pick(1..Len(Reg(e).subs)) : \E a \in Pick({"s", "e"}) :
              \E b \in Pick({0, 1, 2}) : Do([op |-> "replace", a |-> a, e |-> Reg(e).enum, n |-> p, k |-> Reg(e).subs[i][1], b |-> IF b = 0 THEN 0 ELSE 1])
ReplaceOther == (Sample => RandomElement(1..3) = 1) /\ \E p \in Pick({ q \in AliveNodes : Reg(st.n[q].k).subs # << >> }) : \E e \in Pick(EnumKinds \ {st.n[p].k}) : \E i \in Pick(1..Len(Reg(e).subs)) : \E a \in Pick({"s", "e"}) :
              SubKinds(st.n[p].k, Reg(e).subs[i][1]) = {} /\ Do([op |-> "replace", a |-> a, e |-> Reg(e).enum, n |-> p, k |-> Reg(e).subs[i][1], b |-> 1])
Move == \E p \in Pick(DOMAIN st.len) : Do([op |-> "move", a |-> "s", e |-> "", n |-> p, k |-> ""])
\* towards states in which the required values are given
Completing == LET M == { pi \in DataNodes \X (1..7) : pi[2] <= Len(st.n[pi[1]].v) /\ st.n[pi[1]].v[pi[2]] = 0 /\ Reg(st.n[pi[1]].k).keys[pi[2]].r = 1 }
              IN M # {} /\ \E x \in Pick(M) : LET key == Reg(st.n[x[1]].k).keys[x[2]] IN \E i \in Pick(Pool(key.t)) :
                   Do([op |-> "set", a |-> "s", e |-> "", n |-> x[1], k |-> key.k, t |-> key.t, i |-> i])
Completing2 == Completing
Completing3 == Completing
SetGood2 == SetGood
GetGood2 == GetGood
GetEnum2 == GetEnum
\* --- D02: through the JSON form
JRoots == QuesoRoots
JSet == \E p \in Pick(DataNodes) : \E key \in Pick(KeysOf(st.n[p].k)) : \E t \in Pick(Accepted(key.t)) : \E i \in Pick(Pool(t) \ (IF t = "T" THEN {Marker} ELSE {})) :
              Do([op |-> "set", a |-> "s", e |-> "", n |-> p, k |-> key.k, t |-> t, i |-> i])
JSet2 == JSet
JSet3 == JSet
JSetBad == \E p \in Pick(AliveNodes) : \E k \in Pick(Names) : \E t \in Pick(ArgTypes) : \E i \in Pick(Pool(t) \ (IF t = "T" THEN {Marker} ELSE {})) :
              Do([op |-> "set", a |-> "s", e |-> "", n |-> p, k |-> k, t |-> t, i |-> i])
JWrite == \E p \in Pick({"S", "S", "M"}) : Do([op |-> "json", a |-> "s", e |-> "", n |-> p, k |-> ""])
JNodes == { p \in AliveNodes : st.n[p].k \in {"Settings", "GeneralSettings", "BackgroundGridSettings", "TrimmedQuadratureRuleSettings", "NonTrimmedQuadratureRuleSettings", "ConditionSettings"} }
JKeys(p) == LET kd == st.n[p].k IN { x.k : x \in KeysOf(kd) } \cup { Reg(kd).subs[i][1] : i \in 1..Len(Reg(kd).subs) } \cup (IF Reg(kd).list = << >> THEN {} ELSE {Reg(kd).list[1]})
JPoke == \E p \in Pick(JNodes) : \E k \in Pick(JKeys(p)) : \E t \in Pick(Literals) : \E i \in Pick(1..LitSize(t)) :
            /\ (t = "T" /\ i = Marker) => KeyPos(st.n[p].k, k) # 0
            /\ (KeyPos(st.n[p].k, k) # 0 /\ t \in {"M", "G"}) => Reg(st.n[p].k).keys[KeyPos(st.n[p].k, k)].t # "T"
            /\ Do([op |-> "poke", a |-> "s", e |-> "", n |-> p, k |-> k, t |-> t, i |-> i])
JPokeUnknown == \E p \in Pick(JNodes) : \E k \in Pick((Names \ JKeys(p)) \ {""}) : \E t \in Pick(Literals \ {"X"}) : \E i \in Pick(1..LitSize(t)) :
            /\ Do([op |-> "poke", a |-> "s", e |-> "", n |-> p, k |-> k, t |-> t, i |-> i])
JPoke2 == JPoke
JPokeGood == \E p \in Pick(JNodes) : \E k \in Pick(JKeys(p)) : \E t \in Pick(Literals) : \E i \in Pick(1..LitSize(t)) :
            /\ KeyPos(st.n[p].k, k) # 0 /\ ReadLiteral(Reg(st.n[p].k).keys[KeyPos(st.n[p].k, k)], t, i)[1] = 1
            /\ Do([op |-> "poke", a |-> "s", e |-> "", n |-> p, k |-> k, t |-> t, i |-> i])
JNext == \/ JSet \/ JSet2 \/ JSet3 \/ JSetBad \/ GetGood \/ IsSetS \/ Sub \/ LenS \/ AppendEntry \/ JWrite \/ JPoke \/ JPoke2 \/ JPokeGood \/ JPokeUnknown
JSpec == Init /\ [][JNext]_vars
\* over the small registry the laws of reading: writing and reading changes no value, twice is once, and an entry that is refused changes nothing
RoundTrip == \A r \in DOMAIN st.len : Shown(Reload(st)) = Shown(st) /\ Reload(Reload(st)) = Reload(st)
Next == \/ SetGood \/ SetGood2 \/ SetAnyType \/ SetAnyName \/ SetEnum \/ SetEnumOther \/ GetGood \/ GetGood2 \/ GetAny \/ GetEnum \/ GetEnum2
        \/ GetEnumOther \/ IsSetS \/ IsSetE \/ Has \/ Sub \/ SubE \/ LenS \/ LenE \/ AppendEntry \/ AppendNothing \/ Chk \/ ChkRoot
        \/ Replace \/ ReplaceOther \/ Move \/ Completing \/ Completing2 \/ Completing3
Spec == Init /\ [][Next]_vars
View == st
Last == h[Len(h)]
\* laws
Typed == \A p \in DOMAIN st.n : /\ Len(st.n[p].v) = Len(Reg(st.n[p].k).keys) /\ st.n[p].c \in 0..2 /\ st.n[p].a \in 0..1
                                /\ \A i \in 1..Len(st.n[p].v) : st.n[p].v[i] \in 0..PoolSize[Reg(st.n[p].k).keys[i].t]
CheckedMeansComplete == \A p \in DOMAIN st.n : (st.n[p].a = 1 /\ st.n[p].c # 0) => Complete(st.n[p])
Ans == Step(st, Last')[2]
RefusalChangesNoValue == [][Ans = {Refused} => Shown(st') = Shown(st) /\ st'.len = st.len]_vars
QueriesChangeNothing == [][Last'.op \in {"get", "isset", "has", "sub", "len"} => st' = st]_vars
\* a set changes one key of one dictionary, and the value is what every access then gives
Frame == [][Last'.op = "set" => \A p \in DOMAIN st.n : \A i \in 1..Len(st.n[p].v) :
              st'.n[p].v[i] # st.n[p].v[i] => p = Last'.n /\ Reg(st.n[p].k).keys[i].k = Last'.k]_vars
ReadBack == [][(Last'.op = "set" /\ Ans = {Done}) => LET o == Last' IN
               LET kt == Reg(st'.n[o.n].k).keys[KeyPos(st'.n[o.n].k, o.k)].t
                   x == Stored(kt, o.t, o.i)
               IN x # 0 /\ Step(st', [o EXCEPT !.op = "get", !.a = "s", !.t = kt])[2] = {<< 1, x >>}
                  /\ Step(st', [op |-> "isset", a |-> "s", e |-> "", n |-> o.n, k |-> o.k])[2] = {<< 1, 1 >>}]_vars
Types1 == \A p \in DataNodes : \A key \in KeysOf(st.n[p].k) : \A t \in StoredTypes \cap Types : t # key.t =>
              Step(st, [op |-> "get", a |-> "s", e |-> "", n |-> p, k |-> key.k, t |-> t, i |-> 0])[2] = {Refused}
\* a check succeeds exactly if all that is required below is set; entries once checked can be read
CheckLaw == [][(Last'.op = "check") => (Ans = {Done} <=> \A q \in CheckSet(st, Last'.n) : st.n[q].a = 1 /\ Complete(st.n[q]))]_vars
ListsGrow == [][\A r \in DOMAIN st.len : st'.len[r] \in {st.len[r], st.len[r] + 1}
                 /\ (st'.len # st.len => Last'.op = "append" /\ \A p \in DOMAIN st.n : st'.n[p] = st.n[p])]_vars
Emit == Len(h) = Depth => PrintT("BEH " \o ToJson([ops |-> h]))
=============================================================================
