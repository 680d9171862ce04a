------------------------------- MODULE DictStore -------------------------------
(* D01, D02: dictionaries are typed key-value stores. The registry (dictionary kinds, keys, types, required or not,
   defaults, sub-dictionaries, lists) is data; values are indices into one pool per type. Pools are prefix compatible:
   index i of the pool of integers and index i of the pool of doubles are the same number, likewise for integer and
   real vectors, so that a permitted conversion keeps the index. 0 is "not set".
   Step(st, op) = << new state, set of permitted answers >>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Refused == << -1 >>
Done == << 0 >>
\* types: "D" double, "I" index, "B" bool, "T" text, "P" point, "V" integer vector, "M" method, "G" grid type
\* further argument types of string setters: "i" int, "u" unsigned, "n" a negative int (also beyond 32 bits)
StoredTypes == {"D", "I", "B", "T", "P", "V", "M", "G"}
ArgTypes == StoredTypes \cup {"i", "u", "n"}
PoolSize == [D |-> 15, I |-> 6, B |-> 2, T |-> 6, P |-> 5, V |-> 3, M |-> 6, G |-> 2, i |-> 6, u |-> 6, n |-> 3]
NegAsDouble == << 7, 14, 15 >>    \* the pool of doubles holds the values of "n" here
\* a registry kind: keys (sequence of [k, t, r, d]), subs (sequence of << key, kind >>), list (<< key, element kind >> or << >>), data
K(k, t, r, d) == [k |-> k, t |-> t, r |-> r, d |-> d]
Kind(keys, subs, list, enum) == [keys |-> keys, subs |-> subs, list |-> list, enum |-> enum, listkey |-> IF list = << >> THEN "-" ELSE list[1]]
QuesoRegistry ==
  [ Settings |-> Kind(<< >>, << << "general_settings", "GeneralSettings" >>, << "background_grid_settings", "BackgroundGridSettings" >>,
                       << "trimmed_quadrature_rule_settings", "TrimmedQuadratureRuleSettings" >>,
                       << "non_trimmed_quadrature_rule_settings", "NonTrimmedQuadratureRuleSettings" >> >>,
                     << "conditions_settings_list", "ConditionSettings" >>, "MainSettings"),
    GeneralSettings |-> Kind(<< K("input_filename", "T", 1, 0), K("output_directory_name", "T", 1, 1), K("echo_level", "I", 1, 2),
                             K("write_output_to_file", "B", 1, 2) >>, << >>, << >>, ""),
    BackgroundGridSettings |-> Kind(<< K("grid_type", "G", 1, 0), K("lower_bound_xyz", "P", 1, 0), K("upper_bound_xyz", "P", 1, 0),
                             K("lower_bound_uvw", "P", 1, 0), K("upper_bound_uvw", "P", 1, 0), K("polynomial_order", "V", 1, 0),
                             K("number_of_elements", "V", 1, 0) >>, << >>, << >>, ""),
    TrimmedQuadratureRuleSettings |-> Kind(<< K("moment_fitting_residual", "D", 1, 11), K("min_element_volume_ratio", "D", 1, 12),
                             K("min_num_boundary_triangles", "I", 1, 4), K("neglect_elements_if_stl_is_flawed", "B", 1, 2),
                             K("activate_fictitious_domain_with_alpha", "D", 0, 0) >>, << >>, << >>, ""),
    NonTrimmedQuadratureRuleSettings |-> Kind(<< K("integration_method", "M", 1, 1) >>, << >>, << >>, ""),
    ConditionSettings |-> Kind(<< K("condition_id", "I", 1, 0), K("condition_type", "T", 0, 0), K("input_filename", "T", 1, 0),
                             K("modulus", "D", 0, 0), K("direction", "P", 0, 0), K("value", "P", 0, 0), K("penalty_factor", "D", 0, 0) >>,
                             << >>, << >>, ""),
    ModelInfo |-> Kind(<< >>, << << "embedded_geometry_info", "EmbeddedGeometryInfo" >>, << "quadrature_info", "QuadratureInfo" >>,
                       << "background_grid_info", "BackgroundGridInfo" >>, << "elapsed_time_info", "ElapsedTimeInfo" >> >>,
                     << "conditions_infos_list", "ConditionInfo" >>, "MainInfo"),
    EmbeddedGeometryInfo |-> Kind(<< K("is_closed", "B", 1, 0), K("volume", "D", 1, 0) >>, << >>, << >>, ""),
    QuadratureInfo |-> Kind(<< K("represented_volume", "D", 1, 0), K("percentage_of_geometry_volume", "D", 1, 0), K("tot_num_points", "I", 1, 0),
                             K("num_of_points_per_full_element", "D", 1, 0), K("num_of_points_per_trimmed_element", "D", 1, 0) >>, << >>, << >>, ""),
    BackgroundGridInfo |-> Kind(<< K("num_active_elements", "I", 1, 0), K("num_trimmed_elements", "I", 1, 0), K("num_full_elements", "I", 1, 0),
                             K("num_inactive_elements", "I", 1, 0) >>, << >>, << >>, ""),
    ElapsedTimeInfo |-> Kind(<< K("total", "D", 1, 1) >>, << << "volume_time_info", "VolumeTimeInfo" >>, << "conditions_time_info", "ConditionsTimeInfo" >>,
                             << "write_files_time_info", "WriteFilesTimeInfo" >> >>, << >>, "ElapsedTimeInfo"),
    VolumeTimeInfo |-> Kind(<< K("total", "D", 1, 1), K("classification_of_elements", "D", 1, 1), K("computation_of_intersections", "D", 1, 1),
                             K("solution_of_moment_fitting_eqs", "D", 1, 1), K("construction_of_ggq_rules", "D", 1, 1) >>, << >>, << >>, ""),
    ConditionsTimeInfo |-> Kind(<< K("total", "D", 1, 1) >>, << >>, << >>, ""),
    WriteFilesTimeInfo |-> Kind(<< K("total", "D", 1, 1) >>, << >>, << >>, ""),
    ConditionInfo |-> Kind(<< K("condition_id", "I", 1, 0), K("surf_area", "D", 1, 0), K("perc_surf_area_in_active_domain", "D", 1, 0) >>, << >>, << >>, "") ]
CONSTANT Registry
Reg(kd) == Registry[kd]
HasData(kd) == Reg(kd).keys # << >>
KeyPos(kd, k) == LET P == { i \in 1..Len(Reg(kd).keys) : Reg(kd).keys[i].k = k } IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE
SubKinds(kd, k) == { Reg(kd).subs[i][2] : i \in { j \in 1..Len(Reg(kd).subs) : Reg(kd).subs[j][1] = k } }
\* a node: kind, values, checked (0 no, 1 yes, 2 perhaps: a check of a parent stopped somewhere), alive
Fresh(kd) == [k |-> kd, v |-> [i \in 1..Len(Reg(kd).keys) |-> Reg(kd).keys[i].d], c |-> 0, a |-> 1]
Null(kd) == [k |-> kd, v |-> [i \in 1..Len(Reg(kd).keys) |-> 0], c |-> 0, a |-> 0]
RECURSIVE Tree(_, _)
Tree(path, kd) == {<< path, kd >>} \cup UNION { Tree(path \o "/" \o Reg(kd).subs[i][1], Reg(kd).subs[i][2]) : i \in 1..Len(Reg(kd).subs) }
FreshTree(path, kd) == LET T == Tree(path, kd) IN [p \in { t[1] : t \in T } |-> Fresh((CHOOSE t \in T : t[1] = p)[2])]
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
\* roots is a set of << path, kind >>; st.len: number of list entries per root
DictInit(roots) == [n |-> [p \in UNION { DOMAIN FreshTree(r[1], r[2]) : r \in roots } |->
                              LET r == CHOOSE q \in roots : p \in DOMAIN FreshTree(q[1], q[2]) IN FreshTree(r[1], r[2])[p]],
                    len |-> [p \in { r[1] : r \in roots } |-> 0]]
\* evaluate a state completely (TLC keeps function expressions lazy)
Force(st) == [n |-> TLCEval([p \in DOMAIN st.n |-> TLCEval([k |-> st.n[p].k, v |-> TLCEval([i \in 1..Len(st.n[p].v) |-> st.n[p].v[i]]), c |-> st.n[p].c, a |-> st.n[p].a])]),
              len |-> TLCEval([p \in DOMAIN st.len |-> st.len[p]])]
Alive(st, p) == p \in DOMAIN st.n /\ st.n[p].a = 1
\* the nodes above p are alive, too: p can be reached
Elem(r, i) == r \o "#" \o ToString(i)
RECURSIVE Below(_, _, _)
Below(st, p, kd) == {p} \cup UNION { Below(st, p \o "/" \o Reg(kd).subs[i][1], Reg(kd).subs[i][2]) : i \in 1..Len(Reg(kd).subs) }
Stored(kt, t, i) == IF t = kt THEN i
                    ELSE IF t \in {"I", "i", "u"} /\ kt \in {"I", "D"} THEN i
                    ELSE IF t = "n" /\ kt = "D" THEN NegAsDouble[i]
                    ELSE IF t = "V" /\ kt = "P" THEN i
                    ELSE 0
EnumStored(kt, t, i) == IF t = kt \/ (t \in {"u", "I"} /\ kt = "I") THEN i ELSE 0
Complete(nd) == \A i \in 1..Len(nd.v) : Reg(nd.k).keys[i].r = 1 => nd.v[i] # 0
SetV(st, p, i, x) == [st EXCEPT !.n = [@ EXCEPT ![p] = [@ EXCEPT !.v = [@ EXCEPT ![i] = x]]]]
\* all nodes a check of p visits; list entries belong to their root
CheckSet(st, p) == Below(st, p, st.n[p].k) \cup (IF p \in DOMAIN st.len THEN { Elem(p, i) : i \in 1..st.len[p] } ELSE {})
CheckOK(st, p) == \A q \in CheckSet(st, p) : q \in DOMAIN st.n /\ st.n[q].a = 1 /\ Complete(st.n[q])
\* --- D02: the JSON form of a dictionary. Reading gives a new dictionary: what is written as set is set, the rest has
\* its default, nothing is checked. A text equal to the marker means "not set".
Marker == 6
Shrink(st, r) == [p \in { q \in DOMAIN st.n : \A i \in 1..st.len[r] : q # Elem(r, i) } |-> st.n[p]]
ReadAs(kt, x, d) == IF x = 0 \/ (kt = "T" /\ x = Marker) THEN d ELSE x
Reload(st) == [st EXCEPT !.n = [p \in DOMAIN @ |-> [@[p] EXCEPT !.c = 0, !.v = [i \in 1..Len(@) |-> ReadAs(Reg(st.n[p].k).keys[i].t, @[i], Reg(st.n[p].k).keys[i].d)]]]]
\* literals: "i" "n" "D" "B" "T" "V" "P" as above; "M" "G": the names; "W" two numbers, "Z" null, "O" empty object,
\* "E" empty list, "X" the entry is left out
Literals == {"i", "n", "D", "B", "T", "V", "P", "M", "G", "W", "Z", "O", "E", "X"}
LitSize(t) == IF t = "P" THEN 5 ELSE IF t = "M" THEN 6 ELSE IF t \in {"B", "G"} THEN 2 ELSE IF t = "V" THEN 3 ELSE IF t = "D" THEN 15 ELSE IF t = "i" THEN 6 ELSE IF t = "n" THEN 3 ELSE IF t = "T" THEN 6 ELSE 1
\* << accepted, value >>
ReadLiteral(key, t, i) ==
    IF t = "X" \/ (t = "T" /\ i = Marker) THEN << 1, key.d >>
    ELSE IF Stored(key.t, t, i) # 0 THEN << 1, Stored(key.t, t, i) >> ELSE << 0, 0 >>
Step(st, op) ==
    LET p == op.n
        nd == st.n[p]
        kd == nd.k
        own == IF op.a = "e" THEN (IF op.e = kd THEN KeyPos(kd, op.k) ELSE 0) ELSE KeyPos(kd, op.k)
    IN
    CASE op.op = "set" ->
           (LET x == IF ~HasData(kd) \/ own = 0 THEN 0
                     ELSE IF op.a = "e" THEN EnumStored(Reg(kd).keys[own].t, op.t, op.i) ELSE Stored(Reg(kd).keys[own].t, op.t, op.i)
            IN IF x = 0 THEN << st, {Refused} >> ELSE << SetV(st, p, own, x), {Done} >>)
      [] op.op = "get" ->
           (IF ~HasData(kd) \/ own = 0 THEN << st, {Refused} >>
            ELSE LET key == Reg(kd).keys[own]
                     x == nd.v[own]
                 IN IF op.a = "s" THEN << st, { IF x = 0 \/ key.t # op.t THEN Refused ELSE << 1, x >> } >>
                    ELSE IF key.r = 0 THEN << st, { IF x = 0 THEN << 2 >> ELSE << 1, x >> } >>     \* optional: nothing is an answer
                    ELSE IF nd.c = 0 \/ x = 0 THEN << st, {Refused} >>                            \* required: only after a check
                    ELSE << st, { << 1, x >> } \cup (IF nd.c = 2 THEN {Refused} ELSE {}) >>)
      [] op.op = "isset" -> << st, { IF ~HasData(kd) \/ own = 0 THEN Refused ELSE << 1, IF nd.v[own] = 0 THEN 0 ELSE 1 >> } >>
      [] op.op = "has" -> << st, { << 1, IF KeyPos(kd, op.k) # 0 \/ SubKinds(kd, op.k) # {} \/ (Reg(kd).list # << >> /\ Reg(kd).list[1] = op.k) THEN 1 ELSE 0 >> } >>
      [] op.op = "sub" -> << st, { IF (op.a = "e" /\ op.e # Reg(kd).enum) \/ SubKinds(kd, op.k) = {} THEN Refused
                                   ELSE IF st.n[p \o "/" \o op.k].a = 0 THEN Refused ELSE Done } >>
      [] op.op = "len" -> << st, { IF (op.a = "e" /\ op.e # Reg(kd).enum) \/ Reg(kd).list = << >> \/ Reg(kd).list[1] # op.k THEN Refused
                                   ELSE << 1, st.len[p] >> } >>
      [] op.op = "append" ->      \* to the list of a root; b = 0: an empty entry
           (LET q == Elem(p, st.len[p] + 1)
                ek == Reg(kd).list[2]
            IN << [n |-> Join(st.n, [x \in {q} |-> IF op.b = 1 THEN Fresh(ek) ELSE Null(ek)]), len |-> [st.len EXCEPT ![p] = @ + 1]], {Done} >>)
      [] op.op = "check" ->
           (IF CheckOK(st, p) THEN << [st EXCEPT !.n = [q \in DOMAIN @ |-> IF q \in CheckSet(st, p) THEN [@[q] EXCEPT !.c = 1] ELSE @[q]]], {Done} >>
            ELSE << [st EXCEPT !.n = [q \in DOMAIN @ |-> IF q \in CheckSet(st, p) /\ @[q].a = 1 /\ @[q].c = 0 /\ Complete(@[q]) THEN [@[q] EXCEPT !.c = 2] ELSE @[q]]], {Refused} >>)
      [] op.op = "replace" ->     \* a new sub-dictionary in the place of the old one; b = 0: none
           (IF (op.a = "e" /\ op.e # Reg(kd).enum) \/ SubKinds(kd, op.k) = {} THEN << st, {Refused} >>
            ELSE LET sk == CHOOSE x \in SubKinds(kd, op.k) : TRUE
                     q == p \o "/" \o op.k
                     old == Below(st, q, sk)
                     new == FreshTree(q, sk)
                 IN << [st EXCEPT !.n = [x \in DOMAIN @ |-> IF x \in old THEN (IF op.b = 1 THEN new[x] ELSE Null(@[x].k)) ELSE @[x]]], {Done} >>)
      [] op.op = "json" ->        \* write; settings are read back
           (IF p = "S" THEN << Reload(st), {Done} >> ELSE << st, {Done} >>)
      [] op.op = "poke" ->        \* write, change the entry k of p, read
           (LET r == Reload(st) IN
            IF op.k = Reg(kd).listkey THEN
               (IF op.t \in {"E", "X"} THEN << [n |-> Shrink(r, p), len |-> [r.len EXCEPT ![p] = 0]], {Done} >> ELSE << st, {Refused} >>)
            ELSE IF SubKinds(kd, op.k) # {} THEN
               (IF op.t \in {"O", "X"} THEN LET T == FreshTree(p \o "/" \o op.k, CHOOSE x \in SubKinds(kd, op.k) : TRUE)
                                      IN << [r EXCEPT !.n = [x \in DOMAIN @ |-> IF x \in DOMAIN T THEN T[x] ELSE @[x]]], {Done} >>
                ELSE << st, {Refused} >>)
            ELSE IF KeyPos(kd, op.k) = 0 THEN << st, { IF op.t = "X" THEN Done ELSE Refused } >>
            ELSE LET x == ReadLiteral(Reg(kd).keys[KeyPos(kd, op.k)], op.t, op.i)
                 IN IF x[1] = 0 THEN << st, {Refused} >> ELSE << SetV(r, p, KeyPos(kd, op.k), x[2]), {Done} >>)
      [] op.op = "move" -> << st, {Done} >>
\* what is written: << path, key, value or 0 >> for every key of p and below, and of list entries
Doc(st, p) == { << q, Reg(st.n[q].k).keys[i].k, st.n[q].v[i] >> : <<q, i>> \in { qi \in CheckSet(st, p) \X (1..7) : qi[2] <= Len(st.n[qi[1]].v) } }
\* what a full listing shows: << path, key, value >> for every value that is set
Shown(st) == { << p, Reg(st.n[p].k).keys[i].k, st.n[p].v[i] >> : <<p, i>> \in { pi \in (DOMAIN st.n) \X (1..7) : pi[2] <= Len(st.n[pi[1]].v) /\ st.n[pi[1]].a = 1 /\ st.n[pi[1]].v[pi[2]] # 0 } }
=============================================================================
