------------------------------- MODULE TraceD03 -------------------------------
(* D03: the answers of EmbeddedModel::Create over rows of the decision table, and the settings an accepted model shows. *)
EXTENDS SettingsRule, TraceCore
Ran(q) == { q[i] : i \in 1..Len(q) }
Shows(s) == LET given == Ran(s.given)
                w(k) == IF k \in given THEN 2 ELSE 1
            IN << w("output_directory_name"), w("echo_level"), w("write_output_to_file"), w("moment_fitting_residual"), w("min_element_volume_ratio"),
                  w("min_num_boundary_triangles"), w("neglect_elements_if_stl_is_flawed"), w("activate_fictitious_domain_with_alpha"),
                  IF "integration_method" \in given THEN s.m ELSE 1 >>
D03Verdict(s, o) ==
    LET given == TLCEval(Ran(s.given))
        m == IF "integration_method" \in given THEN s.m ELSE Gauss
        acc == TLCEval([i \in 1..Len(s.plist) |-> IF Accepted(given, s.bare = 1, s.conds, s.g, m, s.plist[i]) THEN 1 ELSE 0])
        n == Cardinality({ i \in 1..Len(s.plist) : acc[i] = 1 })
    IN IF Len(o.acc) # Len(s.plist) THEN {"rows"}
       ELSE UNION {
         IF \A i \in 1..Len(s.plist) : (acc[i] = 1) => o.acc[i] = 1 THEN {} ELSE {"valid-refused"},
         IF \A i \in 1..Len(s.plist) : (acc[i] = 0) => o.acc[i] = 0 THEN {} ELSE {"invalid-accepted"},
         IF o.acc # acc \/ \A i \in 1..n : o.seen[i] = Shows(s) THEN {} ELSE {"values"},
         IF o.acc # acc \/ s.volume = 0 \/ \A i \in 1..n : o.vol[i] = 1 THEN {} ELSE {"not-usable"} }
=============================================================================
