import itertools
from ..check import Check, Part

REQ = ["input_filename", "output_directory_name", "echo_level", "write_output_to_file", "grid_type", "lower_bound_xyz", "upper_bound_xyz",
       "lower_bound_uvw", "upper_bound_uvw", "polynomial_order", "number_of_elements", "moment_fitting_residual", "min_element_volume_ratio",
       "min_num_boundary_triangles", "neglect_elements_if_stl_is_flawed", "integration_method"]
DEF = ["output_directory_name", "echo_level", "write_output_to_file", "moment_fitting_residual", "min_element_volume_ratio",
       "min_num_boundary_triangles", "neglect_elements_if_stl_is_flawed", "integration_method"]
ALPHA = "activate_fictitious_domain_with_alpha"
CREQ = ["condition_id", "input_filename"]
COPT = ["condition_type", "modulus", "direction", "value", "penalty_factor"]


def row(**k):
    s = dict(ev="settings", g=1, m=1, given=list(REQ), bare=0, conds=[], plist=[[2, 2, 2]], volume=0)
    s.update(k)
    return s


def cond(rng, full=True):
    g = [k for k in COPT if rng.random() < 0.5]
    g += CREQ if full else [k for k in CREQ if rng.random() < 0.5]
    return dict(null=0, given=g)


def gen(rng, tier):
    out = []
    pmax = 6 if tier == "quick" else 9
    allp = [list(p) for p in itertools.product(range(pmax + 1), repeat=3)]
    # the complete table of grid types, methods and orders
    for g in (1, 2):
        for m in range(1, 7):
            for k in range(0, len(allp), 100):
                out.append(row(g=g, m=m, plist=allp[k:k + 100]))
            out.append(row(g=g, m=m, plist=[list(p) for p in itertools.product((1, 2, 3, 4), repeat=3)][rng.randrange(2)::3 if tier == "quick" else 1], volume=1))
    mix = [[2, 2, 2], [1, 2, 3], [4, 4, 2], [5, 2, 2], [3, 0, 3], [2, 1, 2]]
    # required values: none, each and each pair missing, with and without defaults
    for bare in (0, 1):
        out.append(row(bare=bare, given=[], plist=mix))
        out.append(row(bare=bare, given=REQ + [ALPHA], plist=mix))
        for r in (1, 2):
            for miss in itertools.combinations(REQ, r):
                out.append(row(bare=bare, given=[k for k in REQ if k not in miss], g=rng.choice([1, 2]), m=rng.randrange(1, 7), plist=mix))
    for _ in range(400 if tier == "quick" else 8000):
        miss = rng.choice([0.0, 0.05, 0.2])
        dmiss = rng.choice([0.0, 0.5, 1.0])
        given = [k for k in REQ if rng.random() >= (dmiss if k in DEF else miss)] + ([ALPHA] if rng.random() < 0.5 else [])
        conds = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            q = rng.random()
            conds.append(dict(null=1, given=[]) if q < 0.1 else cond(rng, q < 0.7))
        out.append(row(bare=1 if rng.random() < 0.2 else 0, given=given, conds=conds, g=rng.choice([1, 2]), m=rng.randrange(1, 7),
                       plist=[[rng.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 7]) for _ in range(3)] for _ in range(6)]))
    return out


def corrupt(rng, s, o):
    if rng.random() < 0.4 and o["seen"]:
        rng.choice(o["seen"])[rng.randrange(9)] += 1
    elif rng.random() < 0.3 and o["vol"]:
        o["vol"][0] = 3
    else:
        i = rng.randrange(len(o["acc"]))
        o["acc"][i] = 1 - o["acc"][i]
    return o


CHECK = Check("D03", [Part("table", "TraceD03.tla", gen, corrupt)],
              models=[dict(module="SettingsRuleGen.tla")],
              assumptions=["orders up to 6 (quick) and 9 (thorough)", "geometric sanity of bounds is not part of the rule"])
