CHECKS = {
    "C01": [("p_tree", "run")],
    "C02": [("p_tree", "run")],
    "C03": [("p_tree", "run")],
    "C04": [("p_tree", "run")],
    "C05": [("p_tree", "run")],
    "C06": [("p_tree", "run")],
    "C16": [("p_tree", "run")],
    "C07": [("p_tree", "run")],
    "C08": [("p_algebra", "length_finder"), ("p_tree", "run")],
    "C09": [("p_algebra", "ord_search"), ("p_tree", "run")],
    "C10": [("p_tree", "run")],
    "C11": [("p_gap", "run")],
    "C12": [("p_tree", "run")],
    "C13": [("p_misc", "sharing"), ("p_misc", "clones"), ("p_tree", "run")],
    "C14": [("p_misc", "determinism")],
    "C18": [("p_tree", "run")],
    "C19": [("p_tree", "run")],
    "C20": [("p_tree", "run")],
    "C21": [("p_tree", "run")],
    "C15": [("p_algebra", "rope_summaries"), ("p_algebra", "ord_summaries")],
}

TECH = {
    "C13": "type reachability (no interior mutability) over all data types; abstract interpretation of Clone impls and clear",
    "C14": "effect analysis: every call site and type of the MIR is searched for sources of outside influence",
    "*": "abstract interpretation of MIR (value numbering + linear inequalities + sequence domain, loops summarised)",
}

_TRUST = ("Decided from the type-checked MIR of the current tree, nothing is run. Trusted: the compiler front end, the models of std, thunderdome "
          "and heapless calls, and (for generic code) the documented laws of user-supplied traits. Obligations the domain cannot settle are "
          "counted as undecided in the evidence and raise no alarm.")
NOTES = {"*": _TRUST}

NA = {}
_later = "not decided yet by this framework"
for _p in ["C%02d" % i for i in range(1, 24)]:
    NA[_p] = _later
NA["C22"] = "running time and termination quantify over the height reached by a whole history; no static bound on it follows from the shape of the code"
NA["C23"] = ("equality with a plain string after any history is an induction over all states the tree can reach; only its single-operation steps (C10, C11, C03) are "
             "decided statically")
