#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CM = "ylearn/causal_model/"
EM = "ylearn/estimator_model/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, claimed=claimed))


prop("C01", "Causal graph edits keep one consistent graph",
     "After any history of node, edge and latent-arc edits, in place or into a new graph, every view of a causal graph "
     "(parents, nodes, directed edges, latent confounding arcs, observed sub-graph, acyclicity) describes the same graph, "
     "namely the one the edits define. Edits that build a new graph leave the source graph untouched and share nothing with it, "
     "and no edit changes the parent lists the caller built the graph from.",
     ["histories", "inputs"], "every acyclic starting graph and every sequence of documented edits on existing nodes and edges",
     "The repository has no test of causal graphs at all; agreement of redundant representations is a property of histories.",
     [CM + "graph.py"],
     [("CausalGraph edits", CM + "graph.py: add_*/remove_*/build_sub_graph"), ("arc detection", CM + "graph.py: latent_confounding_arcs")],
     "CausalGraph attributes after each edit",
     "model-based histories (up to 8 edits, up to 5 nodes) against a set model of nodes, edges and arcs")
prop("C02", "Graph queries follow the graph-theoretic definitions",
     "Ancestors, descendants, parents, confounded components, topological order, adjacency, mutilated graphs and the expansion of latent "
     "arcs into unobserved common causes are exactly what graph theory defines for the graph given. A d-separation query answers true "
     "exactly when every path is blocked, with latent confounding taken into account.",
     ["inputs"], "every acyclic graph with latent arcs and every disjoint triple of node sets",
     "No test touches these queries; correctness is over all graphs, and errors show only on particular shapes.",
     [CM + "graph.py", CM + "utils.py"],
     [("d-separation on the expanded graph", CM + "graph.py: is_d_separated, explicit_unob_var_dag"), ("ancestor closure", CM + "utils.py")],
     "return values of the query methods",
     "differential against an independent implementation (moralised ancestral graph, closures), graphs up to 7 nodes")
prop("C03", "General identification is sound and complete",
     "When the general identification method returns an expression for the effect of some treatments on some outcomes, evaluating that "
     "expression on the observational distribution of any model compatible with the graph yields the true interventional distribution. "
     "When the effect is not identifiable from the graph it raises an identification error, and only then; the graph and the arguments are not changed. "
     "Expressions written down as text read the same, and identification without a named method agrees with the single methods.",
     ["inputs"], "every acyclic graph with latent confounding arcs, every choice of treatments and outcomes, every compatible distribution",
     "No test covers identification; wrong branches of the recursion surface only on specific graphs and only numerically.",
     [CM + "model.py", CM + "prob.py"],
     [("ID recursion", CM + "model.py: CausalModel.id"), ("expression tree", CM + "prob.py: Prob")],
     "the returned expression, evaluated numerically",
     "random structural models with exact truncated factorisation as oracle, identifiability against Tian's algorithm, up to 6 nodes")
prop("C04", "Backdoor adjustment sets are exactly the valid ones",
     "Listing all, or a smallest, backdoor set returns exactly the sets that block every backdoor path without using descendants of the treatment, "
     "asking for the simple set returns the parents of the treatment when these are valid, and an identification error is raised when nothing valid exists. "
     "Checking a given set agrees with the criterion, the returned expression evaluates to the interventional distribution, and reported backdoor paths, "
     "colliders and open paths agree with path enumeration.",
     ["inputs"], "every acyclic graph with latent arcs, treatment and outcome sets, candidate sets and calling styles",
     "No test covers backdoor adjustment directly; validity quantifies over all graphs and sets.",
     [CM + "model.py"],
     [("set search", CM + "model.py: get_backdoor_set"), ("criterion", CM + "model.py: is_valid_backdoor_set"), ("paths", CM + "model.py: get_backdoor_path, has_collider")],
     "returned sets, expressions and booleans",
     "exhaustive reference enumeration per generated graph (up to 6 nodes) plus exact numeric adjustment in a random model")
prop("C05", "Frontdoor adjustment sets are valid and none is missed",
     "A frontdoor query returns exactly sets of mediators that satisfy the frontdoor criterion, with an identification error when there is none, "
     "and the accompanying expression evaluates to the true interventional distribution. Testing a given set agrees with the criterion, node names may be any strings, "
     "and the names passed in are left unchanged.",
     ["inputs"], "every acyclic graph with latent arcs, treatment, outcome, candidate set and style",
     "No test covers frontdoor adjustment; both directions of the criterion need arbitrary graphs.",
     [CM + "model.py"],
     [("set search", CM + "model.py: get_frontdoor_set"), ("criterion", CM + "model.py: is_frontdoor_set")],
     "returned sets, expressions and booleans",
     "reference criterion by path enumeration and d-separation plus exact numeric evaluation, up to 6 nodes")
prop("C06", "Instruments found in a graph satisfy the instrument conditions",
     "The instrumental variables reported for a treatment and an outcome are exactly the parents of the treatment whose every open path to the outcome runs through the treatment. "
     "Validity checks of given instruments agree with that set.",
     ["inputs"], "every acyclic graph with latent arcs, treatment and outcome",
     "No test covers instrument search.",
     [CM + "model.py", CM + "utils.py"],
     [("exclusion by ancestors and their descendants", CM + "model.py: get_iv, is_valid_iv")],
     "returned sets and booleans", "reference by d-separation after cutting the arrows into the treatment, up to 7 nodes")
prop("C07", "Model-level estimation adjusts for a valid set of the asked effect",
     "Estimating an effect through a causal model gives the estimate adjusted for a set that is valid for the treatment and outcome asked about, "
     "whatever was identified before, and a given adjustment set is accepted exactly when it is valid. Identify-and-estimate returns one estimate per set found.",
     ["histories", "inputs"], "every graph, dataset, and sequence of identification and estimation calls",
     "No test covers it; stale identification results only show in multi-call histories.",
     [CM + "model.py"],
     [("cached adjustment set", CM + "model.py: CausalModel.estimate, identify_estimate")],
     "returned effects", "call histories with a least-squares reference for the learner, membership in the estimates of valid sets")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=[p["observe"]]))) + "\n")
    checks, na = [], []
    for p in P:
        if not p["claimed"]:
            na.append(dict(property=p["id"], reason="check not built yet"))
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} --tier quick",
                           thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                           technique="property-based testing (Hypothesis): " + p["note"],
                           level="exploration",
                           level_note="Generated-input search with an explicit oracle; holds on everything explored, establishes no absence. "
                                      "Trusts the reference in the check, numpy/scipy/scikit-learn/networkx primitives and stated tolerances."))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                       notes="Repairs in /repo are unguarded fix: commits, listed in known_findings.json; no hooks are used."), f, indent=1)
