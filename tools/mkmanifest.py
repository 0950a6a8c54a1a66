"""writes MANIFEST.json and known_findings.json"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {"C25": "asymptotic convergence in distribution is not a property of any single call or loop: it needs the ergodic theory of the chain, which contracts "
             "over the code's functions cannot express (the per-step facts it rests on are C01-C12, C16, C18)",
      "C26": "statistical independence of the random streams of separate processes is a property of joblib/loky and of the operating system's seeding, "
             "which have no contract within reach of a deductive verifier"}
LEVEL = json.load(open(os.path.join(H, "tools", "levels.json")))
checks = []
for p in props:
    if p["id"] in NA:
        continue
    l = LEVEL.get(p["id"], LEVEL["default"])
    checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                   "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                   "technique": l["technique"], "level": l["level"], "level_note": l["note"]})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks are needed in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
FIX = """6085c7b C01 CustomPrior.perturb_value raised UnboundLocalError when is_birth was false
d1272b3 C13 a perturbed parameter kept its stale attribute view
2c2f68d C02 a birth from the nearest neighbour crashed on a nested plain ParameterSpace
657657d C19 the chains setter rejected lists of chains and accepted everything else
f4d6727 C19 get_results crashed for chains whose states are not dictionaries
74a2321 C19 saving states that are dictionaries crashed
04a8f55 C20 advance_chain crashed with its default (None) callbacks
5695803 C20 functions registered with add_on_end_advance_chain were never called
32d4abc C17 simulated annealing did not stay at temperature one after burn-in
3259d2c C16 the swap of parallel tempering used a likelihood ratio tempered twice
d6d754f C09 parallel tempering saved samples during burn-in
3734117 C09 a second parallel tempering run did not advance the chains
0c6abc2 C16 parallel tempering crashed with fewer than two chains or an empty ladder
d3f95ae C24 forward functions added later were not wrapped
d2c0c25 C24 targets added after a parallel run never reached the chains
028d456 C01 log_prior crashed on nested parameter spaces
311d742 C22 position-dependent Gaussian/Laplace initial values failed in two dimensions
d595833 C04 CustomPrior.initialize returned an array of the wrong shape for 2-D positions
a22704f C13 a noise perturbation left stale views of the noise
f9c054c C06 out-of-range noise proposals were redrawn (biased) instead of rejected
d618592 C03 out-of-domain site moves were redrawn (biased) instead of rejected
7abeaa0 C12 sampled 2-D Voronoi states carried no nearest-neighbour tree
471160f C24 add_targets(None, functions) crashed once chains observed the likelihood
6a9a060 C15 cell extents were wrong for one site and for unbounded ends
3142a57 C11 the inverse covariance was wrong (and wrote outside the matrix) for fewer than three data
7eddb78 C15 a layered profile was wrong at positions given in any but increasing order
00184fa C04 sampling a parameter space turned nested discretizations into an object array"""
json.dump({"comment": "findings: recorded and suppressed (KNOWN-FINDING). fixed: repaired in /repo, suppresses nothing.",
           "findings": json.load(open(os.path.join(H, "tools", "findings.json"))),
           "fixed": [f"fixed: property={l.split()[1]} {l.split()[0]} {l.split(' ', 2)[2]}" for l in FIX.split("\n")]},
          open(os.path.join(H, "known_findings.json"), "w"), indent=1)
