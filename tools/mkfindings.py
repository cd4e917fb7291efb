"""Rewrite the 'fixed' entries of known_findings.json from the fix: commits of /repo (open entries are kept)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DO = "skdecide/builders/discrete_optimization/"
RULES = [  # file prefix -> property
 ("skdecide/builders/solver", "C13"), ("skdecide/builders/domain/dynamics", "C01"), ("skdecide/core.py", "C06"), ("skdecide/domains.py", "C12"), ("skdecide/utils.py", "C11"),
 ("skdecide/hub/solver/lazy_astar", "C14"), ("skdecide/hub/solver/lrtastar", "C15"), ("skdecide/hub/solver/simple_greedy", "C15"), ("skdecide/hub/solver/pomcp", "C15"),
 ("skdecide/hub/solver/graph_explorer", "C16"), ("skdecide/hub/domain/graph_domain", "C16"), ("skdecide/hub/space/gym", "C17"), ("skdecide/hub/domain/gym", "C18"),
 ("skdecide/hub/domain", "C19"), ("skdecide/hub/solver/cgp", "C20"), ("skdecide/hub/solver/ars", "C20"), ("skdecide/hub/solver/maxent_irl", "C20"),
 ("skdecide/builders/scheduling/scheduling_domains", "C21"), ("skdecide/builders/scheduling/task.py", "C21"), ("skdecide/builders/scheduling", "C23"),
 (DO + "generic_tools/mutations", "C28"), (DO + "generic_tools", "C27"), (DO + "rcpsp_multiskill", "C30"), (DO + "rcpsp", "C29"), (DO + "vrp", "C34"), (DO + "tsp", "C34"), (DO + "ttp", "C34"), (DO, "C31"),
 ("skdecide/hub/solver/sgs_policies", "C32"), ("skdecide/hub/solver/pile_policy", "C32"), ("skdecide/hub/solver/gphh", "C32"), ("skdecide/hub/solver/policy_evaluators", "C32"), ("skdecide/hub/solver/meta_policy", "C32"), ("skdecide/hub/solver/do_solver", "C33"), ("skdecide/discrete_optimization", "C33"), ("skdecide/", "C24"),
]
OVER = {"offer ": "C22", "resource need of a task at its own": "C22", "resume a task in its previous": "C22", "make the empty space": "C08", "the current state of a history": "C06", "unwrapped observations": "C18"}
p = os.path.join(HERE, "known_findings.json")
old = [f for f in json.load(open(p)) if f["status"] == "open"] if os.path.exists(p) else []
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s", "--grep=^fix:"], text=True)
for l in log.splitlines():
    h, s = l.split("\t")
    files = subprocess.check_output(["git", "-C", "/repo", "show", "--name-only", "--format=", h], text=True).split()
    pr = next((v for k, v in OVER.items() if k in s), None) or next(v for k, v in RULES if files[0].startswith(k))
    out.append({"status": "fixed", "property": pr, "commit": h, "what": s[5:], "files": files, "line": "fixed: property=%s %s %s" % (pr, h, s[5:])})
json.dump(old + out, open(p, "w"), indent=1)
print(len(old), "open,", len(out), "fixed")
