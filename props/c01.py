def check(ctx):
    ctx.run_specs("c01.py", also=[("c03.py", lambda rel, q: rel.endswith(("domain/dynamics.py", "domain/initialization.py")))])
