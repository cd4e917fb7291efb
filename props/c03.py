from sa.rules import check_delegation


def check(ctx):
    ctx.run_specs("c03.py", also=[("c01.py", lambda rel, q: rel.endswith(("domain/dynamics.py", "domain/initialization.py")))])
    check_delegation(ctx, lambda rel: rel in ("builders/domain/dynamics.py", "builders/domain/initialization.py", "builders/domain/observability.py",
                                              "builders/solver/policy.py"))
