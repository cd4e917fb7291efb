from sa.rules import check_delegation


def check(ctx):
    ctx.run_specs("c02.py")
    check_delegation(ctx, lambda rel: rel in ("builders/domain/events.py", "builders/domain/renderability.py"))
