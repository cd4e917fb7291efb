from sa.rules import check_delegation, check_structure


def check(ctx):
    check_delegation(ctx, lambda rel: rel.startswith("builders/scheduling"))
    check_structure(ctx, lambda k: k.startswith("builders/scheduling/scheduling_domains.py"), attrs=False)
    ctx.run_specs("c23.py")
