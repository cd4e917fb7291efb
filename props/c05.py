from sa.rules import check_delegation, check_structure


def check(ctx):
    check_delegation(ctx, lambda rel: not rel.startswith("builders/scheduling") and "scheduling" not in rel)
    check_structure(ctx, lambda k: k.startswith("domains.py") and "Parallel" not in k or k.startswith("solvers.py"), attrs=False)
    ctx.run_specs("c05.py")
