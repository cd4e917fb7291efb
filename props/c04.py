from sa.rules import check_caching


def check(ctx):
    check_caching(ctx)
    ctx.run_specs("c04.py")
