from sa.rules import check_hints, check_structure


def check(ctx):
    ctx.run_specs("c06.py")
    check_hints(ctx)
    check_structure(ctx, lambda k: k.startswith("builders/domain") or k.startswith("builders/solver"))
