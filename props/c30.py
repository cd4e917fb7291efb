def check(ctx):
    ctx.run_specs("c30.py")
