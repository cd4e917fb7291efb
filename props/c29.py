def check(ctx):
    ctx.run_specs("c29.py")
