def check(ctx):
    ctx.run_specs("c15.py")
