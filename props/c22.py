def check(ctx):
    ctx.run_specs("c22.py")
