def check(ctx):
    ctx.run_specs("c21.py")
