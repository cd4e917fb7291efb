def check(ctx):
    ctx.run_specs("c33.py")
