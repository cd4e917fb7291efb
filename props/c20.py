def check(ctx):
    ctx.run_specs("c20.py")
