def check(ctx):
    ctx.run_specs("c16.py")
