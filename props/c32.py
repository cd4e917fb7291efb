def check(ctx):
    ctx.run_specs("c32.py")
