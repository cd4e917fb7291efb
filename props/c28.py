def check(ctx):
    ctx.run_specs("c28.py")
