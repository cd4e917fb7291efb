def check(ctx):
    ctx.run_specs("c25.py")
