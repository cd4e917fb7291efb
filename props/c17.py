def check(ctx):
    ctx.run_specs("c17.py")
