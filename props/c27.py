def check(ctx):
    ctx.run_specs("c27.py")
