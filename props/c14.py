def check(ctx):
    ctx.run_specs("c14.py")
