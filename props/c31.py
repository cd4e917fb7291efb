def check(ctx):
    ctx.run_specs("c31.py")
