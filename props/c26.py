def check(ctx):
    ctx.run_specs("c26.py")
