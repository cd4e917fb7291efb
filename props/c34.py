def check(ctx):
    ctx.run_specs("c34.py")
