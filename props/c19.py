def check(ctx):
    ctx.run_specs("c19.py")
