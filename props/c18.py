def check(ctx):
    ctx.run_specs("c18.py")
