def check(ctx): ctx.run_specs('c12.py')
