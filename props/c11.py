def check(ctx): ctx.run_specs('c11.py')
