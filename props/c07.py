def check(ctx): ctx.run_specs('c07.py')
