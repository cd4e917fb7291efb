def check(ctx): ctx.run_specs('c13.py')
