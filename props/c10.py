def check(ctx): ctx.run_specs('c10.py')
