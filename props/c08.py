def check(ctx): ctx.run_specs('c08.py')
