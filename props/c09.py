def check(ctx): ctx.run_specs('c09.py')
