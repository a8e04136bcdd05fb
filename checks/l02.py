import l01
def run(ctx): l01.run(ctx, l01.L02)
