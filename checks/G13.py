import gingen


def run(ctx):
    gingen.run(ctx, 0.95, 0.6, lambda c: c["parse"])
