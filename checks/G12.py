import gingen


def run(ctx):
    gingen.run(ctx, 0.3, 0.15, lambda c: True)
