import warngen


def run(ctx):
    ctx.model("Warnings", warngen.MODEL % (ctx.pick(4, 5), "FALSE", "FALSE", "FALSE"), "every sequence of lines", workers=8)
    progs = [warngen.managers(ctx.rng) for _ in range(ctx.pick(800, 8000))]
    warngen.run(ctx, progs)
