"""C14: a rejected model edit leaves the model unchanged."""
from checks import model_edits


def run(ctx):
    ctx.rule = ('Value numbering of every model-building function on an abstract model with symbolic request: on the regions of the '
                'request space where an error is reported, every size and every stored value of the model equals its value before '
                'the request and -1 is returned; on the other regions exactly one part is added and earlier parts keep their values.')
    ctx.assumptions += ['errors are configured not to terminate the program', 'requests have the listed bounded sizes; ids, materials, '
                        'extents and heights are arbitrary', 'assertions compiled out']
    model_edits.frame(ctx, model_edits.module(ctx))
