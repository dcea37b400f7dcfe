"""C15: part references are checked and stored as requested."""
from checks import model_edits


def run(ctx):
    ctx.rule = ('Value numbering of every model-building function on an abstract model with symbolic request: the condition under which '
                'an error is reported equals "some id is out of range of its own kind, or a size or height is inconsistent", and '
                'otherwise every stored id, extent, division and height is the requested one (rows stored bottom to top).')
    ctx.assumptions += ['requests have the listed bounded sizes; ids, materials, extents and heights are arbitrary', 'assertions compiled out']
    model_edits.content(ctx, model_edits.module(ctx))
