"""A failed read never yields a field."""
from . import iofail
ASSUME = ['a destructor reports to nobody: output that fails in one is reported by close(), and by nothing if close() is not called; closing the file a file object was used for before is not part of opening or creating the next one',
          'memory allocation does not fail', 'one fault at a time',
          'items older files may lack (metadata, MIP level count, time sample count, Z distribution, file version) are not failures',
          'an Ogawa partition whose mapping cannot be read is delivered without mapping']
def run(ctx):
    ctx.rule('propagate', 'assuming this operation fails (or this item is missing), every exit of the function is a failing one; functions returning lists never add a null entry', 90)
    ctx.rule('handler', 'a handler around read operations ends in failing exits unless only optional items are read there', 15)
    ctx.rule('thread-flag', 'the function that starts worker threads fails when they left the failure flag set', 1)
    iofail.run(ctx, False); iofail.handlers(ctx, False)
