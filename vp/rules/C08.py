"""A failed write is reported."""
from . import iofail
ASSUME = ['a destructor reports to nobody: output that fails in one is reported by close(), and by nothing if close() is not called; closing the file a file object was used for before is not part of opening or creating the next one',
          'memory allocation does not fail', 'H5Pcreate/H5Screate/H5Tset_strpad failures surface in the call the handle is passed to',
          'Alembic Ogawa group writes return null only for a group that was already written out',
          'one fault at a time: calls made after the assumed failure succeed unless they are given the failed handle']
def run(ctx):
    ctx.rule('propagate', 'assuming this operation fails, every exit of the function is a failing one (constant propagation over the CFG); in a thread the shared failure flag is set', 150)
    ctx.rule('handler', 'a handler around storage operations ends in failing exits', 12)
    ctx.rule('thread-flag', 'the function that starts worker threads fails when they left the failure flag set', 1)
    ctx.rule('store', 'a write that reports success has passed a storage operation', 20)
    ctx.rule('stream', 'the Ogawa output stream raises on every failed operation', 2)
    iofail.run(ctx, True); iofail.handlers(ctx, True); iofail.stores(ctx); iofail.stream_errors(ctx)
