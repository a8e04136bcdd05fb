"""L05: the library reports success only for requests the server confirmed (lib/locks.py, rule truth)"""
import irbuild, l01
def run(ctx):
    b = irbuild.Builder()
    l01.analyse(ctx, b, 'dax', l01.L05)
    ctx.rule = ('Property simulation over every path of every function declared in opendax.h, through all calls: once the function that writes to the socket or '
                'the function that takes the reply has returned non-zero, every API function on the way returns non-zero (NULL for pointers, 0 for dax_string_to_type()); '
                'the function that takes the reply returns zero only on paths where the type of the message was compared equal to a value made from the command of the request.')
    ctx.assumptions += ['an error that is told by a NULL result is not followed further', 'code that runs before the connection thread is published (registration) is not covered']
    ctx.require('failing paths', 20); ctx.require('entry points', 40)
