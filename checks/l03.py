"""L03: the client library stays inside its buffers and those of its callers."""
import bufs
EX = {'hsize': 'offsetof(tag_handle,size)', 'hlen': 'sizeof(tag_handle)', 'events': 'offsetof(dax_state,events)', 'esize': 'offsetof(dax_state,event_size)',
      'ecount': 'offsetof(dax_state,event_count)', 'elen': 'sizeof(event_db)', 'msize': 'offsetof(dax_message,size)', 'mdata': 'MSG_DATA_SIZE',
      'gsize': 'offsetof(tag_group_id,size)', 'ghead': '4'}
class Lib(bufs.Bufs):
    api = True
    @classmethod
    def setup(k, c):
        k.hsize = c['hsize']; k.hlen = c['hlen']
        if 'events' not in c: return
        k.sized = (('dax_state', c['events'], c['esize'], 4, c['elen']),)
        k.rels = (('dax_state', c['ecount'], c['esize'], 4),)
        k.assumed = {('dax_state', c['ecount']): (0, (1 << 31) - 1), ('dax_state', c['esize']): (1, 1 << 24)}
        k.published = {('dax_message', c['msize']): (0, c['mdata']), ('tag_group_id', c['gsize']): (0, c['mdata'] - 4)}
LX = {'hsize': EX['hsize'], 'hlen': EX['hlen']}
TARGETS = {'dax': (Lib, ['libdax.h', 'libcommon.h', 'opendax.h'], EX, set()), 'daxlog': (Lib, ['opendax.h'], LX, set()), 'daxlua_library': (Lib, ['opendax.h'], LX, set())}
def run(ctx): bufs.check(ctx, TARGETS)
