"""Model of the tag server shared by the S** checks."""
import irbuild, ir, absint, probe, chk
from absint import Client, Engine, ModRef
from lin import Lin, ZERO, const, atom, norm

FIELDS = ['type', 'attr', 'count', 'name', 'fd', 'nextevent', 'nextmap', 'events', 'mappings', 'data', 'omask', 'odata', 'ret_file_pointer']
ATTRS = ['READONLY', 'VIRTUAL', 'RETAIN', 'OVERRIDE', 'OVR_SET', 'SPECIAL', 'OWNED', 'MAPPING', 'EVENT']
TYPES = ['BOOL', 'BYTE', 'SINT', 'CHAR', 'WORD', 'INT', 'UINT', 'DWORD', 'DINT', 'UDINT', 'REAL', 'LWORD', 'LINT', 'ULINT', 'TIME', 'LREAL']
ALLOC = {'malloc': 0, 'xmalloc': 0, 'calloc': (0, 1), 'xcalloc': (0, 1), 'realloc': 1, 'xrealloc': 1, 'strdup': 's', 'xstrdup': 's', 'strndup': 's'}
FREE = {'free', 'xfree'}
# functions that stay calls: the reply primitive, the three reactions to a change, the size functions, the
# allocator wrappers
KEEP = {'_message_send', 'dax_log', 'event_check', 'tag_get_size', 'map_check', 'ret_tag_write', 'ret_add_tag', 'ret_del_tag',
        'type_size', 'xmalloc', 'xrealloc', 'xcalloc', 'xfree', 'xstrdup', 'xtime', 'xwrite'}

class Server:
    def __init__(self, extra_keep=(), inline=()):
        self.b = irbuild.Builder()
        ex = {}
        for f in FIELDS: ex['off_' + f] = 'offsetof(_dax_tag_db,%s)' % f
        for f in FIELDS: ex['w_' + f] = 'sizeof(((_dax_tag_db*)0)->%s)' % f
        for f in ('rf', 'wf', 'userdata'): ex['v_' + f] = 'offsetof(virt_functions,%s)' % f
        ex['dbsz'] = 'sizeof(_dax_tag_db)'
        for a in ATTRS: ex['A_' + a] = 'TAG_ATTR_' + a
        for t in TYPES: ex['T_' + t] = 'DAX_' + t
        for t in TYPES: ex['TS_' + t] = 'TYPESIZE(DAX_%s)' % t
        ex['T_QUEUE'] = 'DAX_QUEUE'; ex['T_CUSTOM'] = 'DAX_CUSTOM'
        for f in ('size', 'msg_type', 'data', 'fd'): ex['m_' + f] = 'offsetof(dax_message,%s)' % f
        for f in ('size', 'msg_type', 'fd'): ex['mw_' + f] = 'sizeof(((dax_message*)0)->%s)' % f
        ex['msgsz'] = 'sizeof(dax_message)'; ex['msgdata'] = 'sizeof(((dax_message*)0)->data)'
        ex['DAX_MSGMAX'] = 'DAX_MSGMAX'; ex['MSG_HDR_SIZE'] = 'MSG_HDR_SIZE'; ex['NAMESZ'] = 'DAX_TAGNAME_SIZE'
        ex['NUM_COMMANDS'] = 'NUM_COMMANDS'
        for f in ('id', 'byte', 'bit', 'count', 'size', 'options', 'datatype', 'eventtype', 'data', 'test', 'notify', 'next'):
            ex['e_' + f] = 'offsetof(_dax_event,%s)' % f
        ex['esz'] = 'sizeof(_dax_event)'
        for f in ('id', 'source', 'dest', 'mask', 'next'): ex['d_' + f] = 'offsetof(_dax_datamap,%s)' % f
        ex['dsz'] = 'sizeof(_dax_datamap)'
        for f in ('index', 'byte', 'bit', 'count', 'size', 'type'): ex['h_' + f] = 'offsetof(tag_handle,%s)' % f
        for f in ('fd', 'tagindex', 'name', 'next', 'prev', 'tag_groups', 'groups_size', 'event_count'): ex['mod_' + f] = 'offsetof(dax_module,%s)' % f
        for f in ('size', 'flags', 'count', 'members'): ex['g_' + f] = 'offsetof(tag_group,%s)' % f
        ex['ixsz'] = 'sizeof(_dax_tag_index)'; ex['ix_tag_idx'] = 'offsetof(_dax_tag_index,tag_idx)'
        for f in ('idx', 'type', 'count', 'attr', 'name'): ex['t_' + f] = 'offsetof(dax_tag,%s)' % f
        ex['TAG_GET_INDEX'] = 'TAG_GET_INDEX'; ex['TAG_GET_NAME'] = 'TAG_GET_NAME'
        ex['vfsz'] = 'sizeof(virt_functions)'
        for f in ('byte', 'size', 'bit', 'count', 'datatype', 'eventtype'): ex['we_' + f] = 'sizeof(((_dax_event*)0)->%s)' % f
        for f in ('index', 'byte', 'size', 'bit', 'count'): ex['wh_' + f] = 'sizeof(((tag_handle*)0)->%s)' % f
        ex['w_groups_size'] = 'sizeof(((dax_module*)0)->groups_size)'
        ex['gsz'] = 'sizeof(tag_group)'; ex['hsz'] = 'sizeof(tag_handle)'; ex['GRPDATA'] = 'MSG_TAG_GROUP_DATA_SIZE'
        for e in ('WRITE', 'CHANGE', 'SET', 'RESET', 'EQUAL', 'GREATER', 'LESS', 'DEADBAND', 'DELETED'): ex['EV_' + e] = 'EVENT_' + e
        for x in ('MOD_REG','TAG_ADD','TAG_DEL','TAG_GET','TAG_LIST','TAG_READ','TAG_WRITE','TAG_MWRITE','EVNT_ADD','EVNT_DEL','EVNT_GET','EVNT_OPT','CDT_CREATE','CDT_GET','MAP_ADD','MAP_DEL','MAP_GET','GRP_ADD','GRP_DEL','GRP_READ','GRP_WRITE','GRP_MWRITE','ATOMIC_OP','ADD_OVRD','DEL_OVRD','GET_OVRD','SET_OVRD'): ex['MSG_' + x] = 'MSG_' + x
        for x in ('MSG_RESPONSE', 'MSG_ERROR', 'MSG_EVENT'): ex[x] = x
        ex['MODCMDOFF'] = 'MOD_STAT_COMMAND_OFFSET'; ex['MODIDOFF'] = 'MOD_ID_OFFSET'
        for e in ('ERR_DELETED', 'ERR_READONLY', 'ERR_ARG', 'ERR_2BIG', 'ERR_ILLEGAL'): ex[e] = e
        for i in ('TAGCOUNT', 'LASTINDEX', 'ADDED_TAG', 'DELETED_TAG', 'DBSIZE', 'STARTED', 'LASTMODULE', 'OVRD_INSTALLED', 'OVRD_SET'): ex['I_' + i] = 'INDEX_' + i
        self.c = c = probe.probe(self.b, 'tagserver', ['common.h', 'libcommon.h', 'tagbase.h', 'message.h', 'module.h', 'virtualtag.h', 'groups.h', 'retain.h', 'events.h'], ex)
        miss = [k for k in ex if k not in c]
        self.missing = miss
        self.raw = self.b.raw('tagserver')
        self.handlers = find_handlers(self.raw)
        if len(self.handlers) < 20: raise chk.Broken('message handler table not found (%d handlers)' % len(self.handlers))
        keep = (set(KEEP) | set(extra_keep)) - set(inline)
        hs = set(self.handlers.values())
        self.keepset = keep
        self.m = self.b.module('tagserver', keep=lambda n: n in keep or n in hs)
        self.mr = ModRef(self.m)
    def retrange(self, name):
        """(lo, hi) of the values an internal function returns; None = unknown"""
        c = self.__dict__.setdefault('_rr', {})
        if name in c: return c[name]
        c[name] = None
        f = self.m.funcs.get(name)
        if f is None or f.decl or f.ret is None: return None
        class R(SrvClient):
            lo = hi = None; bad = False; n = 0
            def stable(s, eng, key): return False
            def ret(s, eng, st, inst, val):
                if val is None: s.bad = True; return
                l, h = eng.bounds(st, val); s.n += 1
                if l is None or h is None: s.bad = True; return
                s.lo = l if s.lo is None else min(s.lo, l); s.hi = h if s.hi is None else max(s.hi, h)
        cl = R(self, name)
        try: Engine(self.m, f, cl, self.mr, K=4).run()
        except absint.Blowup: return None
        if cl.bad or not cl.n: return None
        c[name] = (cl.lo, cl.hi)
        return c[name]
    def need(self, *names):
        for n in names:
            if n not in self.c: raise chk.Broken('header constant %s not available' % n)
            f = None
    def fn(self, name):
        f = self.m.funcs.get(name)
        if f is None or f.decl: raise chk.Broken('function %s not found' % name)
        return f

def find_handlers(m):
    """{command: function} : constant functions stored in the slots of a global table that is also called through"""
    tabs = {}
    for f in m.funcs.values():
        if f.decl: continue
        for i in f.insts():
            if i.op == 'store' and i.args[0][0] == 'g' and i.args[0][1] in m.funcs:
                g, off = _gaddr(m, i.args[1])
                if g is not None: tabs.setdefault(g, {})[off // 8] = i.args[0][1]
    for g in m.globals.values():
        if g.init is not None and isinstance(g.init, tuple) and g.init[0] == 'agg':
            for k, x in enumerate(g.init[2]):
                if isinstance(x, tuple) and x[0] == 'g' and x[1] in m.funcs: tabs.setdefault(g.name, {})[k] = x[1]
    best = max(tabs.values(), key=len) if tabs else {}
    return best

def _gaddr(m, o):
    if o[0] == 'g': return o[1], 0
    if o[0] == 'ce' and o[1] == 'getelementptr':
        ops = o[3]
        g, off = _gaddr(m, ops[0])
        if g is None: return None, 0
        t = o[4]
        try:
            off += ops[1][1] * m.size(t)
            for x in ops[2:]:
                if t.k == 'struct': off += m.field_off(t, x[1]); t = t.sub[x[1]]
                else: off += x[1] * m.size(t.sub); t = t.sub
        except TypeError: return None, 0
        return g, off
    return None, 0

def where(m, i):
    l = m.loc(i.dbg)
    return ' <- '.join('%s:%d %s()' % x for x in l) or '?'
def site(m, i):
    """stable-ish key of a construct: source function chain (no line numbers)"""
    l = m.loc(i.dbg)
    return '%s' % (l[0][2] if l else '?')

TNI, DBS, DBP = atom('@_tagnextindex'), atom('@_dbsize'), atom('@_db')
class SrvClient(Client):
    """address and value model of the tag server"""
    def __init__(self, srv, root):
        self.srv = srv; self.c = srv.c; self.root = root; self.m = srv.m
    def pure(self, n): return n in ('tag_get_size', 'type_size')
    def stable(self, eng, key):
        if key[0] != 'pure' and (key[0] == TNI or key[0] == DBS or key[0] == DBP):
            # change only through the globals themselves
            ok = self.srv.__dict__.get('_ctrok')
            if ok is None:
                ks = [k for k in self.srv.keepset if k in self.m.funcs and not self.m.funcs[k].decl]
                ok = self.srv._ctrok = not any(('@', g) in self.srv.mr.closure(k, 0) for k in ks for g in ('_tagnextindex', '_dbsize', '_db'))
            if ok: return True
        # header fields of the request: writes into its data stay inside the data (S15)
        b, off = eng.base(key[0])
        return b is not None and b == 'p:' + eng.fn.params[0][0] and off.isconst() and off.c in (self.c['m_fd'], self.c['m_size'], self.c['m_msg_type']) if eng.fn.params else False
    # ---- decode addresses
    def result_range(self, n):
        if n == 'tag_get_size': return (0, (1 << 31) - 1)
        return None
    def db_field(self, eng, addr, st=None):
        """(index Lin, field offset) when addr lies in the tag database array"""
        b, off = eng.base(addr)
        if b is None: return None
        o = eng.origin(b)
        if not (o and isinstance(o[0], Lin) and o[0] == atom('@_db')):
            if st is None: return None
            c = st.mem.get((atom('@_db'), 8))
            if c is None or c[0] != atom(b): return None
        sz = self.c['dbsz']
        fo = off.c % sz
        if any(k % sz for _, k in off.t): return None
        idx = Lin((off.c - fo) // sz, tuple((a, k // sz) for a, k in off.t))
        return idx, fo
    def ptr_field(self, eng, base):
        """(index, field) when base atom is a pointer loaded from the tag database"""
        o = eng.origin(base)
        if not o or not isinstance(o[0], Lin): return None
        r = self.db_field(eng, o[0])
        if r is None: return None
        for f in ('data', 'omask', 'odata', 'events', 'mappings', 'name'):
            if r[1] == self.c['off_' + f]: return r[0], f
        return None
    def tag_size(self, st, eng, idx):
        v = st.mem.get(('pure', 'tag_get_size', (idx,)))
        if v is not None: return v[0]
        for k, v in st.mem.items():
            if k[0] == 'pure' and k[1] == 'tag_get_size' and eng.eq(st, k[2][0], idx): return v[0]
        return None
    # ---- the size of the database: 1 <= _dbsize <= DBMAX, 0 <= _tagnextindex <= _dbsize at every point
    DBMAX = 1 << 28
    def counters_init(self, eng, st):
        T = ('int', 'int', 0, 4)
        n = eng.mk('tags0', lo=0, hi=self.DBMAX, origin=(atom('@_tagnextindex'), None)); d = eng.mk('dbsize0', lo=1, hi=self.DBMAX, origin=(atom('@_dbsize'), None))
        st.mem[(atom('@_tagnextindex'), 4)] = (n, None); st.mem[(atom('@_dbsize'), 4)] = (d, None)
        eng.assume(st, n.sub(d))
    def counter_load(self, eng, st, addr, width, val):
        if width != 4 or val is None: return
        N, D = atom('@_tagnextindex'), atom('@_dbsize')
        if addr == N or addr == D:
            eng.assume(st, (ZERO if addr == N else const(1)).sub(val)); eng.assume(st, val.sub(const(self.DBMAX)))
            o = st.mem.get((D if addr == N else N, 4))
            if o is not None: eng.assume(st, val.sub(o[0]) if addr == N else o[0].sub(val))
            return
        b, off = eng.base(addr)
        if b is None: return
        o = eng.origin(b)
        if o and isinstance(o[0], Lin) and o[0] == atom('@_index') and off.c % self.c['ixsz'] == self.c['ix_tag_idx']:
            c = st.mem.get((N, 4))
            if c is None:
                nm = 'tagsX'; eng.mk(nm, lo=0, hi=self.DBMAX, origin=(N, None)); c = (atom(nm), None); eng._killatom(st, nm); st.mem[(N, 4)] = c
            eng.assume(st, val.scale(-1)); eng.assume(st, val.plus(1).sub(c[0]))
    def field(self, st, eng, base_addr, off, w=4):
        return st.mem.get((base_addr.plus(off), w))
    # ---- allocation
    def alloc(self, eng, st, i, name, args):
        how = ALLOC[name]
        if how == 's': size = None
        elif isinstance(how, tuple):
            a, b = args[how[0]], args[how[1]]
            size = a.scale(b.c) if b.isconst() else (b.scale(a.c) if a.isconst() else eng.opaque(st, 'mul64', None, [a, b], 0, 1 << 62))
        else: size = args[how]
        if how == 1: self.realloc(eng, st, i, args)
        s0 = st.copy(); s0.vals[i.dst] = ZERO
        if size is None:
            sl = eng.opaque(st, 'strlen', None, [args[0]], 0, 1 << 40); size = sl.plus(1)
        nm = eng.variant('M:%s' % i.dst, ('size', size))
        eng._killatom(st, nm)
        for k in [k for k in st.mem if k[0] != 'pure' and eng.base(k[0])[0] == nm]: del st.mem[k]
        v = eng.mk(nm, kind='obj', lo=4096, hi=absint.BIGP, deps=[i.dst])
        eng.ainfo[nm]['size'] = size; eng.ainfo[nm]['alloc'] = name
        st.vals[i.dst] = v
        return [st, s0]
    def realloc(self, eng, st, i, args): pass
    def call(self, eng, st, i, name, args):
        if name in ALLOC and i.dst: return self.alloc(eng, st, i, name, args)
        if name in FREE: return [st]
        if name is None and i.dst and i.ty.k == 'int':
            ts = self.srv.mr.indirect_targets(i); rs = [self.srv.retrange(t) for t in ts]
            if ts and all(rs):
                eng.clobber(st, i, None, args)
                v = eng.fresh_result(st, i)
                eng.assume(st, const(min(r[0] for r in rs)).sub(v)); eng.assume(st, v.sub(const(max(r[1] for r in rs))))
                return [st]
        return None
