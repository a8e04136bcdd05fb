"""M01: the Modbus module stays inside its buffers whatever its peers, its tags and its configuration contain."""
import bufs
EX = {'nodes': 'offsetof(mb_port,nodes)', 'nodesz': 'sizeof(mb_node_def)', 'maxnodes': 'MB_MAX_SLAVE_NODES', 'conn': 'offsetof(mb_port,connections)',
      'csize': 'offsetof(mb_port,connection_size)', 'ccount': 'offsetof(mb_port,connection_count)', 'connsz': 'sizeof(tcp_connection)',
      'data': 'offsetof(mb_cmd,data)', 'datasize': 'offsetof(mb_cmd,datasize)', 'frame': 'MB_FRAME_LEN', 'maxconn': 'MB_MAX_CONNECTION_SIZE',
      'bindex': 'offsetof(client_buffer,buffindex)', 'bsize': 'MB_BUFF_SIZE', 'hsize': 'offsetof(tag_handle,size)', 'hlen': 'sizeof(tag_handle)', 'dh': 'offsetof(mb_cmd,data_h.size)'}
class Modbus(bufs.Bufs):
    @classmethod
    def setup(k, c):
        k.sized = (('mb_port', c['conn'], c['csize'], 4, c['connsz']), ('mb_cmd', c['data'], c['datasize'], 4, 1))
        k.fixed = {('mb_port', c['nodes']): c['nodesz'] * c['maxnodes']}
        k.rels = (('mb_port', c['ccount'], c['csize'], 4), ('mb_cmd', c['dh'], c['datasize'], 4))
        k.ranges = {('mb_port', c['csize']): (1, 2 * c['maxconn']), ('mb_port', c['ccount']): (0, 2 * c['maxconn']), ('mb_cmd', c['datasize']): (0, (1 << 31) - 1), ('mb_cmd', c['dh']): (0, (1 << 31) - 1), ('client_buffer', c['bindex']): (0, c['bsize'])}
        k.contracts = {'getRTUresponse': {0: c['frame']}, 'getTCPresponse': {0: c['frame']}, 'getASCIIresponse': {0: c['frame']}, 'indata': {1: ('p', 2)}, 'outdata': {1: ('p', 2)}}
        k.hsize = c['hsize']; k.hlen = c['hlen']
TARGETS = {'modbus_module': (Modbus, ['modbus.h', 'opendax.h'], EX, {'client_loop', 'master_loop', 'server_loop', 'slave_loop', 'mb_send_command', 'mb_open_port', 'mb_close_port', '_mb_read'})}
def run(ctx): bufs.check(ctx, TARGETS)
