prop('S01', 'A request touches only bytes inside of existing tags',
     'Whatever index, offset, size and count the bytes of a request name, the server reads and writes tag values and override data only inside of a tag that exists and only inside of the size of that tag. A tag that is created or grown gets a value large enough for all of its elements, override data is always as large as the value, and the functions behind a virtual tag are never read or overwritten as if they were a value.',
     ['inputs', 'histories'], 'every request (any bytes, any length), every database content, every order of requests',
     'Tests use a few in-range and out-of-range offsets for some of the requests; index, offset and size are 32 bit quantities with wrap-around, in every request type.',
     [S+'tagbase.c', S+'message.c', S+'groups.c', S+'atomic.c', S+'virtualtag.c', S+'retain.c'],
     [('range tests in tag_read, tag_write, tag_mask_write', S+'tagbase.c'), ('tag_get_size', S+'tagbase.c'), ('allocation in tag_add', S+'tagbase.c')],
     'Abstract interpretation with linear constraints: bounds obligation at every access to tag memory and at every allocation',
     'Proof over all paths of all handlers and of the retention functions. The walk of event_check and map_check over single bits of a tag is not covered. Tags below 256 MiB.' + TB)
LB = 'src/lib/'
prop('L01', 'The library and modules never block themselves on their own locks',
     'No function of the client library, thread, callback or main function of a module ever waits for a lock that its own thread already holds (unless the lock allows it), releases a lock it does not hold, or returns or jumps out while it still holds one, whatever fails on the way. Locks are nested in one order only, callbacks of the user are not called with a lock held that they would need, and no wake-up is lost: a thread waits only after it has looked at the condition it waits for under the lock, and a new reply or event is always signalled.',
     ['inputs', 'schedules', 'histories'], 'every path through every API function, thread and callback, every error of a called function, every number of threads',
     'Tests use one thread per connection and rarely reach error paths (memory, lost connection, refused requests); a lock that is kept blocks only the next thread.',
     [LB+'libmsg.c', LB+'libevent.c', LB+'libdata.c', LB+'libinit.c', 'src/modules/daxlua/threads.c', 'src/modules/daxlua/scripts.c', 'src/modules/modbus/modbus.c', 'src/modules/modbus/modmain.c'],
     [('lock, msg_lock, event_lock of dax_state', LB+'libdax.h'), ('q_lock', 'src/modules/daxlua/threads.c'), ('send_lock, port_lock', 'src/modules/modbus/modbus.c')],
     'interprocedural lock typestate (property simulation on LLVM IR) and lock-order graph', 'Proof over all paths; objects of one type are treated as one; locks inside of other libraries are not seen.')
prop('L02', 'Threads that share a connection get their own replies and a sound cache',
     'However many threads use one connection, a request is sent only when no other request is waiting for its reply, and nobody else can send before the thread has taken its reply or reported failure. The pending reply, the queue of received events, the table of event callbacks and the tag cache of a connection are read and changed only under the lock that protects them, as are the indices of the script queue of daxlua.',
     ['schedules', 'histories'], 'every interleaving of any number of threads calling any API functions',
     'Tests are single threaded or sample a few interleavings; a race shows only in rare schedules.',
     [LB+'libmsg.c', LB+'libevent.c', LB+'libdata.c', 'src/modules/daxlua/threads.c'],
     [('request under ds->lock', LB+'libmsg.c'), ('event queue', LB+'libevent.c'), ('tag cache', LB+'libdata.c')],
     'guarded-by analysis and request/reply typestate (property simulation on LLVM IR)', 'Proof over all paths. Not covered: the table of datatypes, replies that come after their request has timed out.')
prop('L04', 'A library call asks for what its caller asked and returns the answer',
     'Every function of the library that makes a request sends the right request, once, with each parameter of the caller (tag, byte, bit, count, size, type, options, name, every byte of the data, mask or event data, every member of a group, source and destination of a mapping, number of an event or mapping) at its own place in the message and complete. What it returns (index, type, count and attributes and name of a tag, the handles of a mapping, the number of a new event, mapping or group, every byte that was read) comes from its own place in the reply, and it reports an error when sending or receiving failed. What the library remembers of a tag is what the server last said of it: it remembers nothing else, and forgets a tag that was added again, was removed, or turns out to be deleted when it is read or written.',
     ['inputs', 'faults'], 'every parameter value, every size of data up to the size of a message, every reply, every failure of sending or receiving',
     'Tests use handles whose fields are mostly zero or equal (bit 0, byte 0, same size at both ends), so that swapped, missing or truncated fields make no difference; long data and members after the first few are not looked at.',
     [LB+'libmsg.c', LB+'libdata.c'],
     [('dax_tag_add, dax_tag_byname, dax_tag_byindex, dax_read, dax_write, dax_mask, dax_atomic_op, dax_event_*, dax_map_*, dax_group_*, dax_tag_*_override', LB+'libmsg.c')],
     'Abstract interpretation with an arbitrary byte (and member) N of each data block followed from the caller to the message and from the reply to the caller (LLVM IR)', 'Proof over all paths of 23 functions. Not covered: requests about datatypes, building of override masks for single bits, the conversion between wire and memory format of events and groups (the same on one machine), the list that the cache of tags is kept in, changes that other modules make to a tag that is remembered.')
prop('L05', 'A library call reports success only when the server confirmed it',
     'When a request cannot be sent, when no reply arrives in time, when the reply belongs to another command or when the server answers with an error, the library function that made the request returns an error (a null handle or type zero where it returns those) and not success.',
     ['inputs', 'faults'], 'every API function, every failure of every request it makes, every reply',
     'Tests look at the results of successful requests and of a few refused ones; failures in the middle of functions that make several requests are not reached.',
     [LB+'libmsg.c', LB+'libdata.c', LB+'libcdt.c'],
     [('_message_send, _message_recv', LB+'libmsg.c')],
     'error-propagation typestate over all paths (property simulation on LLVM IR)', 'Proof over all paths. The registration in dax_connect() and errors that are passed on through pointers are not followed.')
prop('T01', 'Data is treated with the width, kind and sign of its type',
     'Wherever the server, the library, daxc or a module handles a value according to the data type of its tag (comparison and deadband events, atomic operations, conversion between tag, wire, text, Lua and log formats), it reads and writes exactly as many bytes as that type has, treats it as integer or floating point as the type says and as signed or unsigned as the type says, for each of the 16 base types, and no base type is left out where its relatives are handled.',
     ['inputs'], 'every function that selects by data type, each of the 16 base types, every value',
     'Tests try a few types with small positive values; a wrong width or sign shows only for large or negative values of that one type.',
     ['src/server/events.c', 'src/server/atomic.c', LB+'libfunc.c', LB+'libdata.c', LB+'libconv.c', 'src/modules/daxlua/luaif.c', 'src/modules/histlog', 'src/modules/daxc'],
     [('_generic_compare, _generic_deadband', 'src/server/events.c'), ('dax_val_to_string, dax_string_to_val', LB+'libfunc.c'), ('atomic operations', 'src/server/atomic.c')],
     'type-directed analysis: each type-selecting function is specialised for each of the 16 types and its memory accesses, comparisons and conversions are checked against the type', 'Proof for the width, kind and sign of accesses, comparisons, conversions and formats in functions that switch over the type. The arithmetic itself (deadband, clamping limits) is not judged.')
prop('P01', 'Processes run only with the user and group they are configured for',
     'The master executes a configured process only after it has that group and user (group first), and not at all when the name of the user or group does not exist or the change is refused. After fork() only one of the two processes goes on in the code of the master. A module that is told to give up its privileges does so group first, and does not go on when it fails.',
     ['inputs', 'faults'], 'every configuration, every failure of a system call, every path to the execution of a program',
     'The tests run everything as one user; failures of setuid(), setgid() and account lookups never happen in them.',
     ['src/master/process.c', 'src/master/mstr_config.c', 'src/master/daemon.c', 'src/modules/modbus/modmain.c'],
     [('process_start, _set_user_group', 'src/master/process.c'), ('_set_uid_gid', 'src/master/mstr_config.c')],
     'privilege typestate over all paths (property simulation on LLVM IR)', 'Proof over all paths of the functions that change ids, fork or execute. Supplementary groups are not covered.')
prop('P02', 'The master notices every exit and signals only its own running processes',
     'Whatever number of processes exit at whatever time, each exit is found in the list of processes and recorded there (no longer running, dead, with its exit status), however the processes stand in the list and whatever state they were in. The master keeps the id of each process it starts, forgets it only when that process has exited, starts a process again only when it is dead, never blocks waiting for an exit, and never signals anything but a running process of its own (other than all of them when it ends).',
     ['schedules', 'histories'], 'every number and order of exits, every process list, every state of the processes',
     'No test starts the master with processes; simultaneous exits and exits in odd states cannot be arranged reliably.',
     ['src/master/process.c', 'src/master/master.c'],
     [('process_scan, _cleanup_process, _get_process_pid', 'src/master/process.c')],
     'typestate over all paths with list-walk and pointer facts (abstract interpretation of LLVM IR)', 'Proof over all paths. When a dead process is started again (delays) is not covered.')
prop('M01', 'The Modbus module stays inside its buffers whatever its peers send',
     'Whatever bytes a Modbus master, client, slave or server on the other side sends, in whatever pieces, however commands, registers, ports and tags are configured and whatever size the tags have, the Modbus module never reads or writes outside of its message buffers, its command data, its connection pool, its table of nodes or any other buffer it has.',
     ['inputs', 'histories', 'faults'], 'every request and response, every split of the stream, every configuration, every size of a tag',
     'The tests send well formed requests; over-long counts, split messages, resets and full connection pools are not among them, and an overrun rarely crashes at once.',
     ['src/modules/modbus/modbus.c', 'src/modules/modbus/mbserver.c', 'src/modules/modbus/mbslave.c', 'src/modules/modbus/mbclient.c', 'src/modules/modbus/mbports.c', 'src/modules/modbus/modmain.c', 'src/modules/modbus/mbcmds.c'],
     [('create_response', 'src/modules/modbus/modbus.c'), ('_mb_read', 'src/modules/modbus/mbserver.c'), ('sendRTUrequest, sendTCPrequest, handleresponse', 'src/modules/modbus/modbus.c')],
     'abstract interpretation with linear relations (bounds of every access) on LLVM IR', 'Proof for every access to a buffer of known size in the module. Assumes that strings end inside their buffers and that descriptors fit into an fd_set.')
prop('L03', 'The library stays inside its buffers and those of its callers',
     'Whatever arguments its functions get (names, sizes, handles, options), whatever the server answers and in whatever pieces it arrives, the client library, its logger and its Lua interface never read or write outside of the message buffers, tag and event tables, names, option tables or any other buffer they have. No message is built or accepted that is larger than a message can be.',
     ['inputs', 'histories', 'faults'], 'every call of every library function with any arguments, every reply and event of the server',
     'Tests use small tags, short names and well formed replies; an overrun of a few bytes rarely shows.',
     [LB+'libmsg.c', LB+'libevent.c', LB+'libdata.c', LB+'libcdt.c', LB+'libopt.c', LB+'libutil.c', 'src/lib/logger/daxlog.c', 'src/lib/lua/libdaxlua.c'],
     [('_message_send, _message_get, dax_mask, dax_group_write', LB+'libmsg.c'), ('add_event', LB+'libevent.c'), ('_add_service', 'src/lib/logger/daxlog.c')],
     'abstract interpretation with linear relations (bounds of every access) on LLVM IR', 'Proof for every access to a buffer of known size. Blocks that hold the data of a handle are not followed where they are converted element by element; sizes of user buffers are what the caller says.')
prop('P03', 'Signals do no harm and a request to stop is never lost',
     'Whenever a signal arrives, its handler does nothing that is unsafe in the middle of other code: it calls only async-signal-safe functions and changes only single integers. After SIGTERM, SIGINT or SIGQUIT every program that catches them (server, master, modules) ends: the request is kept, whatever other signals follow, and no loop of the main program waits again and again without honouring it. A peer that closes its connection does not end the server or the Modbus module with SIGPIPE.',
     ['schedules', 'faults'], 'every moment and order of signals, every path through handlers and main loops',
     'Signals arrive at arbitrary instructions; tests send one when the program is idle.',
     ['src/server/server.c', 'src/master/master.c', 'src/modules/modbus/modmain.c', 'src/modules/daxlua/daxlua.c', 'src/modules/mqtt/mqtt.c', 'src/modules/histlog/histlog.c'],
     [('quit_signal, catch_signal', 'src/server/server.c'), ('catchsignal', 'src/modules/modbus/modmain.c'), ('client_loop', 'src/modules/mqtt/mqtt.c')],
     'call-graph effect analysis of signal handlers, typestate of the stop flags and resolved control-flow cycles (LLVM IR)', 'Proof over all paths. A single call that never returns and the ends of other threads are not covered.')
prop('S02', 'Requests store and return exactly the bits they name',
     'A write stores, and a read returns, at each byte of the tag the byte of the request or reply that stands for it: byte n of the message for byte offset+n of the tag, for every offset and size. A masked write changes exactly the bits set in its mask; nothing outside of the range of the request changes. A read returns the override where the override mask has a bit set and the stored value elsewhere; adding, removing or asking for an override changes or returns exactly the bits of its mask, and leaves the value of the tag and the other bits of the override alone.',
     ['inputs', 'histories'], 'every tag, every byte of it, every offset and size, every previous value, mask and override',
     'Tests write a few small ranges with a few masks; an error for some offset, size, mask bit or second override of one byte is not sampled.',
     [S+'message.c', S+'tagbase.c'],
     [('tag_read, tag_write, tag_mask_write', S+'tagbase.c'), ('override_add, override_del, override_get', S+'tagbase.c'), ('msg_tag_read, msg_tag_write, msg_tag_mask_write', S+'message.c')],
     'Skolemised-byte abstract interpretation in which each byte carries its boolean function of the old value, the request, mask and override (LLVM IR)', 'Proof for plain tags over all paths of the six handlers. Tags whose value is computed by the server (virtual and special tags), group requests and atomic operations are not covered here.' + TB)
prop('S09', 'Messages cross the sockets whole and in order, in whatever pieces',
     'However the bytes of the requests, replies and events are cut into pieces by the sockets, and however the messages of several connections are interleaved, the receiver handles exactly the messages that were sent: each once, complete, in order, with exactly its size, command and data, as soon as all of it has arrived. What has arrived of an incomplete message is kept, for as long as it takes, for its own connection only, until the rest arrives or the connection closes; nothing of it is left for the next connection. A sender that reports success has written all of the message, header and data; an interruption by a signal or a short write never cuts or repeats a part of a message.',
     ['inputs', 'schedules', 'histories'], 'every size of every read and write, every interruption, every number of connections and of messages in the buffer, every pause',
     'Tests send whole messages over a local socket and get them in one piece; partial reads and writes, pauses in a message and several messages in one read are timing and are not sampled.',
     [S+'buffer.c', S+'message.c', S+'func.c', LB+'libmsg.c'],
     [('buff_read, find_buff_slot, buff_free, buff_freeall', S+'buffer.c'), ('msg_dispatcher, msg_del_fd, _message_send', S+'message.c'), ('xwrite', S+'func.c'), ('_message_send, _message_get', LB+'libmsg.c')],
     'Ghost stream positions through the loops of readers and writers (abstract interpretation with relational loop invariants, LLVM IR); ownership typestate for the list of buffers',
     'Proof over all paths of the named functions, for every result of read and write. A message with a bad size ends the framing of its connection (the rest cannot be found). Assumes the list of buffers is a list (no cycle).' + TB)

prop('S10', 'A connection is served until it ends, and then nothing of it is left',
     'Every connection that the server accepts is waited for from then on; whenever something has arrived on it, it is looked at in the same round, whatever other connections send and however their requests fail; it is given up when and only when its end was read. Then its descriptor is closed, and its module, the events and groups of the module and every tag that it owns are removed, whether it registered or not, so that a later connection with the same descriptor inherits nothing, and nothing of another connection is removed. No number of connections writes outside of a descriptor set. A module can remove or change only its own events, and only the connection that added a tag owns it.',
     ['schedules', 'histories', 'inputs'], 'every descriptor, every set of open connections, every order in which they send, fail and close, every tag, event list and ring of modules',
     'Tests have a few modules that connect and leave in one order, with success; the descriptor that is skipped, inherited or given up depends on which of them closes, and when.',
     [S+'message.c', S+'module.c', S+'events.c', S+'tagbase.c'],
     [('msg_receive, msg_add_fd, msg_del_fd, msg_setup', S+'message.c'), ('module_register, module_unregister, _get_module_fd, module_find_fd', S+'module.c'), ('events_cleanup, event_del', S+'events.c'), ('is_tag_owned, tag_add', S+'tagbase.c')],
     'Typestate of an arbitrary descriptor and of an arbitrary tag through the server loop and the clean-up (abstract interpretation with relational loop invariants, LLVM IR); list walks', 'Proof over all paths of the named functions. Assumes that descriptors opened at the start fit into a set, that the module ring is a ring and event lists are lists. Order and delay between connections that are ready at the same time are not covered.' + TB)

prop('S11', 'Adding or removing one event, mapping or module leaves the others alone',
     'A new event or mapping is in the list of its tag, before everything that was there, with exactly the range, type, options and owner that were asked for and with a number that no other entry of the tag has had; the result of the request is that number, and a request that fails adds nothing. Removing one takes exactly the entry with the number from the list and frees it; every other entry stays reachable in its order, and success is only reported when it was removed, not found only after the whole list was searched. Asking for one returns the entry with that number. Registering a module puts it between two neighbours of the ring of modules, removing one links its neighbours to each other; the ring never holds a freed module.',
     ['histories', 'inputs'], 'every list of events and mappings of every tag, every position of the entry in it, every ring of modules, every order of additions and removals',
     'Tests add one or two entries and remove them in one order; an entry in the middle, behind one of another module or at the end, which is lost, kept after it was freed or confused with another, needs a certain history.',
     [S+'events.c', S+'mapping.c', S+'module.c'],
     [('event_add, event_del, _find_event', S+'events.c'), ('map_add, map_del, map_get', S+'mapping.c'), ('module_add, module_del', S+'module.c')],
     'Shape analysis of list links: the one link that changes is related to the links read on the way (abstract interpretation over all paths, LLVM IR); walk coverage', 'Proof over all paths of the named functions. Assumes lists without cycles and fewer than 2^28 additions to one tag.' + TB)

prop('S08', 'A group reads and writes exactly its members, in order',
     'A group holds exactly the members that the request to add it listed, in that order, each with exactly its tag, byte, bit, count, size and type; its number is free or new in its module and no other group of the module changes when one is added or removed, however many there are. Reading or writing a group handles every member once, in order, with the data of each directly behind that of the one before, as the module that asked; the reply holds the data of all members, and no more. When a member cannot be read or written the request fails. A group that was removed or never added is not found. The members of read-only tags that the module does not own are not written, and mappings of every written member are carried out.',
     ['inputs', 'histories'], 'every number of groups and of members, every member, size and order, every history of additions and removals, every member that fails',
     'Tests read and write a few groups with a few members that all exist; a member that fails, is skipped, shifted or confused with one of another group needs a certain history.',
     [S+'groups.c', S+'message.c'],
     [('_group_add, group_add, group_del, group_read, group_write', S+'groups.c'), ('msg_group_add, msg_group_read, msg_group_write, msg_group_del', S+'message.c')],
     'Typestate of an arbitrary member through the loops over members (abstract interpretation with relational loop invariants, LLVM IR); frame conditions on the table of groups', 'Proof over all paths of the named functions. A write that fails at a member has already written those before it. What a member\'s read or write does to its tag is S02.' + TB)
prop('S12', 'The server does what a request names and answers with the result',
     'A request about tags, events, mappings or an atomic operation is carried out with exactly the parameters that it names, each taken whole from its own place in the message (name, type, count, attributes, index, byte, bit, size, numbers, options, operation and data), for the connection and module it came from. It is answered as a success exactly when it was carried out, and the answer holds the complete result: the index, number, tag or handles, each at its place. A request never adds or removes a tag whose name is reserved.',
     ['inputs'], 'every request to add, remove or look up a tag, to add, remove or change an event, to add, remove or look up a mapping, and every atomic operation; every content and length',
     'Tests use small values, few bits and mostly successful requests: a field that is cut to 16 bits, taken from its neighbour or left out makes no difference to them.',
     [S+'message.c'],
     [('msg_tag_add, msg_tag_del, msg_tag_get, msg_evnt_add, msg_evnt_del, msg_evnt_opt, msg_map_add, msg_map_del, msg_map_get, msg_atomic_op', S+'message.c')],
     'Abstract interpretation of each handler (LLVM IR) with provenance of every parameter and every byte of the reply', 'Proof over all paths of the ten handlers. What the working functions do is S01 to S06, S10 and S11; reads, writes and overrides are S02, groups S08. Bytes of a message behind its end, and requests about datatypes, are not covered.' + TB)
