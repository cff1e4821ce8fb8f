"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
def P(id, title, statement, over, q, why, files, mech, level, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, level=level, **kw))

P('C01', 'Tag reads and writes are exact and stay inside the tag',
  'A read of a tag returns exactly the bytes last written to that range (zero if never written), a write changes exactly the bytes it names, and neither touches or reveals any other tag, whatever index, offset, size and contents the request has. '
  'A request whose range is not entirely inside an existing tag, or that names an index that does not exist or was deleted, is answered with an error and changes nothing.',
  ['inputs'], 'every tag type and size, every 32-bit index, offset and size, every content',
  'Tests use a few offsets inside and just outside a tag; the guarantee is about every 32-bit offset/size combination, including negative and wrapping ones.',
  ['src/server/tagbase.c', 'src/server/message.c'], [('tag_read/tag_write bounds checks', 'src/server/tagbase.c'), ('msg_tag_read/msg_tag_write', 'src/server/message.c')],
  'Every offset/size/content for tags up to 16 bytes.')
P('C02', 'A masked write changes exactly the bits selected by the mask',
  'A masked write sets exactly the bits of the addressed bytes whose mask bit is one to the corresponding data bits and leaves every other bit of the tag and of all other tags as it was. '
  'Requests that reach outside the tag or that do not carry as much mask as data are answered with an error and change nothing.',
  ['inputs'], 'every mask, data, offset and size', 'Tests try a handful of masks and offsets.',
  ['src/server/tagbase.c', 'src/server/message.c'], [('tag_mask_write', 'src/server/tagbase.c'), ('msg_tag_mask_write', 'src/server/message.c')],
  'Every mask, data and offset for tags up to 8 bytes.')
P('C03', 'Read only and owned tags change only through the module that owns them',
  'No request of any kind - write, masked write, atomic operation, group write, mapping, tag creation or deletion - lets a module change or delete a system tag or a read only tag that it does not own, while the owner of a read only tag can still write it. '
  'Names beginning with an underscore are reserved: modules cannot create them. Of its own module tag a module, and only that module, can change nothing but the fields meant for writing.',
  ['inputs', 'histories'], 'every kind of request, every system tag, every offset, content and attribute value, owner and other modules',
  'Tests write to a few system tags with the plain write request only.',
  ['src/server/message.c', 'src/server/tagbase.c', 'src/server/groups.c', 'src/server/mapping.c'], [('is_tag_readonly / is_tag_owned checks in each message handler', 'src/server/message.c'), ('group_write / group_mask_write', 'src/server/groups.c')],
  'Every system tag, an owned read only tag, every offset and content.')
P('C04', 'Atomic operations compute exactly the stated function of the current value',
  'An atomic increment, decrement, NOT, OR, AND, NOR, NAND, XOR or XNOR request replaces each addressed item (or BOOL bit) by exactly that function of its current value and the operand, in the arithmetic of its data type, and leaves every other bit as it was. '
  'Operations that do not exist for the data type, or whose range or operand is not complete, are answered with an error and change nothing.',
  ['inputs'], 'all operations x all data types x all values, operands, offsets, counts and bit offsets',
  'Tests apply each operation to a few values at aligned offsets.',
  ['src/server/atomic.c', 'src/server/message.c'], [('atomic_op', 'src/server/atomic.c'), ('msg_atomic_op', 'src/server/message.c')],
  'All values for up to 31 BOOLs and short vectors of each type.')
P('C05', 'Overrides mask reads without disturbing the data behind them',
  'While an override is set, reads see the override value on exactly the overridden bits and the underlying data on all others; writes continue to update the underlying data, which reappears unchanged when the override is cleared or removed. '
  'Installing, enabling, disabling and removing overrides never affects other bits or other tags, and the server\'s override counters always equal the number of tags with an override installed and set.',
  ['histories', 'inputs'], 'every history of install/remove/enable/disable/write requests with every value and mask',
  'Tests follow a few fixed sequences with fixed masks.',
  ['src/server/tagbase.c', 'src/server/message.c'], [('override_add/override_del/override_set/override_get', 'src/server/tagbase.c')],
  'Every history of 4 (quick) or 6 (thorough) requests on a 2-byte tag.')
P('C06', 'Every event notification is sent exactly when its condition occurs',
  'A subscription to WRITE, CHANGE, SET, RESET, EQUAL, GREATER, LESS or DEADBAND events is notified exactly once for each write that makes its condition come true for the items it covers, and never otherwise: WRITE when its bytes are written, CHANGE when their value changes, SET/RESET when a bit becomes set/reset, EQUAL/GREATER/LESS when an item comes to satisfy the comparison in the arithmetic of its type, DEADBAND when an item has moved by at least the deadband since it was last reported. '
  'This holds whatever request does the writing (write, masked write, atomic operation, group write or mapping). Notifications go to the subscriber, identify the tag and the subscription, and carry the new data if that option is set.',
  ['histories', 'inputs'], 'every data type, every limit, every sequence of writes of every value, complete or partial',
  'Tests write a few chosen values to each type; comparisons, edges and partial writes depend on all values and on the history.',
  ['src/server/events.c', 'src/server/tagbase.c'], [('event_check, _event_hit', 'src/server/events.c'), ('event_check calls in tag_write/tag_mask_write', 'src/server/tagbase.c')],
  'Every history of 2 writes to 3 items of each of the 15 types or 20 BOOLs.')
P('C07', 'Event subscriptions exist exactly from when they are added until deleted',
  'A request to subscribe to an event is accepted exactly when it describes data of an existing tag, and gets an id that no other live subscription of the tag has. From then on until its own module deletes it, or the tag or the module goes away, it is notified, '
  'whatever other subscriptions are added or deleted in any order; afterwards it is never notified again. Only the module that made a subscription can delete it or change its options, and subscribers to DELETED are told when the tag is deleted.',
  ['histories', 'inputs'], 'every history of add/delete/option/write requests of two modules, every id, offset, count, size, bit and kind in a request',
  'Tests delete events in one order and use well formed requests; list handling depends on the order, and every malformed request has to be refused.',
  ['src/server/events.c', 'src/server/message.c'], [('event_add, event_del, event_opt, events_del_all', 'src/server/events.c'), ('msg_evnt_add', 'src/server/message.c')],
  'Every history of 3 (quick) or 5 (thorough) requests on 4 subscriptions; every value of each field of the request.')
P('C08', 'Mappings copy exactly the mapped data on every write of the source',
  'After every write, masked write or atomic operation that touches the source of a mapping, the destination area equals the source area, bit for bit, and nothing else of the destination has changed; writes that do not touch the source, and deleted mappings, have no effect. '
  'A mapping that is not completely inside its source and destination tags is refused, mappings can be read back and deleted individually, and a mapping ends when either of its tags is deleted.',
  ['histories', 'inputs'], 'every history of writes, masked writes, atomic operations and deletions; every index, offset, size, count and bit in a request',
  'Tests map a few aligned ranges; bit-shifted mappings, partial writes and deletions depend on all contents and orders.',
  ['src/server/mapping.c', 'src/server/tagbase.c'], [('map_add, map_del, map_check, map_del_all', 'src/server/mapping.c'), ('map_check calls in tag_write/tag_mask_write', 'src/server/tagbase.c')],
  'Every history of 2 or 3 (quick), 4 or 5 (thorough) requests on tags of up to 6 bytes; every field of the request.')
P('C09', 'Tag names and indexes identify tags uniquely and for ever',
  'Every legal name can be created, every illegal name, unknown type and impossible count is refused. A name leads to its own tag and to no other, by name and by index, after any history of creations and deletions and however often the database has grown; '
  'creating an existing name of the same type returns the existing tag, growing it if asked to without losing its data, and never an alias of another tag. A new tag reads as zero, and the index of a deleted tag is never used again.',
  ['inputs', 'histories'], 'every name, type and count; histories of adding and deleting tags; lookups of any name and any index',
  'Tests add tags with sequential names; the sorted index and the growth of the database depend on the order of insertions and deletions.',
  ['src/server/tagbase.c', 'src/server/message.c'], [('tag_add, tag_del, _add_index, _del_index, _get_by_name, _database_grow', 'src/server/tagbase.c'), ('msg_tag_add, msg_tag_get', 'src/server/message.c')],
  'Lookups of every name of up to 2 characters and every 32-bit index after four histories which insert and delete at each position of the index and grow the database; every illegal name of 3 characters, type and count.')
P('C10', 'The system status tags always tell the truth',
  '_tagcount is the number of existing tags, _lastindex the index of the newest one, _dbsize the size of the database, _starttime the time the server started, _lastmodule the tag of the module that registered last, and _tag_added and _tag_deleted describe the tag last added, grown or deleted. '
  '_time reads as the current time and _my_tagname as the name of the reading module\'s own tag, for every offset and size; reads outside of them are refused.',
  ['histories', 'inputs'], 'after every step of a history of adding and deleting tags; every time of the clock, every offset and size',
  'Tests read each status tag once or twice, whole.',
  ['src/server/tagbase.c', 'src/server/virtualtag.c', 'src/server/module.c'], [('tag_add/tag_del status updates', 'src/server/tagbase.c'), ('server_time, get_module_tag_name', 'src/server/virtualtag.c')],
  'Every step of the histories of C09; every time, offset and size for the virtual tags.')
P('C11', 'Compound types are exactly what was defined',
  'A definition is accepted exactly when it is well formed - legal names, existing member types, positive counts, distinct members, at least one, a size that can be handled - and its name is new or it repeats the definition of the existing type, which is then the type returned; a refused definition changes nothing. '
  'Every type can be looked up by name and by number with the definition it was created with, and no two types share a number. '
  'A tag of a compound type is exactly as big as its members need: BOOLs are packed bit by bit, every other member starts at the next whole byte.',
  ['inputs', 'histories'], 'every name, every count, every order of member kinds within the bounds; sequences of definitions',
  'Tests define a few types with fixed members; the size depends on every count and on the order of the members.',
  ['src/server/tagbase.c', 'src/server/message.c'], [('cdt_create, cdt_append, serialize_datatype, type_size', 'src/server/tagbase.c'), ('msg_cdt_create, msg_cdt_get', 'src/server/message.c')],
  'Any type or member name of 2 or 3 characters; counts of up to 8 digits in 5 layouts; 46 fixed definitions, nested and malformed ones included.')
P('C12', 'Queue tags deliver what was written, once and in order',
  'Every read of a queue tag returns the oldest value that was written to it and not yet read, exactly as it was written, and every written value is delivered exactly once, no matter how many are waiting and how reads and writes alternate; an empty queue answers with an error. '
  'Every write is notified to the WRITE subscribers. A queue is read and written only as a whole: requests with any other offset or size, masked writes, atomic operations and overrides are refused and change nothing, and queues do not affect each other or other tags.',
  ['histories', 'inputs'], 'every content, histories of reads and writes that wrap around and grow the queue, every offset and size',
  'Tests write and read a few entries; loss or reordering depends on how full the queue is and where it wraps when it grows.',
  ['src/server/virtualtag.c', 'src/server/tagbase.c'], [('write_queue, read_queue', 'src/server/virtualtag.c'), ('_queue_add, tag_del', 'src/server/tagbase.c')],
  'Any data; 6 (quick) or 8 (thorough) histories of up to 92 reads and writes, every offset and size of a request.')
P('C13', 'Retained tags survive a restart with their last data',
  'At every moment the retention database holds exactly the tags that were added with the retain attribute and not deleted, with their current type, count and data, whatever request last changed the data (write, masked write, atomic operation, group write, mapping). '
  'A server that starts with a retention database has each of those tags with that type, count and data before any module is served, and when a module adds such a tag again as retained it keeps the data and is retained from then on. Tags that are not retained are never stored.',
  ['histories', 'inputs', 'crash_points'], 'every content and offset, histories of every kind of write; the state after each request is what a crash leaves behind',
  'Tests stop and start the server with a few values; a write path that does not update the database, or a row of the wrong tag, shows only after a restart at that point.',
  ['src/server/retain.c', 'src/server/tagbase.c'], [('ret_init, ret_add_tag, ret_del_tag, ret_tag_write', 'src/server/retain.c'), ('calls in tag_add, tag_del, tag_write, tag_mask_write', 'src/server/tagbase.c')],
  'Every history of 2 (quick) or 3 (thorough) requests of 6 kinds, any data; SQLite is replaced by a stand-in that executes the statements of retain.c on two tables.',
  how='The state after every request is checked and, separately, a start from a database with any data, so a restart after any request is covered by composition.')
P('C14', 'Messages are framed correctly however the bytes of a connection arrive',
  'Whatever pieces the bytes sent by several clients arrive in, and in whatever order, every message is processed exactly once, complete and unaltered, in the order in which its client sent it and as soon as its last byte has arrived, and is never mixed with bytes of another connection. '
  'Garbage never makes the server read or write outside its buffers, a message size that is not possible is never accepted, and after such a connection is closed the next one starts clean.',
  ['schedules', 'inputs'], 'every split of the byte streams into reads, interleavings of two clients, every message size; any bytes',
  'Tests use a socket pair on a local machine, where nearly every read returns one whole message.',
  ['src/server/buffer.c'], [('buff_read, find_buff_slot, buff_free', 'src/server/buffer.c')],
  'Two messages in 3 (quick) to 6 (thorough) reads of any length, or two clients in 4 or 5; any three chunks of 16 bytes.')
P('C15', 'A bad request is answered and changes nothing',
  'A request that is shorter than its command needs, from a module or from a connection that never registered, is answered exactly once, to the connection it came from, with an answer to that command (the two commands that are never answered excepted); '
  'a command that does not exist is rejected without an answer. '
  'Neither reads or writes memory that is not part of the message and the data it names, neither changes any other tag or notifies anyone about it, and the server goes on to serve the next requests as before.',
  ['inputs'], 'every content of the short payload, every 32-bit command number that does not exist',
  'The client library never sends such messages, so tests cannot; each command has a handler of its own with its own missing checks.',
  ['src/server/message.c'], [('msg_dispatcher and every msg_* handler', 'src/server/message.c')],
  'For each command an empty payload and one to three partial ones, any content (the tag index fixed where data would be reached); every other 32-bit command.')
P('C16', 'Groups read and write exactly the data of their members',
  'Reading a group returns the current data of its members, one after the other, and writing it stores the data in exactly the members (of a BOOL member exactly its bits); every other byte and bit of every tag stays as it was. '
  'A group is an index given to the module that added it: it works until that module deletes it, no matter what other groups are added and deleted, two live groups of a module never have the same index, and no other module can use it. '
  'Requests about groups that do not exist, groups whose members are not inside existing tags, writes with too little data, incomplete requests and groups too big for a message are answered with an error.',
  ['histories', 'inputs'], 'every group index, member index, offset and size, every content, histories of additions and deletions by two modules',
  'Tests create a few groups with valid members in one order.',
  ['src/server/groups.c', 'src/server/message.c'], [('group_add, group_del, group_read, group_write', 'src/server/groups.c'), ('msg_group_add ... msg_group_write', 'src/server/message.c')],
  'Every 32-bit index, offset and group index, any data; 4 histories of up to 9 additions and deletions, 17 groups.')
P('C17', 'A module that goes leaves nothing behind but its plain tags',
  'When the connection of a module ends, or its descriptor is registered again, its module tag and every tag it owns are deleted (and their deletion is notified), its subscriptions are never notified again and its groups are gone; '
  'plain tags, mappings and everything that belongs to other modules - tags, data, ownership, subscriptions, groups - are as they were. '
  'Every registered module, whatever its name and whoever came and went before, has a module tag of its own that no other module has and starts without groups and subscriptions.',
  ['histories', 'inputs'], 'every content; several orders in which modules with equal and different names come and go',
  'Tests disconnect one module at the end; what is left over shows only when others continue, in a particular order, or when a descriptor is reused.',
  ['src/server/module.c', 'src/server/message.c', 'src/server/events.c', 'src/server/groups.c'], [('module_register, module_unregister', 'src/server/module.c'), ('msg_receive, msg_del_fd', 'src/server/message.c'), ('events_cleanup', 'src/server/events.c')],
  'Any data; 4 scenarios with every kind of resource and 4 orders of up to 9 arrivals and departures.')
P('C18', 'Client reads and writes transfer exactly the data the handle names',
  'A read, write or masked write through a handle transfers exactly the items the handle names, for every type, compound or nested, and for bits at any bit position, and changes no neighbouring bit or byte; a request too big for one message is split into several in order without tearing an item. '
  'Reading, writing and deleting a tag group passes exactly its members, in order, each to and from its own place in the buffer. '
  'The caller\'s buffer is never overrun and left alone by a write, the error of the server is returned, and the client stays usable: no lock stays taken.',
  ['inputs', 'fault_sequences'], 'every content and data, every bit offset, byte offset and tag, a failure of the server at any request',
  'Tests write and read back with aligned handles that fit into one message; the neighbours and the split points are never looked at.',
  ['src/lib/libdata.c', 'src/lib/libmsg.c'], [('dax_tag_read, dax_tag_write, dax_tag_mask', 'src/lib/libdata.c'), ('dax_read, dax_write, dax_mask, dax_group_*', 'src/lib/libmsg.c')],
  'Any content, data, tag and offset; up to 200 bits or 42 bytes, messages of 20 to 102 bytes, groups of 1 and 4 members.')
P('C19', 'A handle names exactly the data its tag name says',
  'A name - tag, index, member, member of member, bit - and a number of items give a handle that starts at exactly the byte and bit where that data is stored, has its type, the number of items asked for and the size they take. '
  'A name of data that does not exist - no such member, an index or a bit or a number of items outside the tag or member, a member of a plain tag, a bit of a float - is refused.',
  ['inputs'], 'every number of items asked for and every size of the tag, for names of every form',
  'Tests look up a list of names with one number of items each; alignment of what follows BOOL members, and the limits, depend on the combination.',
  ['src/lib/libcdt.c'], [('dax_tag_handle, _parse_next_member, _parse_bit_index', 'src/lib/libcdt.c'), ('_get_index, _split_tagname', 'src/lib/libcdt.c')],
  'Any 32-bit count, tags of 1 to 100000 items; about 120 names over 7 types and a three-level compound type.')
P('C20', 'Client calls send exactly what was asked and return the server\'s answer',
  'Every call of the client library - adding, deleting and finding tags, events, mappings, overrides, atomic operations, compound types - sends exactly one request that is complete and says exactly what the caller passed, or none when the arguments are refused. '
  'The caller gets exactly what the server answers: the id, tag, handles, data or type on success, the very error code on an error, a timeout when there is no answer and an error when the answer is one to something else; nothing is filled in on an error. '
  'No buffer is overrun, no lock stays taken and no old answer is left behind.',
  ['inputs', 'fault_sequences'], 'every argument value and every answer: success with any content, any error, an answer to something else, none',
  'Tests talk to a real server that answers well formed requests; wrong answers, timeouts and odd arguments do not occur.',
  ['src/lib/libmsg.c'], [('dax_tag_add ... dax_group_del', 'src/lib/libmsg.c'), ('_message_send, _message_recv', 'src/lib/libmsg.c')],
  'Any argument values and answers; names of 0 to 33 characters, up to 40 bits or 16 bytes of data, one compound type.')
P('C21', 'Answers and events reach whoever they are for, whatever the timing',
  'Messages from the server are understood however their bytes arrive - in pieces, with pauses and interruptions at any byte. '
  'Every request gets its own answer or a timeout: an answer that comes too late is never taken for the answer to a later request. '
  'Every event that arrives calls the callback of its own subscription once, in the order of arrival and with its own data and user data, the oldest ones being lost only when more than 8 wait; deleted subscriptions call nothing and their user data is given back once; waiting takes as long as it was asked to.',
  ['schedules', 'histories', 'inputs'], 'pauses and signals at every byte, answers late or in time in every combination of 3, any data, ids and times',
  'Tests run on a local socket where every message arrives whole and at once.',
  ['src/lib/libmsg.c', 'src/lib/libevent.c'], [('_message_get, _read_next_message, _message_recv', 'src/lib/libmsg.c'), ('dax_event_poll, dax_event_wait, dispatch_event, add_event, del_event', 'src/lib/libevent.c')],
  'Two messages of up to 19 bytes, pieces of 1, 3, 7 or all bytes; 4 requests; 5 subscriptions, 7 histories of up to 18 steps; timeouts from 1 ms to 30 s at any time.')
P('C22', 'What the client remembers about tags is never wrong',
  'Whatever was looked up, added, deleted or found deleted before, and however many tags the client may remember, a tag looked up by name or by index is the one the server has: its index, name, type, number of items and attributes. '
  'A tag that this client deleted, or learned to be deleted, is not found any more, and the client never remembers more tags than it is allowed to.',
  ['histories', 'inputs'], 'any types, counts and attributes over histories of lookups, additions and deletions with a small and a large memory',
  'Tests look tags up right after adding them; wrong memories show only in particular orders with a full memory.',
  ['src/lib/libdata.c', 'src/lib/libmsg.c'], [('check_cache_name, check_cache_index, cache_tag_add, cache_tag_del, _cache_hit', 'src/lib/libdata.c'), ('dax_tag_byname, dax_tag_byindex, dax_tag_add, dax_tag_del', 'src/lib/libmsg.c')],
  '10 histories of up to 23 steps on 6 tags, at most 0, 1, 2, 3, 4 or 8 of them remembered.')
