"""Harness registry: what each property runs, and within which bounds."""
DEFAULT_SOLVER = ['--sat-solver', 'cadical']

# loops of the C library models (concrete strings stop on their own)
LIBC_UNWIND = {k: 160 for k in ('strlen.0', 'strcmp.0', 'strncmp.0', 'strcasecmp.0', 'strncasecmp.0', 'strcpy.0', 'strncpy.0', 'strncpy.1',
               'strdup.0', 'strtok_r.0', 'strtok_r.1', 'vp_in.0', 'strchr.0', 'strrchr.0', 'strncat.0')}
LIBC_UNWIND['__ctype_b_loc.0'] = 130
LIBC_UNWIND.update({'vp_wr.0': 30, 'vp_wr.1': 30, 'vp_mwr.1': 30, 'vp_atomic.1': 30, 'vp_rd.1': 30, 'vp_evnt_add.1': 30,  'vp_mwr.0': 30, 'vp_atomic.0': 30, 'vp_rd.0': 30, 'vp_evnt_add.0': 30, 'vp_register.0': 40, 'vp_tag_add.0': 40, 'xwrite.0': 2, 'type_size': 2, 'vp_send.0': 70, 'vp_write.0': 70, 'vp_write.1': 70, 'vsnprintf.0': 300, 'vsnprintf.1': 300, 'vsnprintf.2': 300, 'vsnprintf.3': 300, 'vp_putd.0': 24, 'vp_putd.1': 24, 'vp_putd.2': 24, 'strnlen.0': 160, 'strtol.0': 20, 'strtol.1': 40, 'strncpy.0': 130, 'strncpy.1': 130, 'vp_memset.0': 200, 'memcmp.0': 100, 'vp_memcpy_bytes.0': 200, 'vp_memmove_bytes.0': 200, 'vp_memmove_bytes.1': 200})

UNITS = {
    'buffer': {'src': ['src/server/buffer.c'], 'inc': ['src/server']},
    'lib': {'src': ['src/lib/libmsg.c', 'src/lib/libdata.c', 'src/lib/libcdt.c', 'src/lib/libevent.c', 'src/lib/libconv.c'], 'inc': ['src/lib'], 'flags': ['-include', 'lib_env.h']},
    'libnm': {'src': ['src/lib/libdata.c', 'src/lib/libcdt.c', 'src/lib/libevent.c', 'src/lib/libconv.c'], 'inc': ['src/lib'], 'flags': ['-include', 'lib_env.h']},
    'server': {
        'src': ['src/server/*.c'],
        'exclude': ['src/server/server.c', 'src/server/options.c'],
        'inc': ['src/server'],
        'flags': ['-DHAVE_SQLITE'],
        'symflags': ['-DVP_SERVER'],
        'perfile': {'src/server/func.c': {'sym': ['-UVP_SERVER', '-Dxmalloc=orig_xmalloc', '-Dxcalloc=orig_xcalloc', '-Dxrealloc=orig_xrealloc']}},
    },
}

VIRTUAL = ['write_queue', 'read_queue', 'server_time', 'get_module_tag_name']
NORET = VIRTUAL + ['ret_add_tag', 'ret_del_tag', 'ret_tag_write']
NOEVT = ['_send_event', '_event_change', '_event_set', '_event_reset', '_event_compare', '_event_deadband', '_event_hit', '_free_event', '_free_map', 'special_tag_write']
_H = {}
_A = {}
def H(pid, name, src, units=('server',), defs=None, unwind=20, bounds='', tier='quick', **kw):
    d = {'DAX_TAGLIST_SIZE': 16, 'DAX_MSGMAX': 64}
    d.update(defs or {})
    if 'server' in units: kw.setdefault('unreached', VIRTUAL)
    h = dict(name=name, src=list(src), units=list(units), defs=d, unwind=unwind, bounds=bounds, tier=tier, **kw)
    _H.setdefault(pid, []).append(h)

def A(pid, *a):
    _A.setdefault(pid, []).extend(a)

def harnesses(pid, tier):
    hs = _H.get(pid, [])
    return [h for h in hs if h['tier'] in ('quick', 'both') or (h['tier'] == tier)] if tier == 'thorough' else [h for h in hs if h['tier'] in ('quick', 'both')]

COMMON = ['allocation does not fail', 'operating-system calls are the stubs of harness/server_env.c', 'C library string/memory functions are the byte-wise models of harness/vp_libc.c (real libc in replays)']
def assumptions(pid):
    return COMMON + _A.get(pid, [])

RECURSIVE = ['type_size']
S = 'server_env.c'
def rw(pid, op, n, ttype, count, nm, tier='quick', **kw):
    d = {'TTYPE': ttype, 'TCOUNT': count, 'N': n}
    if op != 'read': d['WR' if op == 'write' else 'MW'] = None
    d.update(kw.pop('xdefs', {}))
    H(pid, '%s_%s_%s' % (pid.lower(), op, nm), ['c01_rw.c', S], defs=d, tier=tier,
      bounds='%d x %s tag (%d bytes) with a neighbour on each side, any content, any 32-bit offset%s' % (count, ttype, n, ' and size' if op == 'read' else ', payload 0..%d bytes' % (n + 4 if op == 'write' else 2 * n + 2)), **kw)
for op in ('write', 'read'):
    rw('C01', op, 8, 'DAX_BYTE', 8, 'byte8')
    rw('C01', op, 8, 'DAX_DINT', 2, 'dint2')
    rw('C01', op, 2, 'DAX_BOOL', 13, 'bool13')
    rw('C01', op, 9, 'DAX_LREAL', 1, 'cdt', xdefs={'CDT': '"Ty:a,BOOL,5:b,INT,4"', 'TCOUNT': 1})
    rw('C01', op, 16, 'DAX_LREAL', 2, 'lreal2', tier='thorough', fs=2048)
for op in (0, 1, 2):
    H('C01', 'c01_badindex_%s' % ('read', 'write', 'mask')[op], ['c01_index.c', S], defs=dict({'OP': op}, ), bounds='every 32-bit index outside the table, any offset, 4 payload bytes')
    H('C01', 'c01_deleted_%s' % ('read', 'write', 'mask')[op], ['c01_index.c', S], defs={'OP': op, 'DELETED': None}, bounds='the index of a deleted tag, any offset, 4 payload bytes')
rw('C02', 'mask', 4, 'DAX_BYTE', 4, 'byte4')
rw('C02', 'mask', 4, 'DAX_INT', 2, 'int2')
rw('C02', 'mask', 2, 'DAX_BOOL', 13, 'bool13')
rw('C02', 'mask', 8, 'DAX_LINT', 1, 'lint1', tier='thorough')
H('C02', 'c02_long_byte', ['c02_long.c', S], unwind=42, bounds='20-byte tag, masked write of 0..18 bytes at offsets 0..2, any contents, data and mask')
H('C01', 'c01_long_byte', ['c02_long.c', S], unwind=42, defs={'PLAIN': None}, bounds='20-byte tag, write of 0..18 bytes at offsets 0..2, any contents and data')


OPN = ('write', 'mask', 'atomic', 'group')
for op in range(4):
    if op < 3: H('C03', 'c03_system_' + OPN[op], ['c03_ro.c', S], defs={'OP': op, 'KIND': 0}, unwind=50, bounds='each of the 11 system tags, 4 byte payload, any offset')
    else:
        for w in (0, 2, 5, 9): H('C03', 'c03_system_group%d' % w, ['c03_ro.c', S], defs={'OP': op, 'KIND': 0, 'WHICH': w}, unwind=50, bounds='system tag %d as the member of a group, any data' % w)
    H('C03', 'c03_owned_ro_' + OPN[op], ['c03_ro.c', S], defs={'OP': op, 'KIND': 1}, bounds='owned read only 8-byte tag, owner or another module, 4 byte payload, any offset')
    H('C03', 'c03_owned_' + OPN[op], ['c03_ro.c', S], defs={'OP': op, 'KIND': 2}, bounds='owned 8-byte tag, owner or another module, 4 byte payload, any offset', tier='thorough')
for c, b in enumerate(('any 3 character reserved name, any type, count, attributes', 'the 11 system tags', 'any attributes, count 1..8', 'each system tag and an owned read only tag as destination')):
    H('C03', 'c03_names_%d' % c, ['c03_names.c', S], defs={'CASE': c}, bounds=b)
for mk in (0, 1):
    H('C03', 'c03_modtag' + ('_mask' if mk else ''), ['c03_modtag.c', S], defs={'MASK': None} if mk else {}, unwind=80, bounds='any offset, 1..4 bytes, the module itself or another one')

for op, nm in enumerate(('inc', 'dec', 'not', 'or', 'and', 'nor', 'nand', 'xor', 'xnor')):
    H('C04', 'c04_bool_' + nm, ['c04_atomic.c', S], defs={'CASE': 0, 'OPR': 'ATOMIC_OP_' + nm.upper(), 'BYTEOFF': 1 if op % 2 else 0, 'MAXC': 10}, unwind=34, bounds='31 BOOLs, every bit offset 0..7 and count 1..10, any contents and operands')
for k, (lo, hi) in enumerate(((0, 4), (5, 9), (10, 10), (11, 13), (14, 14))):
    H('C04', 'c04_types_%d' % k, ['c04_atomic.c', S], defs={'CASE': 1, 'TLO': lo, 'THI': hi}, bounds='data types %d..%d of 15, every 16-bit operation code, any contents and operand' % (lo, hi))
for ty, sz in (('DAX_BYTE', 1), ('DAX_INT', 2), ('DAX_BOOL', 1)):
    H('C04', 'c04_range_' + ty[4:].lower(), ['c04_atomic.c', S], defs={'CASE': 2, 'TY': ty, 'TSZ': sz, 'MAXL': 2 if ty == 'DAX_BOOL' else 6}, bounds='10-byte tag, any 32-bit offset and count, any bit offset, 0..%d operand bytes' % (2 if ty == 'DAX_BOOL' else 6))

H('C04', 'c04_vector', ['c04_atomic.c', S], defs={'CASE': 3, 'TY': 'DAX_UINT', 'TSZ': 2}, unwind=40, bounds='2 or 3 UINTs at once, every 16-bit operation code, any contents and operands')
for k, tier in ((4, 'quick'), (6, 'thorough')):
    for ty, cnt in (('DAX_BYTE', 2), ('DAX_BOOL', 13)):
        H('C05', 'c05_hist%d_%s' % (k, ty[4:].lower()), ['c05_ovrd.c', S], defs={'K': k, 'TY': ty, 'CNT': cnt}, tier=tier, bounds='2-byte %s tag, every history of %d requests out of install (whole tag, or one byte at any offset), remove, enable, disable, write; any data and masks' % (ty[4:], k))

CTY = (('BYTE', 'uint8_t'), ('SINT', 'int8_t'), ('CHAR', 'int8_t'), ('WORD', 'uint16_t'), ('INT', 'int16_t'), ('UINT', 'uint16_t'), ('DWORD', 'uint32_t'), ('DINT', 'int32_t'),
       ('UDINT', 'uint32_t'), ('TIME', 'int64_t'), ('REAL', 'float'), ('LWORD', 'uint64_t'), ('LINT', 'int64_t'), ('ULINT', 'uint64_t'), ('LREAL', 'double'))
SZ = {'REAL': 4, 'LREAL': 8}
def cmp(ty, ct, ev, tier='quick', w=2, part=0):
    E = {'compare': 'EVENT_GREATER,EVENT_LESS' + ('' if 'REAL' in ty else ',EVENT_EQUAL'), 'deadband': 'EVENT_DEADBAND'}[ev]
    d = {'TY': 'DAX_' + ty, 'CT': ct, 'W': w, 'EVENTS': E}
    if 'REAL' in ty: d['ISREAL'] = None
    if ev == 'deadband' and 'REAL' in ty: d['ZLOW'] = SZ[ty] - 2
    if part: d.update(ANYOFF=None, PART=part)
    H('C06', 'c06_%s_%s%s' % (ev, ty.lower(), '_part%d' % part if part else ''), ['c06_cmp.c', S], defs=d, unwind=26, tier=tier, bounds='3 x %s, events on items 1..2, any limit and contents, every history of %d writes of %s' % (ty, w, '%d byte(s) at any offset' % part if part else 'one item') + (' (only the 2 most significant bytes of the numbers are non-zero)' if 'ZLOW' in d else ''))
cmp('REAL', 'float', 'deadband', w=1)
cmp('LREAL', 'double', 'deadband', w=1)
for ty, ct in CTY:
    for ev in ('compare', 'deadband'):
        if not (ev == 'deadband' and 'REAL' in ty): cmp(ty, ct, ev)
for ev in ('compare', 'deadband'): cmp('INT', 'int16_t', ev, part=1); cmp('INT', 'int16_t', ev, part=2, tier='thorough')
for ev in ('GREATER', 'DEADBAND', 'CHANGE'):
    H('C06', 'c06_many_' + ev.lower(), ['c06_many.c', S], defs={'ETYPE': 'EVENT_' + ev, 'W': 2}, unwind=40, bounds='18 BYTEs, event on items 1..17, any contents and limit, every history of 2 writes of 2 bytes at any offset')
for bo, bi, c in ((0, 3, 8), (1, 0, 1), (1, 7, 2), (0, 0, 20)):
    H('C06', 'c06_bool_%d_%d_%d' % (bo, bi, c), ['c06_bool.c', S], defs={'BYTEOFF': bo, 'BIT': bi, 'COUNT': c, 'W': 2}, unwind=26, bounds='20 BOOLs, events on %d bits from bit %d, every history of 2 writes / masked writes' % (c, bo * 8 + bi))
for p, nm in enumerate(('write', 'mask', 'atomic', 'group', 'mapped')):
    for ev in ('WRITE', 'CHANGE'):
        for mo in ((0,) if p < 3 else (1, 4)):
            d = {'PATH': p, 'ETYPE': 'EVENT_' + ev, 'MOFF': mo}
            if ev == 'CHANGE' or p == 0: d['SEND'] = None
            H('C06', 'c06_%s_by_%s%s' % (ev.lower(), nm, mo or ''), ['c06_paths.c', S], defs=d, unwind=26, bounds='event on bytes 2..4 of a 6-byte tag, 2 bytes written %s, any contents' % ('at any offset' if p < 3 else 'at offset %d' % mo))
for k, tier in ((3, 'quick'), (5, 'thorough')):
    H('C07', 'c07_life%d' % k, ['c07_life.c', S], defs={'K': k}, tier=tier, bounds='3 subscriptions of two modules on one tag and one on another; every history of %d requests (delete, change options, write) by either module with any 32-bit id' % k)
RSZ = {'BYTE': 1, 'INT': 2, 'DINT': 4, 'BOOL': 1}
for ty, cnt, rt, dl in (('BYTE', 4, 'BYTE', 1), ('INT', 2, 'INT', 2), ('INT', 2, 'BOOL', 0), ('BOOL', 25, 'BOOL', 0)):
    H('C07', 'c07_refuse_%s_%s' % (ty.lower(), rt.lower()), ['c07_add.c', S], defs={'TY': 'DAX_' + ty, 'CNT': cnt, 'REQTYPE': 'DAX_' + rt, 'REQBOOL': int(rt == 'BOOL'), 'DLEN': dl, 'TSZ': RSZ[rt]}, unwind=40, unreached=VIRTUAL + ['_set_event_data'], bounds='4-byte %s tag, requests with type %s: every combination of index, offset, count, size, bit and kind that does not describe data of the tag' % (ty, rt))
for ty, cnt, rt, dl, size, count, ev in (('BYTE', 4, 'BYTE', 1, 2, 2, 'DEADBAND'), ('INT', 2, 'INT', 2, 2, 1, 'EQUAL'), ('INT', 2, 'INT', 0, 2, 1, 'CHANGE'), ('INT', 2, 'BOOL', 0, 2, 8, 'SET'), ('BYTE', 4, 'DINT', 4, 4, 1, 'LESS'), ('BOOL', 25, 'BOOL', 0, 1, 3, 'CHANGE'), ('BOOL', 25, 'BOOL', 0, 2, 9, 'RESET'), ('BYTE', 4, 'BYTE', 0, 1, 1, 'DELETED')):
    H('C07', 'c07_add_%s_%s_%d_%s' % (ty.lower(), rt.lower(), size, ev.lower()), ['c07_add.c', S], defs={'TY': 'DAX_' + ty, 'CNT': cnt, 'REQTYPE': 'DAX_' + rt, 'REQBOOL': int(rt == 'BOOL'), 'DLEN': dl, 'TSZ': RSZ[rt], 'SIZE': size, 'COUNT': count, 'ETYPE': 'EVENT_' + ev, **({'BITC': {1: 4, 2: 5}[size]} if rt == 'BOOL' else {})}, unwind=40, bounds='4-byte %s tag, %s event on %d %s(s), any 32-bit offset, then any 2-byte write' % (ty, ev, count, rt))
H('C07', 'c07_del', ['c07_del.c', S], bounds='4 subscriptions of two modules on two tags, tag deleted by either module')
for sb, db in ((1, 0), (0, 4), (2, 2)):
    for k, tier in ((2, 'quick'), (4, 'thorough')):
        H('C08', 'c08_byte_%d_%d_k%d' % (sb, db, k), ['c08_map.c', S], defs={'SBYTE': sb, 'DBYTE': db, 'K': k}, tier=tier, bounds='2 bytes at %d of a 4-byte tag mapped to offset %d of a 6-byte tag, any contents, every history of %d requests (write, masked write, atomic XOR of the source, write of the destination) at any offset' % (sb, db, k))
for sb, si, db, di, n in ((0, 0, 0, 0, 8), (0, 5, 1, 4, 6), (0, 3, 0, 7, 9), (1, 7, 2, 0, 1), (0, 2, 1, 6, 3)):
    H('C08', 'c08_bits_%d%d_%d%d_%d' % (sb, si, db, di, n), ['c08_map.c', S], defs={'SBYTE': sb, 'SBIT': si, 'DBYTE': db, 'DBIT': di, 'BITS': n, 'K': 2}, bounds='%d BOOLs at bit %d mapped to bit %d, any contents, every history of 2 requests' % (n, 8 * sb + si, 8 * db + di))
for ty in ('DAX_BYTE', 'DAX_BOOL'):
    H('C08', 'c08_refuse_' + ty[4:].lower(), ['c08_add.c', S], defs={'CASE': 0, 'TY': ty}, unreached=VIRTUAL + ['_new_map'], bounds='every mapping request of type %s whose source or destination is not inside an existing tag: any 32-bit index, offset, size, count, bit' % ty[4:])
for c in (1, 2): H('C08', 'c08_del_' + ('', 'dest', 'source')[c], ['c08_add.c', S], defs={'CASE': c, 'VP_CAP': 48}, bounds='one mapping, its %s deleted, another tag added, any data' % ('', 'destination', 'source')[c])
for nm, ty, m0, m1 in (('count', 'DAX_BOOL', '0,1,2,1, 0,0,1,1', '0,1,5,1, 0,0,1,1'), ('size', 'DAX_BYTE', '0,0,1,1, 0,0,0,2', '0,0,1,2, 0,0,0,2'), ('bit', 'DAX_BOOL', '0,1,2,1, 0,0,1,1', '0,2,2,1, 0,0,1,1'),
                       ('byte', 'DAX_BOOL', '0,1,2,1, 0,0,1,1', '1,1,2,1, 0,0,1,1'), ('dbit', 'DAX_BOOL', '0,1,2,1, 0,0,1,2', '0,1,2,1, 0,0,3,2'), ('dbyte', 'DAX_BOOL', '0,1,2,1, 0,0,1,1', '0,1,2,1, 0,2,1,1'),
                       ('dest', 'DAX_BOOL', '0,1,2,1, 0,0,1,1', '0,1,2,1, 1,0,1,1'), ('span', 'DAX_BOOL', '0,6,9,2, 0,0,3,2', '0,6,9,2, 1,1,7,2')):
    H('C08', 'c08_pair_' + nm, ['c08_pair.c', S], defs={'TY': ty, 'M0': m0, 'M1': m1}, bounds='two mappings (byte, bit, count, size of the source, tag, byte, bit, size of the destination) %s and %s, any contents' % (m0, m1))
for k, tier in ((3, 'quick'), (5, 'thorough')):
    H('C08', 'c08_life%d' % k, ['c08_life.c', S], defs={'K': k}, tier=tier, bounds='3 mappings of one source, every history of %d requests (delete any 32-bit id, write any data)' % k)
for n, (sz, script) in enumerate(((16, '+1+0+2-1+3+1-2+4'), (12, '+0+7+3-0+5+2-3+6-5'), (12, '+6+4-6+4+6-4+0'), (16, '+4+3+2+1-4-3+5'))):
    for st in (0, 1):
        if st and n == 2: continue
        H('C10' if st else 'C09', '%s_names_%d' % ('c10' if st else 'c09', n), ['c09_ns.c', S], defs={'QL': 2, 'SCRIPT': '"%s"' % script, 'DAX_TAGLIST_SIZE': sz, 'VP_CAP': 20, **({'STATUS': None} if st else {})}, unreached=NORET + NOEVT, unwind=40, unwindset={'strcmp.0': 36 if n == 2 else 22, 'strcpy.0': 36}, bounds='history %s of adding and deleting tags, database of %d tags%s, %s' % (script, sz, ' that grows' if sz < 14 else '', 'status tags after every step, any data' if st else 'then lookup of any name of up to 2 characters and of any 32-bit index'))
for c, b in enumerate(('every illegal name of up to 3 characters', 'every 32-bit type that does not exist, zero and overflowing counts, any attributes', 'adding an existing tag again with the same, other and bigger type and count, any data')):
    H('C09', 'c09_add_%d' % c, ['c09_add.c', S], defs={'CASE': c}, unwind=40, unreached=NORET + NOEVT, bounds=b)
for ln, pos, c, w in ((32, 31, 'ab', 0), (2, 1, 'aA', 1), (32, 31, 'a_', 1), (32, 30, 'Zb', 1), (32, 16, '0A', 0), (32, 1, 'zy', 1), (9, 8, 'bB', 1)):
    H('C09', 'c09_near_%d_%d_%s' % (ln, pos, c), ['c09_near.c', S], tier='quick' if c in ('ab', 'aA') else 'thorough', defs={'LEN': ln, 'POS': pos, 'C0': "'%s'" % c[0], 'C1': "'%s'" % c[1], 'WHICH': w, 'VP_CAP': 48}, unwind=50, unreached=NORET + NOEVT, unwindset={'strcmp.0': 36, 'strcpy.0': 36}, bounds='two names of %d characters that differ in number %d, %s and %s; any character there in a query, any data' % (ln, pos + 1, c[0], c[1]))

for t, nm in ((9, 'time'), (10, 'name')):
    H('C10', 'c10_virtual_' + nm, ['c10_virtual.c', S], defs={'TAG': t, 'VP_CAP': 34}, unwind=40, unreached=['write_queue', 'read_queue'], bounds='read of %s by two modules and a stranger, any offset and size%s' % (('_time', ', any time') if t == 9 else ('_my_tagname', '')))
for nc, mx, nm, sched, minb, tier in ((1, 12, 2, '000', 1, 'quick'), (2, 10, 1, '0101', 2, 'quick'), (2, 10, 1, '0110', 1, 'quick'), (2, 10, 2, '0011', 2, 'quick'), (1, 12, 2, '0000', 1, 'thorough'), (1, 16, 2, '000000', 1, 'thorough'), (2, 10, 2, '01010', 2, 'thorough')):
    r = len(sched)
    H('C14', 'c14_frame_%d_%s_%d_%d' % (mx, sched, minb, nm), ['c14_frame.c'], units=('buffer',), defs={'DAX_MSGMAX': mx, 'NC': nc, 'NMSG': nm, 'SCHED': ','.join(sched), 'R': r, 'MINB': minb}, unwind=4 if r < 6 else 5, unwindset={'vp_read.0': mx + 1, 'msg_dispatcher.0': mx + 1, 'vp_main.0': 2 * mx + 1, 'vp_main.1': 5, 'vp_main.4': r + 1, 'vp_memmove_bytes.0': mx + 1, 'vp_memmove_bytes.1': mx + 1}, tier=tier, bounds='%d client(s), %d messages each of 8..%d bytes, reads of any length in the order %s' % (nc, nm, mx, sched))
H('C14', 'c14_any', ['c14_any.c'], units=('buffer',), defs={'DAX_MSGMAX': 16, 'R': 3}, unwind=4, unwindset={'vp_read.0': 17, 'vp_memmove_bytes.0': 17, 'vp_memmove_bytes.1': 17}, bounds='any 3 chunks of up to 16 bytes')
SMALLCPY = {'vp_memcpy_bytes.0': 48, 'vp_memmove_bytes.0': 48, 'vp_memmove_bytes.1': 48, 'vp_memset.0': 130}
LIFECPY = {'vp_memcpy_bytes.0': 48, 'vp_memmove_bytes.0': 48, 'vp_memmove_bytes.1': 48, 'vp_memset.0': 130, 'group_read.0': 2, 'group_write.0': 2, 'tag_read.2': 10, 'tag_mask_write.0': 3, '_member_write.0': 9}
for nm, bt, bc, ub, ubit, uc, us in (('bytes', 'DAX_BYTE', 4, 0, 0, 3, 3), ('bools', 'DAX_BOOL', 31, 1, 3, 9, 2), ('bool1', 'DAX_BOOL', 31, 3, 6, 1, 1), ('ints', 'DAX_INT', 2, 2, 0, 1, 2)):
    H('C16', 'c16_rw_' + nm, ['c16_rw.c', S], defs={'CASE': 1, 'BTYPE': bt, 'BCOUNT': bc, 'UB': ub, 'UBIT': ubit, 'UCOUNT': uc, 'USIZE': us}, unwind=46, bounds='group of 2 BYTEs and %d %s, read, and write of 0..8 bytes of any data over any contents' % (uc, nm))
for c in (2, 3):
    for sz in (0, 1, 2, 4, 5):
        H('C16', 'c16_any_%s_%d' % (('read', 'write')[c - 2], sz), ['c16_rw.c', S], defs={'CASE': c, 'BTYPE': 'DAX_BYTE', 'BCOUNT': 4, 'DAX_MSGMAX': 40, 'SIZE': sz}, unwind=30, unreached=NORET + NOEVT, unwindset=dict(LIFECPY, **{'vp_memcpy_bytes.0': 40}), bounds='group with one %d byte member of any 32-bit index and offset, any data' % sz)
H('C16', 'c16_toobig', ['c16_rw.c', S], defs={'CASE': 4, 'BTYPE': 'DAX_BYTE', 'BCOUNT': 4}, unwind=46, bounds='groups with one or two members of any sizes that exceed a message together, any indexes and offsets')
for pos in (0, 1, 2):
    for kd in (0, 2): H('C16', 'c16_broken_%d_%d' % (pos, kd), ['c16_rw.c', S], defs={'CASE': 5, 'POS': pos, 'KIND': kd, 'BTYPE': 'DAX_BYTE', 'BCOUNT': 4, 'DAX_MSGMAX': 90}, unwind=46, unwindset={'vp_send.0': 84}, bounds='three members, number %d of them %s, any data' % (pos, 'deleted' if kd == 0 else 'outside of its tag'))
for n, script in enumerate(('+0+1+0+1', '+0+1+0+0-01-10', '+0+1+0+1-00+0-01-05', '-00+0+0-00-01-10+1+0')):
    for op, nm in ((0x13, 'del'), (0x14, 'read'), (0x15, 'write')):
        for fd in ((7, 8, 9) if n == 0 else (7, 8)):
            if n in (1, 3) and fd == 8: continue
            H('C16', 'c16_life_%d_%s_%d' % (n, nm, fd - 7), ['c16_life.c', S], defs={'SCRIPT': '"%s"' % script, 'OP': hex(op), 'FD': fd, 'DAX_MSGMAX': 40}, unwind=46, unreached=NORET + NOEVT, unwindset=LIFECPY, bounds='history %s of adding and deleting groups by two modules, then %s of any 32-bit group index by %s' % (script, nm, ('the first', 'the second', 'an unregistered')[fd - 7]))
H('C16', 'c16_many', ['c16_many.c', S], defs={'NG': 17}, unwind=46, unreached=NORET + NOEVT, unwindset=dict(LIFECPY, **{'tag_read.2': 21}), bounds='17 groups, write of any group index')
H('C16', 'c16_incomplete', ['c16_many.c', S], defs={'NG': 0}, unwind=46, bounds='requests of 22, 23, 43 or 44 bytes with any number of members that are not all there')
QUEUE = ['server_time', 'get_module_tag_name', 'ret_add_tag', 'ret_del_tag', 'ret_tag_write']
def fifo(nm, qt, cnt, sz, script, k=0, tier='quick'):
    nw = sum(s for s in script if s > 0)
    H('C12', 'c12_fifo_' + nm, ['c12_fifo.c', S], defs={'QTYPE': 'DAX_' + qt, 'QCNT': cnt, 'QSZ': sz, 'SCRIPT': ','.join(map(str, script)), 'NW': nw, 'K': k}, unwind=46, unreached=QUEUE, tier=tier, bounds='queue of %d %s, any data, %s writes (+) and reads (-)%s' % (cnt, qt, ' '.join('%+d' % s for s in script), ', then every history of %d writes and reads' % k if k else ''))
fifo('grow', 'INT', 2, 4, (17, -17, -1, 3, -4))
fifo('wrapgrow', 'BYTE', 3, 3, (10, -7, 15, -20, -1))
fifo('full', 'DINT', 1, 4, (16, -16, 16, -15, 1, -3))
fifo('twice', 'BYTE', 1, 1, (16, -5, 30, -10, 5, -40))
for r in range(1, 16): fifo('at%d' % r, 'BYTE', 1, 1, (16, -r, r + 1, -18), tier='quick' if r in (1, 15) else 'thorough') # full with the first entry at r, then one more
fifo('alternate', 'BYTE', 2, 2, (1, -1) * 18 + (-1,))
fifo('creep', 'INT', 1, 2, (2, -1) * 18 + (-20,))
fifo('drain', 'BYTE', 1, 1, (14, -14, 5, -2, 14, -18), tier='thorough')
fifo('long', 'BYTE', 1, 1, (16, -8, 12, -4, 20, -20, 30, -46, -1), tier='thorough')
for op, nm in enumerate(('read', 'write', 'mask', 'atomic', 'override')):
    for f in (0, 1):
        H('C12', 'c12_bad_%s_%d' % (nm, f), ['c12_bad.c', S], defs={'OP': op, 'FILL': f, 'QTYPE': 'DAX_INT', 'QCNT': 2, 'QSZ': 4}, unwind=46, unreached=QUEUE, bounds='queue of 2 INTs with %d entries, %s with any offset and size other than the whole tag' % (f, nm))
for nm, ty, c in (('queue', 'DAX_INT | DAX_QUEUE', 1), ('tag', 'DAX_BYTE', 4)):
    H('C12', 'c12_many_' + nm, ['c12_many.c', S], defs={'NTYPE': ty, 'NCNT': c}, unwind=46, unreached=QUEUE, bounds='two queues of which one is deleted and replaced by a %s, any data' % nm)
LIFE17 = ['server_time', 'write_queue', 'read_queue', 'ret_add_tag', 'ret_del_tag', 'ret_tag_write']
for gone, way, again in ((0, 0, 'a'), (1, 0, 'c'), (0, 1, 'c'), (1, 1, 'c')):
    H('C17', 'c17_life_%d_%s_%s' % (gone, ('close', 'again')[way], again), ['c17_life.c', S], defs={'GONE': gone, 'WAY': way, 'AGAIN': '"%s"' % again, 'VP_OWN_SELECT': None, 'VP_CAP': 34}, unwind=46, unreached=LIFE17, bounds='three modules, two of the same name, with owned tags, groups, subscriptions and mappings; module %d %s; any data' % (gone, ('disconnects and its descriptor is used again by "%s"' % again, 'registers again')[way]))
for n, script in enumerate(('+6+7+8-7+7-6-8+8-7', '+6+9-9+5+9-6-5+6', '+6+7-6+9+6+9-7+7', '+5-5+5+8-8+8-5')):
    H('C17', 'c17_order_%d' % n, ['c17_order.c', S], defs={'SCRIPT': '"%s"' % script, 'VP_OWN_SELECT': None, 'VP_CAP': 34, 'DAX_MSGMAX': 48}, unwind=46, unreached=LIFE17, bounds='modules come (+) and go (-) in the order %s (names repeat every 3 descriptors), any data' % script)
RET = VIRTUAL
for ty, tn, c, sz in (('BYTE', 'BYTE', 4, 4), ('BOOL', 'BOOL', 20, 3)):
    for k, tier in ((2, 'quick'), (3, 'thorough')):
        H('C13', 'c13_write_%s_%d' % (tn.lower(), k), ['c13_write.c', S], defs={'TYPE': 'DAX_' + ty, 'TNAME': '"%s"' % tn, 'COUNT': c, 'SIZE': sz, 'K': k, 'VP_OWN_SQLITE': None}, unwind=70, unreached=VIRTUAL, tier=tier, bounds='two retained tags and another one; every history of %d requests (write, masked write, atomic XOR, group write, write of a mapped source) at any offset with any data' % k)
for at, dl in (('0', 't'), ('TAG_ATTR_RETAIN', 'u'), ('0', 'v')):
    H('C13', 'c13_life_' + dl, ['c13_life.c', S], defs={'GROWATTR': at, 'DEL': dl, 'VP_OWN_SQLITE': None}, unwind=70, unreached=VIRTUAL, bounds='tags retained from the start, later, grown, deleted (%s) and added again; any data' % dl.upper())
for sv in (8, 3, 0, 12):
    H('C13', 'c13_start_%d' % sv, ['c13_start.c', S], defs={'SAVED': sv, 'CDT': 2, 'VP_OWN_SQLITE': None, 'SQBLOB': 18}, unwind=70, unreached=VIRTUAL, bounds='database with 3 tags, one with %d saved bytes, one of a compound type; any data' % sv)
def cdefs(nm, defs, **kw):
    xd = kw.pop('xdefs', {})
    H('C11', 'c11_defs_' + nm, ['c11_defs.c', S], defs=dict({'DEFS': ', '.join('{"%s", %d}' % d for d in defs), 'VP_CAP': 60, 'DAX_MSGMAX': 110}, **xd), unwind=70, unreached=NORET + NOEVT, unwindset={'strlen.0': 110, 'strcmp.0': 110, 'vp_send.0': 104, 'vp_tag_add.0': 40}, bounds='the definitions %s' % ' '.join('"%s"' % d[0] for d in defs), **kw)
cdefs('layout', [('A:a,BOOL,1', 1), ('B:a,BOOL,9:b,BYTE,1', 3), ('C:a,BYTE,1:b,BOOL,8:c,BOOL,1', 3), ('D:a,BOOL,3:b,DINT,2:c,BOOL,1:d,LREAL,1', 18), ('E:x,B,2:y,BOOL,3:z,D,1', 25), ('F:x,E,1:y,BOOL,1', 26)])
cdefs('bad', [(t, 0) for t in ('Ty', 'Tz:', 'Tb:a', 'Tc:a,BYTE', 'Td:a,BYTE,0', 'Te:a,BYTE,-1', 'Tf:a,NOPE,1', 'Tg:a,BYTE,1:a,INT,1', 'Th:A,BYTE,1:a,INT,1', 'Ti:1a,BYTE,1', '1Ty:a,BYTE,1', 'Tk:a,BYTE,2147483648', 'Tl:a,DWORD,1000000000', 'Tm:a,Tm,1', 'Tn:a,BYTE,1:b', 'To:a b,BYTE,1', 'Tp:a,BYTE,1:b,Ty,2', 'abcdefghijabcdefghijabcdefghijabc:a,BYTE,1')], xdefs={'ALLNEW': None})
cdefs('dup', [('A:a,INT,2', 4), ('BYTE:a,INT,1', 0), ('int:a,INT,1', 0), ('A:a,INT,2', -1), ('A:a,INT,3', 0), ('A:b,INT,2', 0), ('a:a,INT,2', 0), ('A:a,INT,2:b,INT,1', 0), ('B:a,A,3', 12), ('A:a,INT,2', -1), ('b:a,A,3', 0)])
cdefs('many', [('%s:m,%s,%d' % (chr(65 + i), t, c), s) for i, (t, c, s) in enumerate((('BYTE', 1, 1), ('SINT', 2, 2), ('CHAR', 3, 3), ('WORD', 1, 2), ('INT', 2, 4), ('UINT', 1, 2), ('DWORD', 1, 4), ('DINT', 2, 8), ('UDINT', 1, 4), ('REAL', 1, 4), ('LWORD', 1, 8)))], objbits=11)
cdefs('more', [('Aa:m,LINT,1', 8), ('Ab:m,ULINT,2', 16), ('Ac:m,LREAL,1', 8), ('Ad:m,TIME,1', 8)])
def csize(nm, text, n, bits, sub=None, tier='quick'):
    d = {'TEXT': '"%s"' % text, 'POS': text.index('0'), 'N': n, 'BITS(n)': bits, 'TYPENO': 3 if sub else 2}
    if sub: d['SUB'] = '"%s"' % sub
    if n > 4: d['BIG'] = None
    H('C11', 'c11_size_' + nm, ['c11_size.c', S], defs=d, tier=tier, unwind=70, unreached=NORET + NOEVT, bounds='"%s" with any number of %d digits for the zeros' % (text, n))
csize('first', 'Ty:a,BOOL,00:b,INT,2:c,BYTE,1', 2, '(((n)+7)/8*8+40)')
csize('middle', 'Ty:a,BYTE,1:b,BOOL,000:c,BOOL,5:d,LREAL,3', 3, '(8+((n)+5+7)/8*8+192)', tier='thorough')
csize('last', 'Ty:a,BYTE,1:b,DINT,1:c,BOOL,0000', 4, '(40+(n))')
csize('inner', 'Ty:a,BOOL,3:b,In,000:c,BOOL,2', 3, '(8+24*(n)+2)', sub='In:p,BOOL,9:q,SINT,1')
csize('huge', 'Ty:a,BOOL,3:b,LREAL,00000000', 8, '(8+64*(n))')
for nm, text, pos, n, other in (('type', '...:a,BYTE,1', 0, 3, 'int'), ('member', 'Ty:..,BYTE,1', 3, 2, None), ('dup', 'Ty:xY,BYTE,1:..,INT,2', 13, 2, 'xy')):
    d = {'TEXT': '"%s"' % text, 'POS': pos, 'N': n, 'CASE': 0}
    if other: d['OTHER'] = '"%s"' % other
    H('C11', 'c11_any_' + nm, ['c11_name.c', S], defs=d, unwind=46, unreached=NORET + NOEVT, unwindset={'strlen.0': 46, 'strncat.0': 20, 'strcasecmp.0': 10, 'strcmp.0': 10, 'strcpy.0': 20}, bounds='the definition %s with any characters for the dots' % text)
C15SHORT = (('MSG_TAG_DEL', (0,), 1), ('MSG_TAG_GET', (0,), 1), ('MSG_TAG_LIST', (0, 8), 0), ('MSG_TAG_READ', (0, 'u7', 't11'), 1), ('MSG_TAG_WRITE', (0, 4, 'u7', 'u8'), 1), ('MSG_TAG_MWRITE', (0, 7, 'u9'), 1), ('MSG_EVNT_ADD', (0, 7, 'u12'), 1),
    ('MSG_EVNT_DEL', (0, 'u7'), 1), ('MSG_EVNT_GET', (0, 8), 0), ('MSG_EVNT_OPT', (0, 11), 1), ('MSG_CDT_GET', (0, 1, 4), 1), ('MSG_MAP_ADD', (0, 20), 1), ('MSG_MAP_DEL', (0, 7), 1), ('MSG_MAP_GET', (0, 7), 1),
    ('MSG_GRP_DEL', (0, 3), 1), ('MSG_GRP_READ', (0, 3), 1), ('MSG_GRP_WRITE', (0, 3), 1), ('MSG_GRP_MWRITE', (0, 12), 1), ('MSG_ATOMIC_OP', (0, 'u12'), 1), ('MSG_ADD_OVRD', (0, 'u11'), 1), ('MSG_DEL_OVRD', (0, 'u8'), 1), ('MSG_GET_OVRD', (0, 'u11'), 1), ('MSG_SET_OVRD', (0, 't4'), 1), ('MSG_TAG_ADD', (0, 4, 12), 1))
C15 = {'unwind': 50, 'unreached': VIRTUAL + NORET, 'unwindset': dict(LIFECPY, **{'vp_memcpy_bytes.0': 57, 'vp_send.0': 50})}
for cmd, lens, rep in C15SHORT:
    for ln in lens:
        of, n = (ln[0], int(ln[1:])) if isinstance(ln, str) else ('', ln)
        H('C15', 'c15_%s_%s' % (cmd[4:].lower(), ln), ['c15_any.c', S], defs=dict({'CMD': cmd, 'LEN': n, 'FROM': 7 if ln != lens[0] else 9, 'REPLIES': rep, 'DAX_MSGMAX': 56}, **({'OFTAG': of} if of else {})), bounds='%s of %d bytes of any content%s by %s' % (cmd[4:], n, ' but for the tag' if of else '', 'a module' if ln != lens[0] else 'a stranger'), **C15)
for nm, v in (('0', '0'), ('28', '28'), ('29', '29'), ('256', '256'), ('resp', '0x01000001u'), ('top', '0x80000007u'), ('max', '0xFFFFFFFFu')):
    H('C15', 'c15_bad_' + nm, ['c15_any.c', S], defs={'BAD': v, 'LEN': 16, 'FROM': 7, 'DAX_MSGMAX': 56}, bounds='command %s, any 16 bytes' % v, **C15)
H('C15', 'c15_badcmd', ['c15_any.c', S], defs={'LEN': 0, 'FROM': 7, 'DAX_MSGMAX': 56}, bounds='any 32-bit command that does not exist, no payload', **C15)

LIB = {'units': ('lib',), 'unwind': 60}
for op in (0, 1, 2):
    o = ('read', 'write', 'mask')[op]
    for n in (1, 7, 8, 16, 17):
        H('C18', 'c18_%s_bool%d' % (o, n), ['c18_data.c'], defs={'OP': op, 'NITEMS': n, 'TTYPE': 'DAX_BOOL', 'SIZE': (n + 6) // 8 + 1, 'BIT0': 0, 'BIT1': 7, 'DAX_MSGMAX': 40}, bounds='%d bits at any bit of any byte, any content and data' % n, **LIB)
    for n in (140, 200):
        H('C18', 'c18_%s_bool%d' % (o, n), ['c18_data.c'], defs={'OP': op, 'NITEMS': n, 'TTYPE': 'DAX_BOOL', 'SIZE': (n + 2) // 8 + 1, 'BIT0': 3, 'BIT1': 3, 'DAX_MSGMAX': 28}, bounds='%d bits at bit 3 of any byte, messages of 20 bytes (several per request), any content and data, a failure of the server in between' % n, **dict(LIB, unwind=240))
    for t, sz, n in (('DAX_CHAR', 1, 3), ('DAX_INT', 2, 3), ('DAX_REAL', 4, 2), ('DAX_TIME', 8, 2)):
        H('C18', 'c18_%s_%s' % (o, t[4:].lower()), ['c18_data.c'], defs={'OP': op, 'NITEMS': n, 'TTYPE': t, 'SIZE': sz * n, 'DAX_MSGMAX': 60}, bounds='%d %s at any offset, any content and data' % (n, t[4:]), **LIB)
    for t, sz, n in (('DAX_BYTE', 1, 50), ('DAX_UINT', 2, 25), ('DAX_DINT', 4, 14), ('DAX_LREAL', 8, 8)):
        H('C18', 'c18_%s_big_%s' % (o, t[4:].lower()), ['c18_data.c'], defs={'OP': op, 'NITEMS': n, 'TTYPE': t, 'SIZE': sz * n, 'DAX_MSGMAX': 35}, bounds='%d %s at any offset, messages of 27 bytes (several per request), any content and data, a failure of the server in between' % (n, t[4:]), **dict(LIB, unwind=90))
    H('C18', 'c18_%s_cdt' % o, ['c18_data.c'], defs={'OP': op, 'NITEMS': 2, 'TTYPE': 'CDT_TO_TYPE(2)', 'CDT': '"Ta:a,INT,1:b,Tb,1:c,BOOL,3"', 'CDT2': '"Tb:x,DINT,1"', 'SIZE': 14, 'DAX_MSGMAX': 60}, bounds='2 items of a compound type with a compound member at any offset, any content and data', **LIB)
    H('C18', 'c18_%s_big_cdt' % o, ['c18_data.c'], defs={'OP': op, 'NITEMS': 6, 'TTYPE': 'CDT_TO_TYPE(2)', 'CDT': '"Ta:a,INT,1:b,Tb,1:c,BOOL,3"', 'CDT2': '"Tb:x,DINT,1"', 'SIZE': 42, 'DAX_MSGMAX': 42}, bounds='6 items of a compound type with a compound member at any offset, several messages, any content and data', **dict(LIB, unwind=70))
for nm, d, b in (('one', {'NH': 1, 'GS': 2, 'SIZES': '{2}', 'TYPES': '{DAX_INT}', 'COUNTS': '{1}'}, 'one INT'),
        ('mixed', {'NH': 4, 'GS': 18, 'SIZES': '{2,8,1,7}', 'TYPES': '{DAX_BOOL,DAX_DINT,DAX_SINT,CDT_TO_TYPE(2)}', 'COUNTS': '{9,2,1,1}', 'CDT': '"Ta:a,INT,1:b,DINT,1:c,BOOL,3"'}, 'BOOL, DINT, SINT and compound members')):
    H('C18', 'c18_group_' + nm, ['c18_group.c'], defs=dict(d, DAX_MSGMAX=110), bounds='group of %s at any place of any tags, any data, a failure of the server at any request' % b, **dict(LIB, unwind=120))

for nm, tt, names in (('int', 'DAX_INT', 'T T[0] T[1] T[6] T[99999] T[100000] T[65536] T[4294967295] T[4294967296] T[4294967297] T.0 T.15 T.16 T[3].0 T[3].15 T[3].16 T.a T[2].a'),
        ('bool', 'DAX_BOOL', 'T T[0] T[1] T[7] T[8] T[15] T[36] T[99999] T[100000] T.0 T[3].0 T.x'),
        ('udint', 'DAX_UDINT', 'T T[2] T.0 T.7 T.8 T.31 T.32 T[5].31 T[5].32 T[4294967296]'),
        ('lword', 'DAX_LWORD', 'T T[2] T.63 T.64 T[5].8 T[5].63 T[5].64'),
        ('real', 'DAX_REAL', 'T T[2] T.0 T[2].31'), ('time', 'DAX_TIME', 'T T[2] T.0 T[2].63'), ('byte', 'DAX_SINT', 'T T[2] T.7 T.8 T[2].7'),
        ('member', 'CDT_TO_TYPE(2)', 'T T[4] T.a T.a[0] T.a[2] T.a[3] T[4].a T[4].a[2] T.b T[3].b T[3].b[3] T[3].b[4] T.b[1].0 T.b[3].15 T.b[3].16 T.b[4].0 T[4].b.0'),
        ('member2', 'CDT_TO_TYPE(2)', 'T.c T[2].c T.c[0] T.c[1] T.c.0 T.d T[2].d T.d[11] T.d[12] T[2].d[5] T.e T[2].e T.e[2] T.e[3] T.f T.aa T.f[0] T[2].g.h'),
        ('nested', 'CDT_TO_TYPE(2)', 'T.e[2].x T.e[2].x[8] T.e[2].x[9] T[3].e[1].y T[3].e[1].y.31 T[3].e[1].y.32 T.e[0].w T.e[2].w.7 T.e[2].w.8 T.e[3].w T.e[1].v'),
        ('nested2', 'CDT_TO_TYPE(2)', 'T.e[2].z T.e[2].z[1] T.e[2].z[2] T.e[1].z[1].p T.e[1].z[1].q T.e[1].z[1].r T.e[1].z[1].r[299] T.e[1].z[1].r[300] T[2].e[1].z[1].s[4] T.e[1].z[0].s[5] T[3].e[2].z[1].t T[3].e[2].z[1].t[1] T.e[1].z[1].q.0')):
    H('C19', 'c19_' + nm, ['c19_handle.c'], defs={'NAMES': ','.join('"%s"' % n for n in names.split()), 'TTYPE': tt, 'DAX_MSGMAX': 80}, bounds='any 32-bit count of a tag of 1 to 100000 %s; %s' % (tt.replace('CDT_TO_TYPE(2)', 'items of a three-level compound type'), names), **LIB)

def h20(nm, call, what, **d):
    if d.pop('only', 0): d['REFUSED'] = 1
    H('C20', 'c20_' + nm, ['c20_call.c'], defs=dict({'CALL': call, 'MAXN': 20, 'DAX_MSGMAX': 110}, **d), bounds=what + '; any values, any answer of the server: success, any error, an answer to something else, none', **LIB)
for nm, t, name in (('int', 'DAX_INT', 'T'), ('bool', 'DAX_BOOL', 'Tag_1'), ('ulint', 'DAX_ULINT', 'A' * 32), ('long', 'DAX_DINT', 'A' * 33)):
    h20('tag_add_' + nm, 1, 'dax_tag_add of %s "%s"' % (t[4:], name), TTYPE=t, NAME='"%s"' % name, only=nm == 'long')
h20('tag_del', 2, 'dax_tag_del')
for c, fn in ((3, 'byname'), (4, 'byindex')):
    for nm, name in (('1', 'T'), ('5', 'Tag_1'), ('32', 'A' * 32)) + ((('33', 'A' * 33), ('0', '')) if c == 3 else ()):
        h20(fn + nm, c, 'dax_tag_%s of "%s"' % (fn, name), NAME='"%s"' % name, only=nm in ('33', '0'))
for t in ('BOOL', 'BYTE', 'SINT', 'INT', 'DWORD', 'UDINT', 'REAL', 'LINT', 'TIME', 'LREAL'):
    h20('event_add_' + t.lower(), 5, 'dax_event_add on a %s' % t, TTYPE='DAX_' + t)
h20('event_add_cdt', 5, 'dax_event_add on a compound type', TTYPE='CDT_TO_TYPE(15)')
for nm, c in (('event_del', 6), ('event_options', 7), ('map_add', 8), ('map_get', 9), ('map_del', 10)): h20(nm, c, 'dax_' + nm)
for c, fn in ((11, 'add'), (12, 'del')):
    for t, n, b in (('DINT', 1, 0), ('INT', 3, 0), ('LREAL', 2, 0), ('BOOL', 8, 0), ('BOOL', 8, 3), ('BOOL', 1, 7), ('BOOL', 17, 0), ('BOOL', 17, 6), ('BOOL', 40, 1)):
        h20('%s_override_%s%d_%d' % (fn, t.lower(), n, b), c, 'dax_tag_%s_override of %d %s at bit %d' % (fn, n, t, b), TTYPE='DAX_' + t, N=n, BIT=b)
for n in (1, 7, 16): h20('get_override_%d' % n, 13, 'dax_tag_get_override of %d bytes' % n, N=n)
h20('set_override', 14, 'dax_tag_set_override', SET=1)
h20('clr_override', 14, 'dax_tag_clr_override', SET=0)
for t, n in (('DAX_INT', 2), ('DAX_BOOL', 3), ('DAX_LREAL', 16), ('CDT_TO_TYPE(3)', 4)): h20('atomic_%s%d' % (t[4:8].lower().replace('to_', 'cdt'), n), 15, 'dax_atomic_op on %d bytes of %s' % (n, t), TTYPE=t, N=n, only=t[0] == 'C')
for k, kt in ((0, 1), (1, 2), (2, 2), (3, 2)):
    h20('cdt_create_%d' % k, 16, 'dax_cdt_create', KIND=k, KINDS=kt)
    h20('cdt_get_name_%d' % k, 17, 'dax_cdt_get by name', BYNAME=1, KIND=k, KINDS=kt)
    h20('cdt_get_type_%d' % k, 17, 'dax_cdt_get by type', BYNAME=0, KIND=k, KINDS=kt)

LIBNM = {'units': ('libnm',), 'unwind': 60}
for late in range(8):
    for drop in ((0,) if late == 0 else (0, 1)):
        H('C21', 'c21_reply_%d%d' % (late, drop), ['c21_reply.c'], defs={'LATE': late, 'NS': 500000000 if late & 1 else 7, 'DURING': drop, 'FAIL': (late + 1) % 4, 'DAX_MSGMAX': 60}, bounds='4 requests, the answers to %s come too late and %s; any data, times and errors' % ([i for i in range(3) if late >> i & 1], 'while the next answer is awaited' if drop else 'before the next request'), **LIBNM)
for ms in (1, 500, 999, 1000, 1001, 2999, 30000):
    H('C21', 'c21_time_%d' % ms, ['c21_time.c'], defs={'MS': ms, 'DAX_MSGMAX': 60}, bounds='timeout of %d ms at any time of any second' % ms, **LIBNM)
for p, how in ((0, 'EINTR'), (0, 'EWOULDBLOCK'), (1, 'EWOULDBLOCK'), (3, 'EINTR'), (7, 'EWOULDBLOCK')):
    for first in (0, 8, 16, 24):
        H('C21', 'c21_frame_%d%s%d' % (p, how[:3].lower(), first), ['c21_frame.c'], defs={'PIECE': p, 'HOW': how, 'FIRST': first, 'DAX_MSGMAX': 60}, bounds='an event and an answer in pieces of %s bytes, %s at byte %d to %d, any data' % (p or 'all', how, first, first + 7), **LIBNM)
for nm, sc in (('one', 'pa0epp'), ('many', 'a0a1a2a3a4eeeppppewp'), ('del', 'a0a1a2eed1wpepd0d2epa0ep'), ('del2', 'a0a1a2a3a4d4ed0epwed2pepd1eepp'), ('full', 'a0a1a2eeeeeeeepepp'), ('over', 'a0a1eeeeeeeeeewpppppppp')):
    H('C21', 'c21_event_' + nm, ['c21_event.c'], defs={**({'IDS': 1} if 'd' in sc else {}), 'SCRIPT': '"%s"' % sc, 'DAX_MSGMAX': 60}, bounds='events added (a), deleted (d), arriving (e), polled (p) and awaited (w) in the order %s, any ids and data, arrivals of any of 5 events' % sc, **LIBNM)
for nm, lim, sc in (('few', 8, 'n0i0n1i1n2n0i2n1n2i2n2n1i0n0'), ('many', 8, 'n0n1n2n3n4n5n5n5n5n5n5n0i4i3i3n2n1n0n5i5'), ('full3', 3, 'n0n1n2n3n4n0n2n2n3n5i1n1i0i5n4n3'), ('full2', 2, 'n0n1n1n0i2i2i1n3n3n0i4n2'), ('one', 1, 'n0n1i0i1n1n2i2n0'), ('none', 0, 'n0n1i0i1n1n2i2n0'),
        ('del', 8, 'n0d0n0n1n2n3d2i2n2i1n3n0d1d3n1n3n4n5d5n4i5d4n4a0n0i0'), ('del3', 3, 'n0n1n2d1n3n4d4n0n2d0d2n3i5n5d3d5n1'), ('gone', 4, 'n0n1n2n3x1r1n1x3r3i3n0n2x0x2r0r2n2n0n4n5'), ('again', 4, 'n0a0n0i0n1n2a1i1n1d1a1n1i1n3n4a0i0n0a3n3')):
    H('C22', 'c22_' + nm, ['c22_cache.c'], defs={'SCRIPT': '"%s"' % sc, 'LIMIT': lim, 'DAX_MSGMAX': 80}, bounds='6 tags of any type, count and attributes, at most %d remembered; by name (n), by index (i), add (a), delete (d), deleted by others (x), read (r): %s' % (lim, sc), **LIB)
