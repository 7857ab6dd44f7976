"""What each property's check runs: harness entries, translation units of /repo, bounds."""
COMMON_ASSUMPTIONS = [
    'x86-64 Linux, clang 18 front end at -O1 semantics with asserts enabled; the translation from source to LLVM IR and the decoder in engine/ are trusted, and validated on every run by replaying sampled paths natively under AddressSanitizer',
    'libstdc++ out-of-line parts (exceptions, tree rebalancing, list hooks, string and stream code) are replaced by the models in harness/rt.cpp and harness/shim, console logging by empty bodies',
    'allocations above 256 MB fail with bad_alloc; allocation otherwise succeeds; fresh heap memory holds 0xBE',
]
CORE = ['Field', 'FieldMapping']
PROPS = {}
def job(harness, entry, tus=CORE, defs=None, opts=(), tier='quick', time=400, bounds='', reach=('end',), allow=(), samples=2, weight=1, **kw):
    d = dict(harness=harness, entry=entry, tus=list(tus), defs={k: str(v) for k, v in (defs or {}).items()}, opts=list(opts), tier=tier, time=time, bounds=bounds, reach=list(reach), allow=list(allow), samples=samples, weight=weight)
    d.update(kw); return d
def prop(pid, jobs, note, assumptions=()): PROPS[pid] = dict(jobs=jobs, note=note, assumptions=list(assumptions))

def D(e, n, elem='float', tier='quick', **kw):
    return job('dense', e, defs={'MAXN': n, 'ELEM': elem}, tier=tier, bounds='window sides 1..%d per axis, origin any in +-10^6, element %s with arbitrary bits' % (n, elem), **kw)
prop('C01', [D('dense_store', 3, weight=3), D('dense_resize', 3, weight=5), D('dense_store', 2, 'half'), D('dense_store', 2, 'V3f'), D('dense_store', 2, 'V3d'), D('dense_store', 2, 'double'), D('dense_store', 2, 'int'), D('dense_store', 2, 'V3h'), D('dense_store', 4, tier='thorough'), D('dense_resize', 4, tier='thorough'), D('dense_store', 3, 'V3f', tier='thorough')],
     'window sides up to 3 (4 thorough) at any origin, up to 2 writes then reads at arbitrary voxels')
prop('C02', [D('dense_iter', 3), D('dense_iter_w', 3, weight=4), D('dense_iter_w', 2, 'V3f'), D('dense_iter', 4, tier='thorough'), D('dense_iter_w', 4, tier='thorough')],
     'every sub-box of windows with sides up to 3 (4 thorough)')
SP = CORE + ['SparseFile']
def S(e, defs=None, tier='quick', bounds='', **kw):
    return job('sparse', e, tus=SP, defs=defs, tier=tier, bounds=bounds, **kw)
_sz = 'window sides from a list of 5 shapes up to 5x3x3, origin any in +-10^6, block order 0..2'
prop('C03', [S('sparse_map', {'NSIZES': 5}, bounds=_sz + ', 2 operations in any order', weight=4),
             S('sparse_map', {'NSIZES': 3, 'ELEM': 'V3h'}, bounds=_sz + ', element V3h, 2 operations'),
             S('sparse_map', {'NSIZES': 3, 'ELEM': 'half'}, bounds=_sz + ', element half, 2 operations'),
             S('sparse_map', {'NSIZES': 3, 'ELEM': 'double'}, bounds=_sz + ', element double, 2 operations'),
             S('sparse_map', {'NSIZES': 5, 'NOPS': 3}, tier='thorough', bounds=_sz + ', 3 operations', time=2000)],
     'histories of 2 (3 thorough) writes, iterator writes, block empty-value changes and clears, then every accessor at an arbitrary voxel')
prop('C04', [S('sparse_inject', bounds='window sides 1..5 per axis, origin any in +-10^6, block order 0..2'),
             S('sparse_blocks', {'ORDLO': 3, 'ORDHI': 5}, bounds='one axis up to three blocks, block order 3..5'),
             S('sparse_blocks', {'ORDLO': 6, 'ORDHI': 10}, bounds='one axis up to three blocks, block order 6..10'),
             S('sparse_blocks', {'ORDLO': 21, 'ORDHI': 23}, bounds='one axis up to three blocks (2^25 voxels), block order 21..23'),
             S('sparse_huge', bounds='six combinations of window and block order around 2^31 and 2^32 blocks or voxels', reach=('stored', 'refused')),
             S('sparse_inject', {'MAXORDER': 4}, tier='thorough', bounds='window sides 1..5, block order 0..4')],
     'all voxel pairs of windows up to 5 per side, and single axes up to 3 blocks for orders up to 23')
prop('C05', [S('sparse_iter', {'NSIZES': 5}, bounds=_sz + ', every sub-box'), S('sparse_iter_w', {'MAXN': 2}, bounds='sides 1..2, orders 0..2, every sub-box'),
             S('sparse_blockiter', bounds='window sides 1..5 x 1..4 x 1..3, order 0..2'),
             S('sparse_iter_w', {'MAXN': 3}, tier='thorough', bounds='sides 1..3, orders 0..2, every sub-box', time=1500)],
     'every sub-box of the listed windows; every block of windows up to 5x4x3')
prop('C06', [S('sparse_release', {'RELEASE': 1, 'RX': 3}, bounds='windows up to 3x2x2 at block order 1 (2 blocks), any subset allocated, voxel values of any bits'),
             S('sparse_release', {'RELEASE': 1, 'RX': 3, 'RYZ': 1, 'ELEM': 'V3f'}, bounds='the same with V3f up to 3x1x1'),
             S('sparse_release', {'RELEASE': 1, 'RX': 2, 'RYZ': 1, 'ELEM': 'V3d'}, bounds='V3d, up to 2x1x1'),
             S('sparse_release', {'RELEASE': 1, 'RX': 1, 'RYZ': 1, 'ELEM': 'V3h'}, bounds='V3h, one voxel'),
             S('sparse_release', {'RELEASE': 1, 'RX': 3, 'RYZ': 1, 'ELEM': 'double'}, bounds='the same with double'),
             S('sparse_release', {'RELEASE': 1, 'RX': 6}, tier='thorough', bounds='windows up to 6x2x2 (3 blocks)', time=1500)],
     'blocks of 2^3 voxels with arbitrary bit patterns (NaN and infinities included)')
def M(e, n, real=False, elem='V3f', tier='quick', bounds='', **kw):
    return job('mac', e, defs={'MAXN': n, 'ELEM': elem}, tier=tier, opts=['-fp', 'real'] if real else [], bounds=('window sides 1..%d per axis, origin any in +-10^6, %s' % (n, elem)) + bounds, **kw)
_real = '; values of magnitude up to 1000, arithmetic over the reals, equality within 0.002'
prop('C08', [M('mac_store', 2), M('mac_store', 2, elem='V3d'), M('mac_store', 2, elem='V3h'), M('mac_center', 3, True, bounds=_real), M('mac_store', 3, weight=3), M('mac_center', 3, True, 'V3d', bounds=_real), job('mac', 'mac_huge', bounds='six sizes around 2^31 and 2^32 faces')],
     'window sides up to 3 at any origin, two face writes then a read of any face')
prop('C09', [M('mac_iter', 3, weight=2), M('mac_iter_w', 2), M('mac_cells', 3, True, bounds=_real), M('mac_iter', 2, elem='V3d'), M('mac_iter_w', 3, tier='thorough', time=2000)],
     'every sub-box of windows with sides up to 3 (writable: 2, thorough 3)')
prop('C36', [M('conv_exact', 3, True, bounds=_real + '; stub mapping, identity and scaled matrix mappings; padded extents'), M('conv_exact', 2, True, 'V3d', bounds=_real),
             job('mac', 'conv_rot', opts=['-fp', 'real'], bounds='four rotated mappings, any constant field of magnitude up to 1000, over the reals')],
     'dense cell-centred fields with sides up to 3; rotations from a fixed list of four')
SPM = SP + ['FieldMetadata']
_kinds = ['DenseField<float>', 'SparseField<float>', 'MACField<V3f>', 'DenseField<V3h>', 'SparseField<V3d>', 'EmptyField<double>']
prop('C07', [job('copy', 'copy_any', tus=SPM, defs={'KIND': k}, bounds=_kinds[k] + ': three window shapes up to 3x2x3, padded extents, any voxel values; copy, clone, three kinds of assignment; then one of five changes to either field') for k in range(6)],
     'copy construction, clone, assignment to fresh, different and same field, then write/clear/metadata/resize/mapping/delete of either')
SPI = SP + ['FieldMetadata', 'FieldInterp']
R = ['-fp', 'real']
def J(h, e, defs=None, bounds='', tus=SPI, **kw): return job(h, e, tus=tus, defs=defs, bounds=bounds, **kw)
prop('C10', [J('coords', 'coord_rt', bounds='any int within +-2^24 (float) or any int (double)'), J('coords', 'coord_cell', bounds='any finite coordinate whose floor fits an int'), J('coords', 'coord_cell3', bounds='any coordinate vector of magnitude up to 10^6'),
             J('coords', 'box_clip', bounds='any boxes and points'), J('coords', 'box_cont', bounds='any boxes'), J('coords', 'box_disc', bounds='any box of doubles, one axis free at a time', weight=3), J('coords', 'index_coord', bounds='windows up to 4 per side'), J('coords', 'field_bounds', bounds='any windows')],
     'every value of the integer and floating coordinate types, except that the box helpers vary one axis at a time')
prop('C13', [J('curve', 'curve_order', {'NS': 4}, bounds='up to 4 samples at any finite times, in any order'), J('curve', 'curve_clamp', {'NS': 4}, bounds='4 samples, any time'), J('curve', 'curve_lerp', opts=R, bounds='3 samples, any time; over the reals'), J('curve', 'curve_mat', opts=R, bounds='matrix curves of 2 samples; over the reals'), J('curve', 'curve_at', opts=R, bounds='3 samples; over the reals'), J('curve', 'curve_order', {'NS': 5}, bounds='5 samples', tier='thorough')],
     'curves of up to 4 samples at arbitrary times')
prop('C27', [J('meta', 'meta_map', bounds='2 set operations of any kind under any of the names, then every reader'), J('meta', 'meta_copy', {'NOPS': 1}, bounds='1 set operation on each side of a copy'),
             J('meta', 'meta_map', {'NOPS': 3}, tier='thorough', bounds='3 set operations', time=3000)],
     'histories of 2 (3 thorough) set operations over all kinds with arbitrary values')
_cl = 'every bit pattern of the source type'
prop('C29', [J('clampf', e, bounds=_cl) for e in ('clamp_d2i', 'clamp_f2i', 'clamp_f2uc', 'clamp_d2s', 'clamp_f2h', 'clamp_d2h', 'clamp_d2f')], 'every bit pattern of the source type, seven pairs of types')
prop('C30', [J('empty', 'empty_const', bounds='any window, any value'), J('empty', 'empty_const', {'ELEM': 'V3h'}, bounds='the same with V3h'), J('empty', 'empty_interp', opts=R, bounds='interpolation at any point near the window; over the reals'), J('empty', 'proc_const', opts=R, bounds='constant procedural field; over the reals')],
     'any extents, window and constant value')
SPMIP = SP + ['FieldMetadata', 'MIPUtil', 'Resample']
def MI(e, defs=None, bounds='', **kw): return job('mip', e, tus=SPMIP, defs=defs, bounds=bounds, **kw)
_lev = 'base %s, mip offsets -3..3 x 0..1 x 0, size floor 1..4, BoxFilter, one worker'
def LV(a, b, y0, y1, z0, z1, sp=0, **kw): return MI('mip_levels', dict(LO=a, HI=b, RYL=y0, RYH=y1, RZL=z0, RZH=z1, SPARSE=sp), bounds=('sparse ' if sp else 'dense ') + _lev % ('%d..%d x %d..%d x %d..%d' % (a, b, y0, y1, z0, z1)), **kw)
prop('C15', [MI('mip_offsets', opts=['-max-conc', '200'], bounds='base 5 or 9 by 5 by 4, offset -70..70 or around -100000 on any axis'), MI('mip_res', bounds='any base size up to 2^20, levels 0..12'), LV(3, 5, 3, 4, 2, 3), LV(7, 9, 8, 8, 7, 7), LV(7, 9, 8, 8, 7, 7, 1), LV(9, 13, 9, 9, 9, 9), LV(5, 6, 5, 6, 5, 6, 1), LV(14, 19, 9, 10, 9, 10, tier='thorough')],
     'base fields of up to 13x9x9 voxels (19x10x10 thorough), offsets -3..3')
_mm = 'one axis of 2..%d voxels, other axes 3; the odd voxel anywhere along the axis on three lines; five resolution factors; any two values'
prop('C35', [J('part', 'grains_dense', bounds='window sides 1..4 per axis, any origin'), J('part', 'grains_sparse', bounds='window sides up to 5x4x3, any origin, block orders 0..2'),
             MI('minmax', opts=R, bounds=_mm % 6, weight=3), MI('minmax', {'SPARSE': 1, 'MMX': 5}, opts=R, bounds='sparse, ' + _mm % 5, weight=4), MI('minmax', {'MMX': 12}, opts=R, bounds=_mm % 12, tier='thorough')],
     'grains of windows up to 5 per side; min/max pyramids of fields up to 6x3x3 (12 thorough)')
NOT_APPLICABLE = {
 'C33': 'the data path lives in libhdf5 (a large prebuilt C library with global state, no bitcode); the code in reach is a thin marshalling layer whose results only that library can confirm',
}
RT = SPI + ['ClassFactory']
prop('C28', [J('rtti', 'rtti_cast', tus=RT, bounds='27 classes of objects against 42 target classes, each pair'), J('rtti', 'ref_ops', {'NOPS': 3}, tus=RT, bounds='any 3 of five pointer operations over three pointers'),
             J('rtti', 'ref_threads', tus=RT, opts=['-races', '-preempt', '3'], threads=True, bounds='two threads and the owner, up to 3 preemptions at atomic operations; data races by happens-before'),
             J('rtti', 'factory', tus=RT, bounds='any 3 registrations out of eight, then every lookup'), J('rtti', 'ref_ops', {'NOPS': 4}, tier='thorough', tus=RT, bounds='any 4 pointer operations', time=3000)],
     'the shipped class templates over six element types; 3 (4 thorough) pointer operations; three threads with up to 3 preemptions')

TX = SP + ['FieldMetadata', 'PatternMatch', 'FileSequence']
_pa = 'pattern text of up to %d characters over {a b * ? - ^ : space}, name up to %d, attribute up to %d characters over {a b -}'
prop('C25', [J('strings', 'pat_list', tus=TX, defs={'PLEN': 4}, bounds=_pa % (4, 1, 2), reach=('match', 'nomatch')), J('strings', 'pat_list', tus=TX, defs={'PLEN': 5, 'ALEN': 1, 'NLEN': 0}, bounds=_pa % (5, 0, 1), reach=('match', 'nomatch')),
             J('strings', 'pat_attr', tus=TX, defs={'PLEN': 5}, bounds=_pa % (5, 0, 2), reach=('match', 'nomatch')), J('strings', 'pat_field', tus=TX, bounds=_pa % (3, 1, 1), reach=('match', 'nomatch')),
             J('strings', 'pat_list', tus=TX, defs={'PLEN': 6}, bounds=_pa % (6, 1, 2), reach=('match', 'nomatch'), tier='thorough', time=1500)],
     'pattern text of up to 5 characters (6 thorough); bracket expressions are left to the C library',
     ['fnmatch is the C library\'s; the engine uses a model of it, and replays use the real one'])
prop('C26', [J('strings', 'seq_any', tus=TX, defs={'SLEN': 6}, bounds='any text of up to 6 characters over {a - # @ 7}', reach=('plain', 'malformed', 'expanded')), J('strings', 'seq_form', tus=TX, bounds='first and last frame anywhere in 95..107, up to two leading zeros, prefixes of up to 2 and suffixes of up to 1 characters over {a . - 9}', reach=('expanded', 'malformed')),
             J('strings', 'seq_any', tus=TX, defs={'SLEN': 8}, bounds='any text of up to 8 characters over {a - # @ 7}', reach=('plain', 'malformed', 'expanded'), tier='thorough', time=1500)],
     'specifications of up to 6 characters, or ranges of up to 13 frames', ['whether a file of that name exists is a free choice; the file system itself is not consulted'])

_res = 'source %s, target %s; values of magnitude up to 1000, arithmetic over the reals, equality within a tolerance'
C16S = dict(OMAX=2, NMAX=4, MMAX=6)
prop('C16', [MI('res_const', opts=R, bounds='BoxFilter, float'), MI('res_const', dict(ELEM='V3f', VEC=1, FILT='TriangleFilter'), opts=R, bounds='TriangleFilter, V3f'), MI('res_const', dict(FILT='GaussianFilter'), opts=R, bounds='GaussianFilter, float'),
             MI('res_const', dict(SPARSE=1, FILT='MitchellFilter'), opts=R, bounds='MitchellFilter, sparse float'), MI('res_const', dict(FILT='MinFilter'), bounds='MinFilter, float'), MI('res_const', dict(ELEM='V3d', VEC=1, FILT='MaxFilter'), bounds='MaxFilter, V3d'),
             MI('res_const', dict(ELEM='half', FILT='MinFilter', OMAX=2), bounds='MinFilter, half'),
             MI('res_blend', opts=R, bounds='BoxFilter weights'), MI('res_blend', dict(FILT='TriangleFilter', **C16S), opts=R, bounds='TriangleFilter weights'), MI('res_blend', dict(FILT='MitchellFilter', NONNEG=0, **C16S), opts=R, bounds='MitchellFilter weights'),
             MI('res_blend', dict(FILT='GaussianFilter', OMAX=2, NMAX=3, MMAX=4), opts=R, bounds='GaussianFilter weights'),
             MI('sparse_dense', dict(SPARSE=1), opts=R, bounds='dense against sparse, BoxFilter'), MI('sparse_dense', dict(SPARSE=1, FILT='TriangleFilter'), opts=R, bounds='dense against sparse, TriangleFilter')],
     'source and target windows of a few voxels per axis at the listed sizes')
_thr = '%s, %d worker threads, one preemption at synchronisation operations, data races by happens-before'
def TH(sp, n, pre=1, rxs=None, **kw): return MI('mip_threads', dict([('SPARSE', sp), ('THREADS', n)] + ([('RXS', rxs)] if rxs else [])), opts=['-fp', 'real', '-races', '-preempt', str(pre)], threads=True, bounds=('sparse' if sp else 'dense') + (', %d voxels along x' % rxs if rxs else '') + ', %d worker threads, up to %d preemptions at synchronisation operations; data races by happens-before' % (n, pre), **kw)
prop('C34', [TH(1, 2), TH(0, 2), TH(1, 2, rxs=66), TH(0, 2, rxs=34), TH(1, 3, tier='thorough'), TH(1, 2, 2, tier='thorough', time=1500)],
     'two workers (three thorough), one preemption (two thorough)')
RS = ['-fp', 'real', '-split-round', '16']
IN = SPI; INM = SPI + ['MIPUtil', 'Resample']
def IT(e, defs, tus=IN, opts=RS, **kw): return job('interp', e, tus=tus, defs=defs, opts=opts, **kw)
_ex = 'any fractional position in any cell within two voxels of the window, one voxel of any position set apart; origins (0,0,0), (-5,-3,-2), (3,4,7)'
_va = 'any two values of magnitude up to 1000, fractions 0 and 3/8 per axis, any cell within two voxels of the window'
prop('C11', [IT('linear_blend', dict(KIND=0, EXACT=1), bounds='dense float, four shapes up to 3 per side; ' + _ex), IT('linear_blend', dict(KIND=1, EXACT=1, NS=2), bounds='sparse float, block orders 0..2, two shapes; ' + _ex),
             IT('linear_blend', dict(KIND=0, VALUES=1, NS=3), bounds='dense float; ' + _va), IT('linear_blend', dict(KIND=1, VALUES=1, NS=2), bounds='sparse float; ' + _va),
             IT('linear_blend', dict(KIND=1, ELEM='V3f', VEC=1, EXACT=1, NS=1, OLO=1, OHI=1), bounds='sparse V3f; ' + _ex), IT('linear_blend', dict(KIND=0, ELEM='double', VALUES=1, NS=1), bounds='dense double; ' + _va),
             IT('linear_mac', dict(KIND=2, ELEM='V3f', NS=1, SHAPES='{1,1,2}', OLO=1, OHI=1), bounds='staggered V3f 1x1x2; any fraction along one axis'), IT('linear_mac', dict(KIND=2, VALUES=1, ELEM='V3f', NS=2, SHAPES='{2,1,1},{1,2,1}', OLO=1, OHI=1), bounds='staggered V3f; ' + _va),
             IT('interp_inside', dict(KIND=0), opts=R, bounds='dense, any coordinate of magnitude up to 10^6 on one axis'), IT('interp_inside', dict(KIND=1, NS=2), opts=R, bounds='sparse, any coordinate of magnitude up to 10^6 on one axis'), IT('interp_inside', dict(KIND=2, ELEM='V3f', NS=2), opts=R, bounds='staggered, the same'),
             IT('mip_interp', dict(KIND=0), tus=INM, bounds='two-level MIP, any values'), IT('mip_interp', dict(KIND=1, ELEM='double'), tus=INM, bounds='two-level sparse MIP, any values'),
             IT('linear_mac', dict(KIND=2, ELEM='V3f', NS=1, SHAPES='{2,1,2}', OLO=1, OHI=1), tier='thorough', bounds='staggered V3f 2x1x2'), IT('linear_mac', dict(KIND=2, ELEM='V3d', NS=1, SHAPES='{2,1,2}', OLO=2, OHI=2), tier='thorough', bounds='staggered V3d 2x1x2'), IT('linear_blend', dict(KIND=0, ELEM='V3d', VEC=1, EXACT=1, NS=1), tier='thorough', bounds='dense V3d; ' + _ex)],
     'windows up to 3 per side at three origins; either positions are symbolic and values fixed, or values are symbolic and fractions fixed')
_cl2 = 'fields varying along one axis, lines of up to %d samples, any fractional position in any cell within two of the window'
prop('C12', [IT('cubic_line', dict(KIND=0), bounds='dense; ' + _cl2 % 5), IT('cubic_line', dict(KIND=1, LMAX=4, NLINE=2), bounds='sparse; ' + _cl2 % 4), IT('cubic_line', dict(KIND=2, ELEM='V3f', LMAX=2, NLINE=1, OLO=1, OHI=1), bounds='staggered; ' + _cl2 % 2),
             IT('cubic_line', dict(KIND=0, VEC=1, ELEM='V3d', LMAX=4, NLINE=1, OLO=1, OHI=1), bounds='dense V3d; ' + _cl2 % 4),
             IT('cubic_agree', dict(KIND=0), bounds='dense, four shapes; one voxel of any value; centres and offsets of multiples of 3/8'), IT('cubic_agree', dict(KIND=1, NS=3), bounds='sparse, the same'), IT('cubic_agree', dict(KIND=2, ELEM='V3f', NS=3, SHAPES='{2,1,1},{1,3,1},{1,1,2}'), bounds='staggered, the same'),
             IT('interp_inside', dict(KIND=0, CUBIC=1, NS=2), opts=R, bounds='dense, any coordinate of magnitude up to 10^6 on one axis'), IT('interp_inside', dict(KIND=1, CUBIC=1, NS=1), opts=R, bounds='sparse, the same'), IT('interp_inside', dict(KIND=2, CUBIC=1, ELEM='V3f', NS=1), opts=R, bounds='staggered, the same'),
             IT('cubic_line', dict(KIND=2, ELEM='V3f', LMAX=3, NLINE=1, OLO=1, OHI=1), tier='thorough', bounds='staggered; ' + _cl2 % 3), IT('cubic_line', dict(KIND=1), tier='thorough', bounds='sparse; ' + _cl2 % 5)],
     'windows up to 5 along one axis or 3 per side, at three origins')
