"""What each property consists of: functions under contract, lemmas, concrete replay harness."""
FN_TIMEOUT = 500
SRMSRC = 'common/srm_utils.c'
CRCSRC = 'common/crc.c'


def srm(*f):
    return ('k_srm', 'SRM', SRMSRC, ['USE_STDLIB_RND'], list(f))


def H(name, driver, src, defs=(), args=(), rule='', **kw):
    d = dict(name=name, driver=driver, src=list(src), defs=['USE_STDLIB_RND'] + list(defs), args=list(args), rule=rule)
    d.update(kw)
    return d


PROPS = {}
PROPS['C01'] = dict(title='Reported code length and dimension are exact',
    functions=[srm('calc_rm_k', 'calc_srm_k_p', 'calc_srm_k', 'calc_par0_srm_k_p', 'calc_par0_srm_k')],
    lemmas=['K_bounds', 'K_full', 'K_binomial', 'CB_zero', 'SB_pascal', 'SB_full', 'NN_bounds', 'PN_bounds', 'SK_bounds', 'PK_bounds', 'SK_all', 'CN_split', 'PK_count'],
    harness=[H('srm_c01', 'srm.cpp', [SRMSRC], args=['C01'], rule='all m<=20,r<=m for calc_rm_k; random masks (full, empty, random, weighted) for m<=9 against reference recursions; distinct (m,r,mask)')])
PROPS['C02'] = dict(title='RM encoding is the Plotkin (u+v|u) code sent as -1/+1',
    functions=[srm('mrm_enc_mm_bsc', 'mrm_enc_bsc', 'mrm_enc_bpsk')],
    lemmas=['K_bounds', 'K_full', 'E_bits', 'T_is_E'],
    harness=[H('srm_c02', 'srm.cpp', [SRMSRC], args=['C02'], rule='random and structured information vectors for every r<=m<=10 against an independent Plotkin encoder, guard cells around outputs; distinct (m,r,x)')])
PROPS['C03'] = dict(title='Sub-code and polar encoding freezes exactly the masked nodes',
    functions=[srm('mrm_enc_mm_bsc', 'smrm_enc_bsc_p', 'smrm_enc_bsc', 'smrm_enc_bpsk', 'smrm_par0_enc_bsc_p', 'smrm_par0_enc_bsc', 'smrm_par0_enc_bpsk')],
    lemmas=['SK_bounds', 'PK_bounds', 'NN_bounds', 'PN_bounds', 'SE_bits', 'PE_bits', 'SE_all', 'T_bits', 'T_is_E'],
    harness=[H('srm_c03', 'srm.cpp', [SRMSRC], args=['C03'], rule='random masks and information vectors for every r<=m<=9 against an independent masked encoder; distinct (m,r,mask,x)')])
CMM = ('k_mm', 'MMT', 'dtrm_glp/dtrm_glp_inner.c', ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN'], ['code_mm'])
CMML = ['OF_store', 'OF_range', 'OF_nested']
PROPS['C04'] = dict(title='The full-rate transform is its own inverse',
    functions=[srm('mrm_enc_mm_bsc'), CMM],
    lemmas=['T_bits', 'T_local', 'T_linear', 'T_involution', 'OF_store', 'OF_range', 'OF_nested'],
    harness=[H('srm_c04', 'srm.cpp', [SRMSRC], args=['C04'], rule='random vectors, m<=12, separate and in place; distinct (m,x)'),
             H('codemm', 'codemm.cpp', [SRMSRC, 'dtrm_glp/dtrm_glp_inner.c'], rule='random vectors, n<=2^14, iterative against recursive; distinct (n,x)')])
PROPS['C05'] = dict(title='CRC equals the polynomial remainder and detects exactly the mismatches',
    functions=[('k_srm', 'CRC', CRCSRC, ['USE_STDLIB_RND'], ['calc_crc', 'is_valid_crc'])],
    lemmas=['RR_bits_0', 'RR_bits_step'],
    harness=[H('crc', 'crc.cpp', [CRCSRC], rule='all generators of length<=4 with all vectors of length<=6 (sampled to 8), random up to length 330; every single-bit corruption of the check bits; distinct (x,poly)')])
NA = {}
_SRCS = {0: ['dtrm/dtrm0.c', 'common/srm_utils.c', 'common/spf_par.c'],
         1: ['dtrm/dtrm1.c', 'rm1_ml/rm1_ml.c', 'common/srm_utils.c', 'common/spf_par.c'],
         2: ['polar_scl/ca_polar_scl_main.c', 'polar_scl/polar_scl_inner.c', 'common/crc.c', 'common/srm_utils.c', 'common/spf_par.c'],
         3: ['dtrm_glp/dtrm_glp_main.c', 'dtrm_glp/dtrm_glp_inner.c', 'common/srm_utils.c', 'common/spf_par.c']}
CN = {0: 'dtrm0', 1: 'dtrm1', 2: 'polar', 3: 'glp'}


def HC(c, mode, rule):
    return H('%s_%s' % (CN[c], mode), 'codec.cpp', _SRCS[c], defs=['DEC_NEEDS_SIGMA', 'CDC=%d' % c] + (['DEC_NEEDS_CSNRN'] if c == 3 else []), args=[mode], rule=rule)


def dtrm0(*f):
    return ('k_dtrm', 'DTRM0', 'dtrm/dtrm0.c', ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA'], list(f))


REALS = 'double arithmetic is treated as exact real arithmetic in the proofs; the concrete harness runs the real IEEE code'
PROPS['C01']['functions'] += [dtrm0('cdc_get_n', 'cdc_get_k')]
PROPS['C02']['functions'] += [dtrm0('enc_bpsk')]
for c in (0, 1, 2, 3):
    PROPS['C01']['harness'].append(HC(c, 'dim', 'random parameter strings; distinct configurations'))
for c in (0, 1):
    PROPS['C02']['harness'].append(HC(c, 'enc', 'codec enc_bpsk against the reference encoder; distinct (configuration, word)'))
for c in (2, 3):
    PROPS['C03']['harness'].append(HC(c, 'enc', 'codec enc_bpsk against the reference encoder, encodings interleaved between codecs of different masks; distinct (configuration, word)'))
DECRULE = 'random configurations, information vectors and received vectors with correct signs (equal magnitudes, Gaussian magnitudes, huge, tiny, mixed); distinct (configuration, word, received)'
PROPS['C06'] = dict(title='dtrm0: correct hard decisions decode to the sent information',
    functions=[srm('mrm_enc_mm_bsc'), dtrm0('tri0_dec', 'cdc_set_sg', 'dec_bpsk')],
    lemmas=['K_bounds', 'K_full', 'E_bits', 'T_bits', 'T_local', 'T_linear', 'T_involution', 'T_is_E'],
    assumptions=[REALS],
    harness=[HC(0, 'dec', DECRULE)])

LISTDEF = ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN']
POLARSRC, GLPSRC = 'polar_scl/polar_scl_inner.c', 'dtrm_glp/dtrm_glp_inner.c'


def polar(*f):
    return ('k_list', 'POLAR', POLARSRC, LISTDEF, list(f))


def glp(*f):
    return ('k_list', 'GLP', GLPSRC, LISTDEF, list(f))


def HI(name, c, driver, rule, **kw):
    """driver that includes the list decoder's inner source"""
    return H('%s_%s' % (CN[c], name), driver, kw.pop('src', []), defs=['DEC_NEEDS_SIGMA', 'CDC=%d' % c], rule=rule, cxxflags=['-fpermissive'], **kw)


PROPS['C12'] = dict(title='Pruning keeps the best candidates and loses none',
    functions=[polar('qpartition'), glp('qpartition')],
    lemmas=['cnt_local', 'cnt_update', 'cnt_pos', 'cnt_in'],
    harness=[HI('qpart', c, 'qpart.cpp', 'random candidate lists up to 200 entries with ties, equal, increasing, decreasing, -inf metrics and every cut position; distinct lists') for c in (2, 3)])

# ---------------------------------------------------------------- properties with partial proofs so far
_BND = 'bounded concrete check, not counted as proved'


def dtrm1(*f):
    return ('k_rm1', 'DTRM1', 'dtrm/dtrm1.c', ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA'], list(f))


RM1FN = ('k_rm1', 'RM1', 'rm1_ml/rm1_ml.c', ['USE_STDLIB_RND'], ['rm1_dec_sh_finp'])
RM1SH = ('k_rm1', 'RM1', 'rm1_ml/rm1_ml.c', ['USE_STDLIB_RND'], ['rm1_dec_sh'])
RM1LEM = ['Blk_range', 'Blk_zero', 'Blk_apart', 'Blk_next', 'Blk_split', 'Blk_split_only', 'Blk_last', 'Blk_parent', 'FJ_store', 'FJ_front', 'FJ_inj', 'FJ_range', 'BB_block', 'BB_value',
          'addc_sign', 'addc_dom', 'mul_dom', 'rm1_E', 'rm1_values', 'rm1_sums', 'rm1_metrics', 'rm1_start', 'rm1_final']
PROPS['C07'] = dict(title='dtrm1: correct hard decisions decode to the sent information',
    functions=[srm('mrm_enc_mm_bsc', 'mrm_enc_bsc', 'mrm_enc_bpsk'), RM1FN, dtrm1('tri1_dec', 'cdc_set_sg', 'dec_bpsk')],
    lemmas=['K_bounds', 'K_full', 'K_first', 'E_bits', 'E_local', 'T_bits', 'T_local', 'T_linear', 'T_involution', 'T_is_E'] + RM1LEM, assumptions=[REALS, 'm <= 26 (larger lengths overflow the int buffer size)'],
    harness=[HC(1, 'dec', DECRULE)])
PROPS['C01']['functions'] += [dtrm1('cdc_get_n', 'cdc_get_k')]
PROPS['C02']['functions'] += [dtrm1('enc_bpsk')]
PROPS['C08'] = dict(title='Polar SCL: correct hard decisions decode at any list size', level='other',
    functions=[polar('qpartition')], lemmas=['cnt_local', 'cnt_update', 'cnt_pos', 'cnt_in'], assumptions=[REALS], bounded=['list decoder: ' + _BND],
    explanation='bounded concrete checks', harness=[HC(2, 'dec', DECRULE)])
PROPS['C09'] = dict(title='RM list decoder: correct hard decisions decode at any list size', level='other',
    functions=[glp('qpartition'), CMM], lemmas=CMML + ['cnt_local', 'cnt_update', 'cnt_pos', 'cnt_in'], assumptions=[REALS], bounded=['list decoder: ' + _BND],
    explanation='bounded concrete checks', harness=[HC(3, 'dec', DECRULE)])
PURERULE = 'random configurations and received vectors (noisy, all zero, constant magnitude, huge, erased positions, tiny); distinct (configuration, received, repetition)'
PROPS['C10'] = dict(title='Polar list decoding stays inside its memory for every input',
    functions=[polar('qpartition'), ('k_polar', 'POLARD', POLARSRC, LISTDEF, ['polar_dec_inner', 'polar_dec', 'polar0_branch', 'polar0_skip', 'vgetx']),
               ('k_polar', 'PMEM', 'polar_scl/ca_polar_scl_main.c', ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA'], ['get_membuf_size'])],
    lemmas=['cnt_local', 'cnt_update', 'cnt_pos', 'cnt_in', 'cnt_dup', 'cnt_dist', 'dep_local', 'imul_scale', 'imul_sum', 'imul_mono', 'PN_bounds', 'PK_bounds', 'PK_count'], assumptions=[REALS,
      'the decoder instance is as cdc_init leaves it (identity permutation, node list sizes within the list size, work memory of get_membuf_size bytes, sizes that fit an int): checked concretely by the harness, cdc_init itself is not under contract'],
    harness=[HC(2, 'pure', PURERULE)])
COST = {'polar_dec_inner': 300, 'polar_dec': 200, 'polar0_branch': 50}
PROPS['C11'] = dict(title='RM list decoding stays inside its memory for every input', level='other',
    functions=[glp('qpartition'), CMM], lemmas=CMML + ['cnt_local', 'cnt_update', 'cnt_pos', 'cnt_in'], bounded=['list decoder: ' + _BND],
    explanation='bounded concrete checks', harness=[HC(3, 'pure', PURERULE)])
PROPS['C13'] = dict(title='CRC-aided choice: best valid candidate, else best candidate flagged', level='other',
    functions=[('k_srm', 'CRC', CRCSRC, ['USE_STDLIB_RND'], ['calc_crc', 'is_valid_crc'])], lemmas=['RR_bits_0', 'RR_bits_step'], bounded=['one clause of the contract of polar_dec (a list that is not full holds a word with valid CRC) is assumed at the call in dec_bpsk; the rest of that contract is proved under C10: ' + _BND],
    explanation='bounded concrete checks', harness=[HC(2, 'scl', 'random polar configurations with and without CRC, noisy words, compared with an independent list decoder when its decisions are not near ties; distinct (configuration, word)')])
PROPS['C14'] = dict(title='Parameter text: comments vanish, tokens and groups survive in order', level='other',
    functions=[('k_par', 'SPF', 'common/spf_par.c', [], ['strcpy_strip_comments'])], lemmas=[], bounded=['spf_read_preparse, spf_tryread_preparse (reading of files, splitting into tokens): ' + _BND], explanation='the removal of comments is proved, the rest is checked concretely',
    harness=[H('par', 'par.cpp', ['common/spf_par.c'], rule='generated parameter files with comments, includes, braces, separators, sizes at the limit, against an independent tokenizer; distinct files')])
_SIM = ['simulators/sim_bg.c', 'common/spf_par.c']


def HS(mode, rule):
    return H('sim_' + mode, 'sim.cpp', _SIM, defs=['DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN'], args=[mode], rule=rule)


SIMDEF = ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN']


def sim(*f):
    return ('k_sim', 'SIM', 'simulators/sim_bg.c', SIMDEF, list(f))


PROPS['C15'] = dict(title='Saved results accumulate every trial exactly once', level='other', functions=[sim('init_sim_point', 'copy_sim_point', 'add_sim_points', 'sub_sim_points')], lemmas=[], bounded=['sim_save_res: ' + _BND], explanation='bounded concrete checks',
    harness=[HS('c15', 'histories of runs and saves by up to three simulator instances sharing one results file, random SNR lists, saves that cannot open the file, full tables; distinct histories')])
PROPS['C16'] = dict(title='Simulation counts trials and errors exactly and stops only when allowed', functions=[sim('sim_run', 'update_trn_req')], lemmas=['estimate'], assumptions=[REALS],
    harness=[HS('c16', 'random simulation parameters and decoder outcomes, random interruptions and control codes; distinct runs')])
PROPS['C17'] = dict(title='Decoding is a function of the received word', level='other', functions=[], lemmas=[], bounded=['dec_bpsk of the four codecs: ' + _BND], explanation='bounded concrete checks',
    harness=[HC(c, 'pure', PURERULE) for c in (0, 1, 2, 3)])
PROPS['C18'] = dict(title='Coordinate permutations are consistent bijections', level='other', functions=[], lemmas=[], bounded=['cdc_init: ' + _BND], explanation='bounded concrete checks',
    harness=[H('perm', 'perm.cpp', ['@harness/glp_acc.c', 'dtrm_glp/dtrm_glp_inner.c', 'common/srm_utils.c', 'common/spf_par.c'], defs=['DEC_NEEDS_SIGMA', 'DEC_NEEDS_CSNRN'], rule='random permutation lists for 3<=m<=9; distinct parameter strings')])
PROPS['C19'] = dict(title='Channel noise has the configured level and leaves the sent word intact', functions=[sim('sim_run', 'copy_add_noise', 'db2val')], lemmas=[], assumptions=[REALS],
    harness=[HS('c19', 'random simulation parameters, recorded uniform draws including extreme ones; distinct runs')])
PROPS['C20'] = dict(title='First-order RM decoding is maximum likelihood', functions=[RM1FN, RM1SH], lemmas=RM1LEM + ['pair_likelihood', 'log_pair', 'rm1_likelihood', 'eps_range'],
    bounded=['rm1_dec_lst (first word of its list): ' + _BND],
    assumptions=[REALS, 'log(uv) = log u + log v', 'm <= 26; the identity metric = log-likelihood is proved for inputs on which no combined reliability reaches the clipping level 1-1e-8 (with clipping the decoder maximises the clipped metric)'],
    harness=[H('ml', 'ml.cpp', ['rm1_ml/rm1_ml.c'], rule='random reliabilities for m<=7 against exhaustive search; distinct reliability vectors')])


# ---------------------------------------------------------------- list codecs (codec interface level)
def polarm(*f):
    return ('k_codec', 'POLARM', 'polar_scl/ca_polar_scl_main.c', ['USE_STDLIB_RND', 'DEC_NEEDS_SIGMA'], list(f))


def glpm(*f):
    return ('k_codec', 'GLPM', 'dtrm_glp/dtrm_glp_main.c', LISTDEF, list(f))


PROPS['C01']['functions'] += [polarm('cdc_get_n', 'cdc_get_k'), glpm('cdc_get_n', 'cdc_get_k')]
PROPS['C03']['functions'] += [polarm('enc_bpsk'), glpm('enc_bpsk'), ('k_srm', 'CRC', CRCSRC, ['USE_STDLIB_RND'], ['calc_crc'])]
PROPS['C03']['lemmas'] += ['PE_local', 'RR_bits_0', 'RR_bits_step']
PROPS['C13']['functions'] += [polarm('get_best_in_list', 'dec_bpsk')]
PROPS['C10']['functions'] += [polarm('dec_bpsk')]
PROPS['C13']['lemmas'] += ['imul_mono', 'imul_dist', 'PE_local']
PROPS['C12']['harness'] += [HC(2, 'scl', 'noisy words against an independent list decoder that keeps the best L after every decision, where its decisions are not near ties; distinct (configuration, word)'),
                            HC(3, 'lst', 'noisy words against an independent list decoder that keeps the best L after every decision, where its decisions are not near ties; distinct (configuration, word)')]
