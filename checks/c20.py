"""C20: input files."""

import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import env
elphmod = env.import_elphmod()

import copy, glob, itertools, math, re
import numpy as np

import elphmod.bravais as b

from mc import gen
from mc.common import Check, Violation, require, close, equal

elphmod.misc.verbosity = 0

check = Check('C20', 'exploration',
    rule='all pairs of entries in all namelist styles; all sequences of array '
    'assignments up to length 3; all pairs of parameters of each input file; '
    'all orders and styles of cards and blocks; oracle: known content, '
    'independent character-level namelist parser; trivial: no entries')

# --- independent namelist parser

class Illegal(Exception):
    pass

def value(token):
    t = token.lower()
    if re.fullmatch(r'\.?[tf][a-z]*\.?', t):
        return t.strip('.')[0] == 't'
    if re.fullmatch(r'[+-]?\d+', t):
        return int(t)
    if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([ed][+-]?\d+)?', t):
        return float(t.replace('d', 'e'))
    raise Illegal('illegal value %r' % token)

def parse(text):
    """Parse namelists character by character."""

    groups, i, n = [], 0, len(text)
    while i < n:
        # start of namelist only at beginning of line
        if text[i] == '&' and not text[:i].rpartition('\n')[2].strip():
            j = i + 1
            while j < n and (text[j].isalnum() or text[j] == '_'):
                j += 1
            name, tokens = text[i + 1:j].lower(), []
            while True:
                if j >= n:
                    raise Illegal('unterminated namelist')
                c = text[j]
                if c == '/':
                    break
                elif c == '!':
                    while j < n and text[j] != '\n':
                        j += 1
                elif c in '\'"':
                    k = text.index(c, j + 1)
                    while text[k + 1:k + 2] == c: # doubled delimiter
                        k = text.index(c, k + 2)
                    tokens.append(('value', text[j + 1:k].replace(2 * c, c)))
                    j = k + 1
                elif c == '*' and tokens and text[j - 1].isdigit():
                    tokens[-1] = '*', tokens[-1][1]
                    j += 1
                elif c in '=()':
                    tokens.append((c, c))
                    j += 1
                elif c.isspace() or c == ',':
                    j += 1
                else:
                    k = j
                    while k < n and text[k] not in '=(),\'"/!*' \
                            and not text[k].isspace():
                        k += 1
                    tokens.append(('word', text[j:k]))
                    j = k
            data, key, index, t = {}, None, 0, 0
            kinds = [kind for kind, _ in tokens] + ['']
            while t < len(tokens):
                kind, word = tokens[t]
                if kind == 'word' and kinds[t + 1] == '=':
                    key, index, t = word.lower(), 0, t + 2
                    data.setdefault(key, {})
                elif kinds[t:t + 5] == ['word', '(', 'word', ')', '=']:
                    key, index = word.lower(), int(tokens[t + 2][1].split(':')[0]) - 1
                    data.setdefault(key, {})
                    t += 5
                elif kinds[t:t + 2] == ['word', '(']:
                    u = kinds.index(')', t)
                    require(kinds[u + 1] == '=', 'subscripts')
                    key = '%s(%s)' % (word.lower(), ','.join(
                        str(int(x)) for _, x in tokens[t + 2:u]))
                    index = 0
                    data.setdefault(key, {})
                    t = u + 2
                elif key is not None and kind in ('word', 'value', '*'):
                    count = 1
                    if kind == '*':
                        count = int(word)
                        t += 1
                        kind, word = tokens[t]
                    for _ in range(count):
                        data[key][index] = (word if kind == 'value'
                            else value(word))
                        index += 1
                    t += 1
                else:
                    raise Illegal('unexpected %r' % word)
            for key, items in data.items():
                if not items:
                    raise Illegal('no value for %r' % key)
                items = [items.get(m) for m in range(max(items) + 1)]
                data[key] = items if len(items) > 1 else items[0]
            groups.append((name, data))
            i = j
        i += 1
    return groups

def same(got, want, what):
    """Compare including types."""

    if isinstance(want, dict):
        equal(sorted(got), sorted(want), 'keys of %s' % what)
        for key in want:
            same(got[key], want[key], '%s[%r]' % (what, key))
    elif isinstance(want, np.ndarray):
        got = np.asarray(got)
        equal(got.shape, want.shape, 'shape of %s' % what)
        close(got, want, what, tol=6e-10)
    elif isinstance(want, (list, tuple)):
        require(isinstance(got, (list, tuple)), '%s: %r', what, got)
        equal(len(got), len(want), 'length of %s' % what)
        for n in range(len(want)):
            same(got[n], want[n], '%s[%d]' % (what, n))
    else:
        equal((type(got).__name__, got), (type(want).__name__, want), what)

def write(name, text):
    with open(name, 'w') as f:
        f.write(text)

# --- namelists

STRINGS = ['x', 'a b', './a/b/', '/', 'a!b', 'a=b', 'a,b', "it's me",
    'say "x"', 'say "it\'s"', '5\'4"', 'a\\n', "2*'3'", '&x', '(1)', '', 't', '1', ' a ', 'A;b', '.true.', "''"[:1]
    + 'x y']

def quoted(s):
    return sorted(c + s.replace(c, 2 * c) + c for c in '\'"')

LITERALS = [(lit, s) for s in STRINGS for lit in quoted(s)]
LITERALS += [(x, True) for x in ('.true.', '.TRUE.', 'T', 't', '.t.', 'True')]
LITERALS += [(x, False) for x in ('.false.', '.False.', 'F', 'f', '.F.',
    'False')]
LITERALS += [(x, int(x)) for x in ('0', '-1', '+2', '0012', '123456')]
LITERALS += [(x, float(re.sub('[dD]', 'e', x))) for x in ('1.', '.5', '-0.25',
    '1e3', '1d-3', '1D+3', '1.5E-3', '+2.50d0', '-1.d-16', '0.0')]

SEPARATORS = '\n', ', ', ',\n', ' ', ' ,'
EQUALS = '=', ' = ', '= ', ' =', ' \n = \n '
COMMENTS = '', '! comment', "! isn't = 'x", '! a / b', '! a = 5, b = "'
HEADS = '', 'title line\n', "it isn't a title & more / 2\n", '\n\n'
TAILS = '/\n', '\n/\n', ' /', '/ 0 0 0\nCARD x\n1 2 3\n'

@check.family
def styles(ctx, first, stride):
    """Two entries in all styles."""

    lit, val = LITERALS[first]
    combos = list(itertools.product(SEPARATORS, EQUALS, COMMENTS, HEADS, TAILS,
        (str.lower, str.upper)))
    for n, (lit2, val2) in enumerate(LITERALS):
        # all styles occur with each first value, spread over second values
        for sep, eq, comment, head, tail, case in combos[n % stride::stride]:
            if comment:
                if '\n' not in sep:
                    continue
                sep = ' ' + comment + '\n' if sep == '\n' else ', ' \
                    + comment + '\n'
            text = (head + case('&input') + ' ' + case('key1') + eq + lit + sep
                + case('key_2') + eq + lit2 + (' %s\n' % comment if comment
                else ' ') + tail)
            write('input', text)
            want = dict(key1=val, key_2=val2)
            try:
                equal(parse(text), [('input', want)], 'oracle')
                got = elphmod.misc.read_namelists('input')
                equal(list(got), ['input'], 'namelists')
                same(got['input'], want, 'namelist')
                same(elphmod.misc.read_input_data('input'), want, 'input data')
            except Violation as e:
                raise Violation('%s in:\n%s' % (e, text))
            ctx.traces += 1
    ctx.outcome(lit)

ASSIGN = ['k = 1', 'k(1) = 2', 'k(2) = 3.0', 'k(4) = .true.', "k = 'a', 'b'",
    'k(2) = 5 6', 'k( 3 ) = "x y",7', 'k (2) = F', 'l = 1', 'l(2)=2',
    'K(2) = 11', 'k = 3*0.5', "k(2) = 4, 2*'a*b' 2*T", 'k(1, 2) = 5',
    "K( 2,1 , 3 )= 'x'", 'l = 1*-2']

@check.family
def arrays(ctx, word, sep):
    """Sequences of assignments."""

    text = ('&a\n' + sep.join(ASSIGN[i] for i in word) + '\n/\n&b'
        + ('', ' ', '\n')[len(word) % 3] + '/\n&CcC/\n')
    want = {}
    for i in word:
        key, _, values = ASSIGN[i].lower().partition('=')
        match = re.match(r'(\w) ?(?:\( ?(\d) ?\))?', key)
        start = int(match.group(2) or 1) - 1
        key = match.group(1)
        if ASSIGN[i] == 'k(1, 2) = 5':
            key = 'k(1,2)'
        elif ASSIGN[i].startswith('K( 2,1'):
            key = 'k(2,1,3)'
        values = [v for r, v in re.findall(
            r'(?:(\d)\*)?(\'.*?\'|".*?"|[^\s,]+)', values)
            for _ in range(int(r or 1))]
        for n, v in enumerate(values):
            want.setdefault(key, {})[start + n] = (v[1:-1]
                if v[0] in '\'"' else value(v))
    for key, items in want.items():
        items = [items.get(m) for m in range(max(items) + 1)]
        want[key] = items if len(items) > 1 else items[0]
    equal(parse(text), [('a', want), ('b', {}), ('ccc', {})], 'oracle')
    write('input', text)
    same(elphmod.misc.read_namelists('input'), dict(a=want, b={},
        ccc={}), 'namelists')
    ctx.outcome((word, sep), len(word) > 0)

# --- parameters of input files

S = ["x", './a/b', 'a b', "it's", '"', 'a\\b', "''", '"it\'s"']
I = [2, np.int64(3)]
R = [0.5, -1e-14, 1e3, np.float64(0.1), np.float32(0.25), 3]
L = [True, False, np.bool_(True), np.bool_(False)]

def lists(values):
    """Lists with and without missing elements, arrays."""

    two = values[:2]
    return [list(two), [None, values[0]], tuple(two), [values[0]]]

PWI = dict(
    control=dict(title=S, prefix=S, outdir=S, pseudo_dir=S,
        calculation=['scf', 'relax', 'md', 'vc-relax', 'vc-md', 'bands'],
        tprnfor=L, tstress=L, nstep=I, forc_conv_thr=R),
    system=dict(celldm=[[5.0], [5.0, None, 1.5], [5, 1.0, 2.0, 0.1, 0.2, 0.3],
            np.array([7.5, 1.25]), [4.0, 0.0, 1.1]],
        ibrav=[0, 4, -12, np.int32(1)], a=R[:1], b=R[:1], c=R[:1], cosbc=R[:2],
        cosac=R[:2], cosab=R[:2], ecutwfc=R, ecutrho=R, nbnd=I,
        occupations=['smearing'], smearing=['m-p', 'f-d'], degauss=R, nosym=L,
        noinv=L, tot_charge=R, assume_isolated=['2D'], nspin=I, noncolin=L,
        lspinorb=L, tot_magnetization=R,
        starting_magnetization=R[:2] + lists(R) + [np.array([0.5, 1.0])],
        space_group=I, uniqueb=L, origin_choice=I, rhombohedral=L),
    electrons=dict(electron_maxstep=I, conv_thr=R, diagonalization=S[:1],
        diago_full_acc=L, mixing_beta=R, startingpot=['file'],
        startingwfc=['random'], scf_must_converge=L),
    ions=dict(ion_dynamics=['bfgs'], upscale=R),
    cell=dict(cell_dynamics=['bfgs'], cell_dofree=['2Dxy'], press=R,
        press_conv_thr=R))

OTHER = dict(
    ph=dict(inputph=dict(prefix=S, outdir=S, fildyn=S, fildvscf=S, ldisp=L,
        nq1=I, nq2=I, nq3=I, tr2_ph=R, alpha_mix=R[:2] + lists(R), cdfpt=L,
        subspace=S, cdfpt_bnd=I + lists(I), cdfpt_orb=I + lists(I))),
    q2r=dict(input=dict(fildyn=S, flfrc=S, zasr=['simple', 'no'])),
    matdyn=dict(input=dict(flfrc=S, flfrq=S, fldos=[' ', 'x'], fleig=[' '],
        flvec=[' '], asr=['simple'], loto_2d=L, q_in_band_form=L,
        q_in_cryst_coord=L)),
    epw=dict(inputepw=dict(prefix=S, outdir=S, dvscf_dir=S, wannierize=L,
        elph=L, epbwrite=L, epwwrite=L, epbread=L, epwread=L, use_ws=L,
        nbndsub=I, bands_skipped=['exclude_bands = 1:5'], dis_win_min=R,
        dis_win_max=R, dis_froz_min=R, dis_froz_max=R,
        proj=[['C:pz'], ['Ta:dz2', 'Ta:dxy, dx2-y2'], [None, 'random']],
        num_iter=I, wdata=[['bands_plot = .true.'],
            ["begin kpoint_path", "G 0.00 0.00 0.00 M 0.50 0.00 0.00",
            "end kpoint_path"]], nk1=I, nk2=I, nk3=I, nq1=I, nq2=I, nq3=I,
        nkf1=I, nkf2=I, nkf3=I, nqf1=I, nqf2=I, nqf3=I)))

WIN = dict(num_bands=I, num_wann=I, dis_win_min=R, dis_win_max=R,
    dis_froz_min=R, dis_froz_max=R, write_hr=L, bands_plot=L, wannier_plot=L,
    dis_num_iter=I, num_iter=I, search_shells=I,
    mp_grid=[[2, 1, 1], np.array([1, 2, 3])],
    proj=[{'C': 'pz'}, {'Ta': 'l=2,mr=1:z=0,1,1:x=1,0,0',
        'f=0.33,0.33,0.5': 's'}],
    kpoint_path=[['G 0.0 0.0 0.0 M 0.5 0.0 0.0', 'M 0.5 0.0 0.0 K 0.3 0.3 0'],
        []])
FLOATS = {'dis_win_min', 'dis_win_max', 'dis_froz_min', 'dis_froz_max'}

def plain(v, key=None):
    """What a value should be read as."""

    if isinstance(v, (list, tuple, np.ndarray)):
        v = [plain(x, key) for x in v]
        if key in ('celldm', ):
            v = [x if x else None for x in v]
        if key in ('celldm', 'proj', 'wdata'):
            while v and v[-1] is None:
                v.pop()
            return v
        return v if len(v) > 1 else v[0]
    if isinstance(v, np.generic):
        v = v.item()
    if key in ('celldm', 'proj', 'wdata') and not isinstance(v, list):
        return v
    return v

def pwi_base(nat=2, ntyp=2, coords='crystal', ktyp='automatic', units=None):
    struct = dict(ibrav=4, nat=nat, ntyp=ntyp,
        at_species=['Ta', 'S1'][:ntyp], mass=[180.94788, 32.065][:ntyp],
        pp=['Ta.upf', 'S-x_1.UPF'][:ntyp], coords=coords,
        at=[['Ta', 'S1'][n % ntyp] for n in range(nat)])
    struct['r'] = gen.real((nat, 3), 'c20', nat) * 3
    if 'crystal_sg' in coords:
        struct['r'] = ['2a', '6h 0.3', '8d 0.1 0.25'][:nat]
    struct['ktyp'] = ktyp
    if ktyp == 'automatic':
        struct['k_points'] = [6, 5, 4, 0, 1, 0]
    elif ktyp != 'gamma':
        struct['nks'] = 4
        struct['k_points'] = np.array([[0, 0, 0, 1], [0.5, -0.25, 0, 10],
            [1 / 3, 1 / 3, -2, 0.125], [0.2, 0, 0.3, 2.5]])
    if units is not None:
        struct['r_cell'] = gen.lattice('hex')
        struct['cell_units'] = units
    return struct

CARDS = ('ATOMIC_SPECIES', 'ATOMIC_POSITIONS', 'K_POINTS', 'CELL_PARAMETERS')

def cards(text):
    """Independent reading of cards."""

    found = {}
    lines = [line.split() for line in text.splitlines() if line.strip()]
    for n, words in enumerate(lines):
        if words[0].upper() in CARDS:
            require(words[0].upper() not in found, 'repeated card')
            m = n + 1
            while m < len(lines) and lines[m][0].upper() not in CARDS:
                m += 1
            found[words[0].upper()] = words[1:], lines[n + 1:m]
    return found

def pwi_written(struct, text):
    """Check that file is legal and complete."""

    groups = parse(text)
    names = ['control', 'system', 'electrons']
    calculation = struct.get('calculation')
    if calculation in ('relax', 'md', 'vc-relax', 'vc-md'):
        names.append('ions')
    if calculation in ('vc-relax', 'vc-md'):
        names.append('cell')
    equal([name for name, _ in groups], names, 'namelists')
    for name, data in groups:
        want = {key: plain(struct[key], key) for key in PWI[name]
            if key in struct}
        if name == 'system':
            want.update(nat=struct['nat'], ntyp=struct['ntyp'])
            if isinstance(want.get('celldm'), list) and len(
                    want['celldm']) == 1:
                want['celldm'] = want['celldm'][0]
        same(data, want, 'namelist %s' % name)
    c = cards(text)
    equal(c['ATOMIC_SPECIES'][1], [[X, '%.12g' % m, p] for X, m, p in zip(
        struct['at_species'], struct['mass'], struct['pp'])], 'species')
    equal(c['ATOMIC_POSITIONS'][0], [struct['coords']], 'units')
    equal([w[0] for w in c['ATOMIC_POSITIONS'][1]], struct['at'], 'atoms')
    if 'r_cell' in struct:
        equal(c['CELL_PARAMETERS'][0], [struct['cell_units']], 'units')
        close([list(map(float, w)) for w in c['CELL_PARAMETERS'][1]],
            struct['r_cell'], 'cell', tol=6e-10)
    else:
        require('CELL_PARAMETERS' not in c, 'cell')

def expected_pwi(struct):
    want = {}
    names = {'control', 'system', 'electrons'}
    if struct.get('calculation') in ('relax', 'md', 'vc-relax', 'vc-md'):
        names.add('ions')
    if struct.get('calculation') in ('vc-relax', 'vc-md'):
        names.add('cell')
    for key, v in struct.items():
        space = [n for n in PWI if key in PWI[n]]
        if space and space[0] not in names:
            continue
        want[key] = plain(v, key) if space else v
    return want

def cycle(name, reader, writer, struct, want, written=None):
    """Write, read, and write again."""

    given = copy.deepcopy(struct)
    writer(name, struct)
    same(struct, given, 'given data')
    text = open(name).read()
    try:
        if written is not None:
            written(struct, text)
        got = reader(name)
        same(got, want, 'data read')
        writer(name + '2', got)
        got2 = reader(name + '2')
        same(got2, want, 'data read again')
        writer(name + '3', got2)
        equal(open(name + '3').read(), open(name + '2').read(),
            'file written again')
    except (Violation, Illegal) as e:
        raise Violation('%s in:\n%s' % (e, text))
    return text

def pairs(fields, n):
    """Parameter sets with at most two of the parameters."""

    keys = list(fields)
    sets = [{}] + [{k: v} for k in keys for v in fields[k]]
    sets += [{k: fields[k][n % len(fields[k])],
        l: fields[l][n // 2 % len(fields[l])]}
        for k, l in itertools.combinations(keys, 2)]
    sets += [{k: fields[k][m % len(fields[k])] for k in keys}
        for m in range(n, n + 2)]
    return sets

@check.family
def pwi_parameters(ctx, n):
    fields = {}
    for group in PWI.values():
        fields.update(group)
    for params in pairs(fields, n):
        for calculation in (None, 'vc-relax'):
            struct = pwi_base()
            struct.update(params)
            if calculation and 'calculation' not in params:
                struct['calculation'] = calculation
            want = expected_pwi(struct)
            # scalars are written as first element
            cycle('pw.in', b.read_pwi, b.write_pwi, struct, want, pwi_written)
            ctx.traces += 1
    ctx.outcome(n)

@check.family
def pwi_cards(ctx, nat, ntyp, coords, ktyp, units, full):
    struct = pwi_base(nat, ntyp, coords, ktyp, units)
    if units is not None:
        struct.update(ibrav=0, celldm=[5.5])
    want = expected_pwi(struct)
    text = cycle('pw.in', b.read_pwi, b.write_pwi, struct, want, pwi_written)
    if units is not None and 'crystal_sg' not in coords:
        unit = dict(alat=5.5, bohr=1, angstrom=1 / elphmod.misc.a0)[units]
        close(b.primitives(bohr=True, **b.read_pwi('pw.in')),
            struct['r_cell'] * unit, 'lattice vectors', tol=1e-8)

    # optional parts
    if ktyp == 'gamma':
        del struct['ktyp']
        del want['ktyp']
        cycle('pw.in', b.read_pwi, b.write_pwi, struct, want)

    # other orders and styles
    head, rest = text.split('ATOMIC_SPECIES')
    blocks = re.split(r'\n(?=ATOMIC_POSITIONS|K_POINTS|CELL_PARAMETERS)',
        'ATOMIC_SPECIES' + rest)
    if 'ktyp' in struct or ktyp != 'gamma':
        want = expected_pwi(pwi_base(nat, ntyp, coords, ktyp, units))
        if units is not None:
            want.update(ibrav=0, celldm=[5.5])
    else:
        want['ktyp'] = ktyp
    orders = list(itertools.permutations(range(len(blocks))))
    styles = '%s', '{%s}', '(%s)', '{ %s }', ' %s ', '( %s )'
    for n, order in enumerate(orders):
        for style, case, gap in itertools.product(styles, (str, str.lower,
                str.capitalize), ('\n', '\n\n \n')):
            if not full and n != len(orders) - 1 and (case, gap) != (
                    (str, str.lower, str.capitalize)[n % 3], '\n'):
                continue
            new = []
            for i in order:
                first, _, body = blocks[i].partition('\n')
                title, _, unit = first.partition(' ')
                new.append(case(title) + (' ' + style % unit if unit
                    else '') + '\n' + body.rstrip() + '\n')
            write('other.in', head + gap.join(new))
            try:
                same(b.read_pwi('other.in'), want, 'data read')
            except Violation as e:
                raise Violation('%s in:\n%s' % (e,
                    open('other.in').read()))
            ctx.traces += 1
    # comments and blank lines between any lines of the cards
    for extra in '', '  ', '! comment', ' # 1 2 3', '!':
        for n in range(rest.count('\n') + 1):
            lines = ('ATOMIC_SPECIES' + rest).split('\n')
            lines.insert(n, extra)
            write('other.in', head + '\n'.join(lines))
            try:
                same(b.read_pwi('other.in'), want, 'data read')
            except (Violation, IndexError, ValueError, StopIteration) as e:
                raise Violation('%r in:\n%s' % (e,
                    open('other.in').read()))
            ctx.traces += 1
    # default units
    if ktyp == 'tpiba' or coords == 'alat' or units == 'bohr':
        new = text
        if ktyp == 'tpiba':
            new = new.replace('K_POINTS tpiba', 'K_POINTS')
        if coords == 'alat':
            new = new.replace('ATOMIC_POSITIONS alat', 'ATOMIC_POSITIONS')
        if units == 'bohr':
            new = new.replace('CELL_PARAMETERS bohr', 'CELL_PARAMETERS')
        write('other.in', new)
        same(b.read_pwi('other.in'), want, 'defaults')
    ctx.outcome((nat, ntyp, coords, ktyp, units))

@check.family
def parameters(ctx, kind, n):
    (name, fields), = OTHER[kind].items()
    reader, writer = getattr(b, 'read_' + kind), getattr(b, 'write_' + kind)

    def written(struct, text):
        want = {key: plain(struct[key], key) for key in fields
            if key in struct}
        for key in 'proj', 'wdata':
            if key in want and len(want[key]) == 1:
                want[key] = want[key][0]
        equal([name for name, _ in parse(text)], [name], 'namelists')
        same(parse(text)[0][1], want, 'namelist')

    for params in pairs(fields, n):
        struct = dict(params)
        want = {key: plain(v, key) for key, v in params.items()}
        if kind == 'matdyn':
            nq = len(params) % 4
            struct.update(nq=nq, q=gen.real((nq, 4), 'q', nq) * 2)
            want.update(nq=nq, q=struct['q'])
        cycle(kind + '.in', reader, writer, struct, want, written)
        if kind == 'matdyn':
            text = open('matdyn.in').read()
            head, _, tail = text.rpartition('\n/\n')
            for sep in ' /\n', '\n / \n\n', '\n/ ! end / x\n', \
                    ' ! not yet / 1 2\n/\n':
                write('other.in', head + sep + tail)
                same(reader('other.in'), want, 'data read')
            # density of states: no q points
            write('other.in', head + '\n/\n')
            want = {k: v for k, v in want.items() if k not in ('q', 'nq')}
            same(reader('other.in'), want, 'data read without q points')
        ctx.traces += 1
    ctx.outcome((kind, n))

# --- Wannier90 and VASP

def win_base(coords='frac', nat=2):
    return dict(unit_cell=gen.lattice('mono'), atoms_coords=coords,
        at=['Ta', 'S', 'S'][:nat], atoms=gen.real((nat, 3), 'win', nat))

def expected_win(struct):
    want = dict(struct)
    for key in WIN:
        if key not in want:
            continue
        v = want[key]
        if key == 'mp_grid':
            want[key] = np.array(v)
        elif key in FLOATS:
            want[key] = float(v)
        elif not isinstance(v, (list, dict)):
            want[key] = v.item() if isinstance(v, np.generic) else v
    if not want.get('kpoint_path'):
        want.pop('kpoint_path', None)
    return want

@check.family
def win_parameters(ctx, n):
    for params in pairs(WIN, n):
        struct = win_base()
        struct.update(params)
        if 'mp_grid' in params:
            nk = int(np.prod(params['mp_grid']))
            struct['kpoints'] = np.hstack([gen.real((nk, 3), 'k', nk),
                np.full((nk, 1), 1 / nk)])
        cycle('x.win', b.read_win, b.write_win, struct, expected_win(struct))
        ctx.traces += 1
    ctx.outcome(n)

@check.family
def win_styles(ctx, coords, nat, delimiter, case):
    struct = win_base(coords, nat)
    struct.update({key: v[0] for key, v in WIN.items()})
    struct['kpoints'] = np.array([[0, 0, 0, 0.5], [0.5, 0, 0, 0.5]])
    want = expected_win(struct)
    cycle('x.win', b.read_win, b.write_win, struct, want)
    want['kpoints'] = np.array([[0, 0, 0, 0], [0.5, 0, 0, 0]])
    change = dict(lower=str.lower, upper=str.upper, title=str.capitalize)[case]

    def block(name, lines):
        return [change('begin') + '   ' + change(name), *lines,
            change('end') + ' ' + change(name)]

    def rows(matrix):
        return [' %.12f  %.12f  %.12f ' % tuple(v[:3]) for v in matrix]

    blocks = [
        block('projections', ['%s: %s' % item for item in
            struct['proj'].items()]),
        block('kpoint_path', ['  ' + line for line in struct['kpoint_path']]),
        block('unit_cell_cart', rows(struct['unit_cell'])),
        block('atoms_' + coords, [X + v for X, v in zip(struct['at'],
            rows(struct['atoms']))]),
        []]
    for key, v in struct.items():
        if key not in WIN or key in ('proj', 'kpoint_path', 'mp_grid'):
            continue
        if isinstance(v, (bool, np.bool_)):
            v = dict(lower='.%s.', upper='%s', title='.%s.')[case] % (
                'true' if v else 'false')[:None if case == 'lower' else 1]
        blocks[-1].append(' ' + change(key) + delimiter + str(v)
            + '  ! note: a = 5')
    grid = [change('mp_grid') + delimiter + ' 2  1 1']
    kpoints = block('kpoints', rows(struct['kpoints']))

    def check_read(lines, want, what):
        write('y.win', '\n'.join(lines) + '\n')
        try:
            same(b.read_win('y.win'), want, what)
        except (Violation, IndexError, ValueError, StopIteration,
                UnboundLocalError) as e:
            raise Violation('%r in:\n%s' % (e, open('y.win').read()))
        ctx.traces += 1

    # mesh after or before k points, comments and blank lines, units
    lines = [line for lines in (*blocks, kpoints, grid) for line in lines]
    check_read(lines, want, 'data read')
    for extra in '', '  ', '! comment', ' # 1 2 3', '!begin kpoints':
        for n in range(len(lines) + 1):
            check_read(lines[:n] + [extra] + lines[n:], want,
                'data read with comment')
    for note in ' ! comment: 1', '# 5', ' !':
        check_read([line + note for line in lines], want,
            'data read with comments')
    for unit in 'bohr', 'Bohr', 'ang', ' Ang ':
        scaled = dict(want)
        new = []
        for line in lines:
            new.append(line)
            words = line.lower().split()
            if words[0] == 'begin' and words[1] in ('unit_cell_cart',
                    'atoms_cart'):
                new.append(unit)
                key = 'unit_cell' if 'unit' in words[1] else 'atoms'
                if 'ohr' in unit:
                    scaled[key] = want[key] * elphmod.misc.a0
        check_read(new, scaled, 'data with units')
    for order in itertools.permutations(range(len(blocks))):
        new = []
        for lines in [grid, *[blocks[i] for i in order], kpoints]:
            new += lines + ['', '! comment']
        write('y.win', '\n'.join(new) + '\n')
        try:
            same(b.read_win('y.win'), want, 'data read')
        except Violation as e:
            raise Violation('%s in:\n%s' % (e, open('y.win').read()))
        ctx.traces += 1
    ctx.outcome((coords, nat, delimiter, case))

@check.family
def poscar(ctx, lat, scale, numbers, selective, names):
    a = gen.lattice(lat)
    N = sum(numbers)
    x = gen.real((N, 3), 'poscar', N)
    text = 'title = 1\n %.8f\n' % scale
    for v in a:
        text += ' %.12f %.12f %.12f\n' % tuple(v)
    text += ' '.join(names) + '\n' + ' '.join(map(str, numbers)) + '\n'
    text += selective + 'Direct\n'
    for v in x:
        text += ' %.12f %.12f %.12f' % tuple(v)
        text += ' T T F\n' if selective else '\n'
    write('POSCAR', text)
    t1, t2, t3, atoms = b.readPOSCAR('POSCAR')
    if scale > 0:
        s = scale
    else:
        s = (-scale / abs(np.linalg.det(a))) ** (1 / 3)
    close([t1, t2, t3], a * s, 'lattice vectors', tol=1e-8)
    equal(list(atoms), list(dict.fromkeys(names)), 'elements')
    blocks = [name for name, n in zip(names, numbers) for i in range(n)]
    for name in names:
        # blocks of the same element need not be adjacent
        close(atoms[name], x[[i for i, X in enumerate(blocks) if X == name]],
            'positions', tol=1e-9)
    ctx.outcome((lat, scale, numbers, selective, names), N > 0)

# --- examples

@check.family
def examples(ctx, name):
    """Input files of examples."""

    path = os.path.join(env.REPO, name)
    text = open(path, errors='replace').read()
    want = {}
    for _, data in parse(text):
        want.update(data)
    same(elphmod.misc.read_input_data(path), want, 'input data')
    pwi = '&system' in text.lower()
    if pwi:
        got = b.read_pwi(path)
        for key in want:
            same(got[key] if key != 'celldm' or isinstance(want[key], list)
                else got[key][0], want[key], key)
        equal(len(got['at']), want['nat'], 'number of atoms')
        equal(len(got['pp']), want['ntyp'], 'number of species')
        b.write_pwi('again.in', got)
        again = b.read_pwi('again.in')
        known = set().union(*PWI.values()) | set(pwi_base(units='x')) | {'nks'}
        if got.get('calculation') not in ('relax', 'md', 'vc-relax', 'vc-md'):
            known -= set(PWI['ions'])
        if got.get('calculation') not in ('vc-relax', 'vc-md'):
            known -= set(PWI['cell'])
        same(again, {key: v for key, v in got.items() if key in known},
            'data read again')
    ctx.outcome(name, bool(want))

@check.cases
def enumerate_cases(tier):
    thorough = tier != 'quick'
    for path in sorted(glob.glob(os.path.join(env.REPO, 'examples', '*',
            '*.in'))):
        if re.search(r'^\s*&\w', open(path, errors='replace').read(), re.M):
            yield 'examples', dict(name=os.path.relpath(path, env.REPO))
    for i in range(len(LITERALS)):
        yield 'styles', dict(first=i, stride=3 if thorough else 29)
    for n in range(4 if thorough else 3):
        for word in itertools.product(range(len(ASSIGN)), repeat=n + 1):
            for sep in ('\n', ', ', ' ') if len(word) < 3 or thorough else \
                    ('\n',):
                yield 'arrays', dict(word=list(word), sep=sep)
    for n in range(12 if thorough else 4):
        yield 'pwi_parameters', dict(n=n)
        yield 'win_parameters', dict(n=n)
        for kind in OTHER:
            yield 'parameters', dict(kind=kind, n=n)
    for nat in 1, 3:
        for ntyp in 1, 2:
            for coords in ('alat', 'bohr', 'angstrom', 'crystal',
                    'crystal_sg'):
                for ktyp in 'automatic', 'gamma', 'tpiba', 'crystal_b':
                    for units in None, 'alat', 'bohr', 'angstrom':
                        yield 'pwi_cards', dict(nat=nat, ntyp=ntyp,
                            coords=coords, ktyp=ktyp, units=units,
                            full=thorough)
    for coords in 'frac', 'cart':
        for nat in 1, 3:
            for delimiter in '=', ' = ', ' : ', ': ', ' ', '  =':
                for case in 'lower', 'upper', 'title':
                    yield 'win_styles', dict(coords=coords, nat=nat,
                        delimiter=delimiter, case=case)
    for lat in 'cub', 'tri', 'lef':
        for scale in 1.0, 2.5, -30.0:
            for numbers, names in (([1], 'A'), ([1, 2], 'AB'), ([2, 1], 'AA'),
                    ([3, 1, 2], 'ABC'), ([3, 1, 2], 'ABA'), ([1, 2, 1], 'AAB'),
                    ([1, 3, 2], 'ABB'), ([1, 2, 3], 'AAA')):
                for selective in '', 'Selective dynamics\n', 'S\n', 'sel\n':
                    yield 'poscar', dict(lat=lat, scale=scale,
                        numbers=numbers, selective=selective,
                        names=[dict(A='Ta', B='S', C='Se')[x] for x in names])

check.main()
