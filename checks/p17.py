"""P17 switchboards route exactly the declared connections and geometry."""
import itertools
import numpy as np
import mdp
import mdp.hinet as mh
import mdp.nodes as mn
import bimdp
import bimdp.hinet as bh
from harness.core import Check, Skip
from harness import catalog as C

CHECK = Check('P17', 'A case builds one switchboard from random parameters (valid and impossible ones), and compares the '
              'routing of marked data with the geometry computed independently from coordinates of the input lattice; '
              'impossible parameters must be refused. Distinct by class and parameters.')
CHECK.expect_events(boards=400, routed_columns=5000, refused=100, inverses=60, messages=40, chains=10)

CoordinateTranslator = mh.Rectangular2dSwitchboard.__init__.__globals__.get('CoordinateTranslator')
SE = mh.SwitchboardException


def routed(rec, board, d):
    """The input column seen in every output column, measured with unit vectors."""
    y = board.execute(np.eye(d))
    # column k of y has its single 1 in the row of its source
    rec.require(((y == 0) | (y == 1)).all() and (y.sum(axis=0) == 1).all(), 'not-routing', 'outputs are no copies of inputs')
    rec.event('routed_columns', y.shape[1])
    rec.event('boards')
    return [int(i) for i in y.argmax(axis=0)]


DATA = {
    'd': lambda r, s: r.rand(*s), 'f': lambda r, s: r.rand(*s).astype('f'), 'l': lambda r, s: r.randint(-9, 9, size=s),
    'b': lambda r, s: r.randint(-9, 9, size=s).astype('b'), 'D': lambda r, s: r.rand(*s) + 1j * r.rand(*s),
    'nan': lambda r, s: np.where(r.rand(*s) < 0.3, np.nan, np.inf * np.ones(s)),
    'order': lambda r, s: np.asfortranarray(r.rand(*s)), 'view': lambda r, s: r.rand(s[0] * 2, s[1] * 3)[::2, ::3],
}


@CHECK.each(sorted(DATA.items()), quick=25, thorough=300)
def generic(rng, rec, gen):
    d = int(rng.randint(1, 9))
    form = str(rng.choice(['any', 'perm', 'subset', 'long']))
    if form == 'perm':
        conn = rng.permutation(d)
    elif form == 'subset':
        conn = rng.permutation(d)[:int(rng.randint(1, d + 1))]
    else:
        conn = rng.randint(0, d, size=int(rng.randint(1, 4 if form == 'any' else 30)))
    give = conn if rng.rand() < 0.5 else [int(c) for c in conn]
    cls = mh.Switchboard if rng.rand() < 0.7 else mh.MeanInverseSwitchboard
    b = cls(d, give)
    x = gen(rng, (int(rng.randint(1, 6)), d))
    x0 = x.copy()
    y = b.execute(x)
    want = np.array([[row[c] for c in conn] for row in x0], dtype=x0.dtype).reshape(len(x0), len(conn))
    rec.require(y.shape == want.shape and y.dtype == x0.dtype and np.array_equal(y, want, equal_nan=x0.dtype.kind in 'fc'),
                'generic:route', 'output columns differ from the declared inputs')
    rec.require(np.array_equal(x, x0, equal_nan=x0.dtype.kind in 'fc'), 'generic:input', 'the input was changed')
    rec.require(b.input_dim == d and b.output_dim == len(conn), 'generic:dims', '%s %s' % (b.input_dim, b.output_dim))
    rec.require(not b.is_trainable(), 'generic:trainable', 'trainable')
    # the returned data are not an alias of the input
    y[...] = y.dtype.type(0)
    rec.require(np.array_equal(x, x0, equal_nan=x0.dtype.kind in 'fc'), 'generic:alias', 'output shares memory with the input')
    inv = sorted(int(c) for c in conn) == list(range(d))
    rec.event('boards')
    rec.event('routed_columns', len(conn))
    yy = gen(rng, (3, len(conn)))
    if cls is mh.Switchboard:
        rec.require(bool(b.is_invertible()) == inv, 'generic:invertible', lambda: 'is_invertible %s for %s' % (b.is_invertible(), conn))
        if inv:
            z = b.inverse(yy)
            want = np.empty_like(yy)
            for k, c in enumerate(conn):
                want[:, c] = yy[:, k]
            rec.require(np.array_equal(z, want, equal_nan=yy.dtype.kind in 'fc') and z.dtype == yy.dtype, 'generic:inverse', 'wrong inverse')
            rec.event('inverses')
        else:
            try:
                b.inverse(yy)
                bad = True
            except mdp.NodeException:
                bad = False
            rec.require(not bad, 'generic:inverse', 'a non-injective board was inverted')
    elif x0.dtype.kind == 'f' and np.isfinite(yy).all():
        z = b.inverse(yy)
        want = np.zeros((3, d))
        for c in range(d):
            src = [k for k in range(len(conn)) if conn[k] == c]
            if src:
                want[:, c] = yy[:, src].astype('d').mean(axis=1)
        rec.require(b.is_invertible() and z.shape == want.shape and np.abs(z - want).max() < 1e-5, 'mean-inverse',
                    'the inverse is not the mean of the connected outputs')
        rec.event('inverses')
    rec.case(form, d, len(conn), cls.__name__, x0.dtype.char)


@CHECK.scenario(quick=60, thorough=500)
def refusals(rng, rec):
    d = int(rng.randint(1, 8))
    conn = [int(c) for c in rng.randint(0, d, size=int(rng.randint(1, 9)))]

    def refused(what, f, *a, **k):
        try:
            f(*a, **k)
        except SE:
            rec.event('refused')
            return
        rec.require(False, 'refuse:' + what, 'accepted: %r %r' % (a, k))
    refused('empty', mh.Switchboard, d, [])
    bad = list(conn)
    bad[int(rng.randint(len(bad)))] = d + int(rng.randint(0, 3))
    refused('exceeds', mh.Switchboard, d, bad)
    bad = list(conn)
    bad[int(rng.randint(len(bad)))] = -int(rng.randint(1, 4))
    refused('negative', mh.Switchboard, d, bad)
    k = int(rng.randint(2, 5))
    if len(conn) % k:
        refused('out-channel', mh.ChannelSwitchboard, d, conn, k)
    if d % k:
        refused('in-channel', mh.ChannelSwitchboard, d, conn, 1, k)
    b = mh.Switchboard(d, conn)
    for w in (d - 1, d + 1):
        try:
            b.execute(rng.rand(2, w))
            ok = False
        except mdp.NodeException:
            ok = True
        rec.require(ok, 'refuse:width', 'data with %d columns accepted for %d inputs' % (w, d))
    rec.case(d, tuple(conn), k)


@CHECK.scenario(quick=80, thorough=800)
def channels(rng, rec):
    """Queries about output channels agree with the routing."""
    cin, cout = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    nin, nout = int(rng.randint(1, 7)), int(rng.randint(1, 6))
    conn = rng.randint(0, nin * cin, size=nout * cout)
    b = mh.ChannelSwitchboard(nin * cin, conn if rng.rand() < 0.5 else list(conn), cout, in_channel_dim=cin)
    check_channels(rng, rec, b, [int(c) for c in conn], cin, cout)
    rec.case(cin, cout, nin, nout, tuple(conn))


def check_channels(rng, rec, b, conn, cin, cout):
    d = b.input_dim
    got = routed(rec, b, d)
    rec.require(got == list(conn), 'channels:route', lambda: 'routes %s, declared %s' % (got, conn))
    n = len(conn) // cout
    rec.require(b.output_channels == n and b.input_channels == d // cin and b.out_channel_dim == cout and
                b.in_channel_dim == cin and b.output_dim == len(conn), 'channels:counts', lambda: '%s %s' % (b.output_channels, b.input_channels))
    x = rng.rand(2, d)
    y = b.execute(x)
    for c in range(n):
        rec.require(list(b.get_out_channel_input(c)) == list(conn[c * cout:(c + 1) * cout]), 'channels:input',
                    'inputs of an output channel')
        z = b.get_out_channel_node(c).execute(x)
        rec.require(np.array_equal(z, y[:, c * cout:(c + 1) * cout]), 'channels:node', 'node of an output channel')
        want = sorted(set(i // cin for i in conn[c * cout:(c + 1) * cout]))
        rec.require(list(b.get_out_channels_input_channels(c)) == want, 'channels:in-channels', lambda: 'input channels of %d' % c)
    some = [int(i) for i in rng.randint(0, n, size=int(rng.randint(1, 4)))]
    want = sorted(set(i // cin for c in some for i in conn[c * cout:(c + 1) * cout]))
    for form in (some, tuple(some), np.array(some), np.array(some, dtype='i2')):
        rec.require(list(b.get_out_channels_input_channels(form)) == want, 'channels:in-channels',
                    lambda: 'input channels of %s given as %s' % (some, type(form).__name__))
    rec.require(list(b.get_out_channels_input_channels(np.int64(some[0]))) == list(b.get_out_channels_input_channels(some[:1])),
                'channels:in-channels', 'one channel given as a numpy integer')


# -- geometries ------------------------------------------------------------------
def expand(chan_lists, cin):
    return [c * cin + k for ch in chan_lists for c in ch for k in range(cin)]


def rect_geometry(inxy, fxy, sxy):
    """Channel lists of all fields, row by row, or None."""
    (w, h), (fw, fh), (sx, sy) = inxy, fxy, sxy
    xs = [x for x in range(0, w, sx) if x + fw <= w]
    ys = [y for y in range(0, h, sy) if y + fh <= h]
    fields = [[(y + j) * w + x + i for j in range(fh) for i in range(fw)] for y in ys for x in xs]
    return fields, (len(xs), len(ys))


def two(rng, v):
    """A 2-tuple or, if equal, sometimes a single number or a list."""
    if v[0] == v[1] and rng.rand() < 0.5:
        return v[0]
    return list(v) if rng.rand() < 0.2 else v


BI = {'Rectangular2dSwitchboard': 'Rectangular2dBiSwitchboard', 'DoubleRect2dSwitchboard': 'DoubleRect2dBiSwitchboard',
      'DoubleRhomb2dSwitchboard': 'DoubleRhomb2dBiSwitchboard', 'ChannelSwitchboard': 'ChannelBiSwitchboard'}


def klass(rng, name):
    if rng.rand() < 0.25:
        return getattr(bh, BI[name])
    return getattr(mh, name)


@CHECK.scenario(quick=250, thorough=4000)
def rectangular(rng, rec):
    inxy = (int(rng.randint(1, 9)), int(rng.randint(1, 9)))
    fxy = (int(rng.randint(1, 5)), int(rng.randint(1, 5)))
    sxy = (int(rng.randint(1, 5)), int(rng.randint(1, 5)))
    if rng.rand() < 0.5:
        # likely to be covering
        sxy = tuple(int(rng.choice([s for s in range(1, f + 1)])) for f in fxy)
        inxy = tuple(f + s * int(rng.randint(0, 4)) for f, s in zip(fxy, sxy))
    cin = int(rng.randint(1, 4))
    ignore = bool(rng.rand() < 0.4)
    fields, nxy = rect_geometry(inxy, fxy, sxy)
    covered = set(c for f in fields for c in f)
    fits = bool(fields)
    full = len(covered) == inxy[0] * inxy[1]
    try:
        b = klass(rng, 'Rectangular2dSwitchboard')(in_channels_xy=two(rng, inxy), field_channels_xy=two(rng, fxy), field_spacing_xy=two(rng, sxy),
                                                   in_channel_dim=cin, ignore_cover=ignore)
    except SE:
        rec.require(not fits or (not full and not ignore), 'rect:refused', lambda: 'valid geometry refused: %s' % ((inxy, fxy, sxy, ignore),))
        rec.event('refused')
        rec.case('refused', inxy, fxy, sxy, ignore)
        return
    rec.require(fits, 'rect:accepted', lambda: 'impossible geometry accepted: %s' % ((inxy, fxy, sxy),))
    rec.require(full or ignore, 'rect:cover', lambda: 'uncovered channels accepted: %s' % ((inxy, fxy, sxy),))
    rec.require(b.out_channels_xy == nxy, 'rect:count', lambda: 'fields %s, expected %s' % (b.out_channels_xy, nxy))
    check_channels(rng, rec, b, expand(fields, cin), cin, cin * fxy[0] * fxy[1])
    if all(s <= f for s, f in zip(sxy, fxy)):
        border = tuple(w - (max(c % inxy[0] for c in covered) + 1 if i == 0 else max(c // inxy[0] for c in covered) + 1)
                       for i, w in enumerate(inxy))
        rec.require(tuple(b.unused_channels_xy) == border, 'rect:unused', lambda: 'unused %s, expected %s' % (b.unused_channels_xy, border))
    messages(rng, rec, b)
    rec.case(inxy, fxy, sxy, cin, ignore)


@CHECK.scenario(quick=250, thorough=4000)
def double_rect(rng, rec):
    fxy = tuple(int(rng.choice([2, 2, 4, 4, 6, 3])) for _ in range(2))
    inxy = tuple(int(rng.randint(1, 14)) for _ in range(2))
    if rng.rand() < 0.6:
        inxy = tuple(f * int(rng.randint(1, 4)) + (int(rng.randint(0, f // 2)) if rng.rand() < 0.3 else 0) for f in fxy)
    cin = int(rng.randint(1, 3))
    ignore = bool(rng.rand() < 0.4)
    (w, h), (fw, fh) = inxy, fxy
    even = all(f % 2 == 0 for f in fxy)
    fits = even and all(f <= n for f, n in zip(fxy, inxy))
    full = all(n % f == 0 for n, f in zip(inxy, fxy))
    # rests of half a field or more would give short rows as long as long rows
    short_ok = even and all(n % f < f // 2 for n, f in zip(inxy, fxy))
    long_ = [[(y * fh + j) * w + x * fw + i for j in range(fh) for i in range(fw)] for y in range(h // fh) for x in range(w // fw)]
    short = [[(y * fh + fh // 2 + j) * w + x * fw + fw // 2 + i for j in range(fh) for i in range(fw)]
             for y in range(h // fh - 1) for x in range(w // fw - 1)]
    try:
        b = klass(rng, 'DoubleRect2dSwitchboard')(in_channels_xy=two(rng, inxy), field_channels_xy=two(rng, fxy), in_channel_dim=cin,
                                                  ignore_cover=ignore)
    except SE:
        rec.require(not fits or not short_ok or (not full and not ignore), 'double:refused',
                    lambda: 'valid geometry refused: %s' % ((inxy, fxy, ignore),))
        rec.event('refused')
        rec.case('refused', inxy, fxy, ignore)
        return
    rec.require(fits and short_ok, 'double:accepted', lambda: 'impossible geometry accepted: %s' % ((inxy, fxy),))
    rec.require(full or ignore, 'double:cover', lambda: 'uncovered channels accepted: %s' % ((inxy, fxy),))
    fields = [list(f) for f in long_] + [list(f) for f in short]
    rec.require(tuple(b.long_out_channels_xy) == (w // fw, h // fh), 'double:count', lambda: 'long rows %s' % (b.long_out_channels_xy,))
    check_channels(rng, rec, b, expand(fields, cin), cin, cin * fw * fh)
    if full:
        # inner points are covered twice
        cover = np.bincount([c for f in fields for c in f], minlength=w * h).reshape(h, w)
        rec.require((cover[fh // 2:h - fh // 2, fw // 2:w - fw // 2] == 2).all(), 'double:twice', 'inner points are not covered twice')
    messages(rng, rec, b)
    rec.case(inxy, fxy, cin, ignore)


def rhomb_geometry(lx, ly, d):
    """Lattice points: long rows at even, short rows at odd coordinates; a
    field is a square of d x d lattice points standing on its corner."""
    index = {}
    for y in range(ly):
        for x in range(lx):
            index[2 * x, 2 * y] = len(index)
    for y in range(ly - 1):
        for x in range(lx - 1):
            index[2 * x + 1, 2 * y + 1] = len(index)

    def field(X, Y):
        pts = [(Y + a + b, X + a - b) for a in range(d) for b in range(d)]
        pts = [(x, y) for y, x in sorted(pts)]
        return [index.get(p) for p in pts]
    return index, field


@CHECK.scenario(quick=250, thorough=4000)
def rhomb(rng, rec):
    d = int(rng.choice([2, 2, 4, 4, 6, 3]))
    lx, ly = int(rng.randint(1, 12)), int(rng.randint(1, 12))
    if rng.rand() < 0.7:
        short = rng.rand() < 0.5
        ax, ay = [d + (d // 2) * int(rng.randint(0, 4)) for _ in range(2)]
        lx, ly = (ax, ay + 1) if short else (ax + 1, ay)
    cin = int(rng.randint(1, 3))
    started_short = lx < ly
    rx, ry = (lx - d, ly - 1 - d) if started_short else (lx - 1 - d, ly - d)
    fits = d % 2 == 0 and rx >= 0 and ry >= 0 and rx % (d // 2) == 0 and ry % (d // 2) == 0
    try:
        b = klass(rng, 'DoubleRhomb2dSwitchboard')(long_in_channels_xy=two(rng, (lx, ly)), diag_field_channels=d, in_channel_dim=cin)
    except SE:
        rec.require(not fits, 'rhomb:refused', lambda: 'valid geometry refused: %s' % ((lx, ly, d),))
        rec.event('refused')
        rec.case('refused', lx, ly, d)
        return
    rec.require(fits, 'rhomb:accepted', lambda: 'impossible geometry accepted: %s' % ((lx, ly, d),))
    index, field = rhomb_geometry(lx, ly, d)
    nx, ny = rx // (d // 2) + 1, ry // (d // 2) + 1
    off = (d - 1, 1) if started_short else (d, 0)
    fields = [field(off[0] + d * i, off[1] + d * j) for j in range(ny) for i in range(nx)]
    rec.require(tuple(b.out_channels_xy) == (nx, ny), 'rhomb:count', lambda: 'fields %s, expected %s' % (b.out_channels_xy, (nx, ny)))
    rec.require(not any(c is None for f in fields for c in f), 'rhomb:outside', 'a field leaves the lattice')
    rec.require(b.input_dim == len(index) * cin, 'rhomb:dim', lambda: 'input_dim %d' % b.input_dim)
    check_channels(rng, rec, b, expand(fields, cin), cin, cin * d * d)
    cover = np.bincount([c for f in fields for c in f], minlength=len(index))
    xs = [off[0] - d + 1 + d * i for i in range(nx)]
    inner = [c for (x, y), c in index.items() if off[0] <= x <= off[0] + d * (nx - 1) and
             off[1] + d - 1 <= y <= off[1] + d * (ny - 1) + d - 1]
    rec.require((cover[inner] == 2).all() or (nx == 1 or ny == 1), 'rhomb:twice', lambda: 'inner points covered %s' % cover[inner])
    messages(rng, rec, b)
    rec.case(lx, ly, d, cin)


def messages(rng, rec, b):
    """Bi-boards map arrays of the message that fit, and nothing else."""
    if not isinstance(b, bimdp.BiNode):
        return
    conn = [int(c) for c in b.connections]
    x = rng.rand(2, b.input_dim)
    msg = {'fits': rng.rand(3, b.input_dim), 'other': rng.rand(3, b.input_dim + 1), 'deep': rng.rand(2, b.input_dim, 2),
           'flat': rng.rand(b.input_dim), 'list': [1, 2], 'text': 'abc'}
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in msg.items()}
    y, out = b.execute(x, dict(msg))
    rec.require(np.array_equal(y, x[:, conn]), 'bi:x', 'wrong routing')
    for k, v in keep.items():
        want = v[:, conn] if k in ('fits', 'deep') else v
        rec.require(np.array_equal(out[k], want) if isinstance(v, np.ndarray) else out[k] == v, 'bi:message:' + k,
                    'message entry %r' % k)
        rec.require(np.array_equal(msg[k], v) if isinstance(v, np.ndarray) else msg[k] == v, 'bi:message-changed', 'message entry %r changed' % k)
    rec.event('messages')


@CHECK.scenario(quick=60, thorough=600)
def bigeneric(rng, rec):
    d = int(rng.randint(2, 8))
    perm = rng.rand() < 0.6
    conn = [int(c) for c in (rng.permutation(d) if perm else rng.randint(0, d, size=int(rng.randint(1, 10))))]
    b = bh.BiSwitchboard(input_dim=d, connections=conn, node_id='board')
    messages(rng, rec, b)
    # without data the message is still routed
    m = rng.rand(2, d)
    res = b.execute(None, {'a': m})
    rec.require(res[0] is None and np.array_equal(res[1]['a'], m[:, conn]), 'bi:no-data', 'message without data')
    if perm:
        y = rng.rand(3, d)
        back = rng.rand(4, d)
        res = b.execute(y, {'method': 'inverse', 'a': back, 'n': 5})
        xx, mm = res[0], res[1]
        rec.require(np.array_equal(xx[:, conn], y) and np.array_equal(mm['a'][:, conn], back) and mm['n'] == 5, 'bi:inverse',
                    'inverse of data and message')
        res = b.execute(None, {'method': 'inverse', 'a': back, 'n': 5})
        rec.require(res[0] is None and np.array_equal(res[1]['a'][:, conn], back) and res[1]['n'] == 5, 'bi:inverse',
                    'inverse of a message without data')
        f = bimdp.BiFlow([bh.BiSwitchboard(input_dim=d, connections=conn, node_id='s'), bimdp.nodes.IdentityBiNode(node_id='last')])
        y, mo = f.execute(back, {'a': back.copy()})
        rec.require(np.array_equal(y, back[:, conn]) and np.array_equal(mo['a'], back[:, conn]), 'bi:flow', 'routing in a flow')
        rec.event('inverses')
    rec.case(d, tuple(conn))


@CHECK.scenario(quick=60, thorough=500)
def chains(rng, rec):
    """Boards built by the factory from the previous one, as in a 2d network."""
    with mdp.extension('switchboard_factory'):
        size = (int(rng.randint(4, 17)), int(rng.randint(4, 17)))
        bi = rng.rand() < 0.3
        img = mh.get_2d_image_switchboard(size)
        rec.require(img.out_channels_xy == size and routed(rec, img, size[0] * size[1]) == list(range(size[0] * size[1])),
                    'chain:image', 'the image board is not the identity')
        prev, dim = img, img.output_dim
        x = rng.rand(2, size[0] * size[1])
        names = []
        for _ in range(3):
            opts = [n for n in ('FactoryRectangular2dSwitchboard', 'FactoryDoubleRect2dSwitchboard', 'FactoryDoubleRhomb2dSwitchboard', 'base')]
            pick = str(rng.choice(opts))
            cin = dim // prev.output_channels
            base = {'FactoryRectangular2dSwitchboard': mh.Rectangular2dSwitchboard, 'FactoryDoubleRect2dSwitchboard': mh.DoubleRect2dSwitchboard,
                    'FactoryDoubleRhomb2dSwitchboard': mh.DoubleRhomb2dSwitchboard, 'base': mh.ChannelSwitchboard}[pick]
            cls = base
            extra = ()
            if bi:
                cls = getattr(bh, BI[base.__name__])
                extra = ('id%d' % len(names),)
            if pick == 'FactoryRectangular2dSwitchboard':
                free = {'field_channels_xy': int(rng.randint(1, 4)), 'field_spacing_xy': int(rng.randint(1, 4))}
                ok = isinstance(prev, (mh.Rectangular2dSwitchboard, mh.DoubleRhomb2dSwitchboard))
            elif pick == 'FactoryDoubleRect2dSwitchboard':
                free = {'field_channels_xy': int(rng.choice([2, 4]))}
                ok = isinstance(prev, (mh.Rectangular2dSwitchboard, mh.DoubleRhomb2dSwitchboard))
            elif pick == 'FactoryDoubleRhomb2dSwitchboard':
                free = {'field_size': int(rng.choice([2, 4]))}
                ok = isinstance(prev, mh.DoubleRect2dSwitchboard)
            else:
                free, ok = {}, True
            # without a say the cover is not demanded; the caller may say either
            cover = {}
            if pick in ('FactoryRectangular2dSwitchboard', 'FactoryDoubleRect2dSwitchboard') and rng.rand() < 0.5:
                cover = {'ignore_cover': bool(rng.rand() < 0.4)}
                free.update(cover)
            refuses = False
            if ok and pick != 'base':
                try:
                    if pick == 'FactoryDoubleRhomb2dSwitchboard':
                        base(tuple(prev.long_out_channels_xy), free['field_size'], cin)
                    elif pick == 'FactoryDoubleRect2dSwitchboard':
                        base(tuple(prev.out_channels_xy), free['field_channels_xy'], cin, cover.get('ignore_cover', True))
                    else:
                        base(tuple(prev.out_channels_xy), free['field_channels_xy'], free['field_spacing_xy'], cin, cover.get('ignore_cover', True))
                except SE:
                    refuses = True
            try:
                b = cls.create_switchboard(dict(free), prev, dim, *extra)
            except SE:
                rec.event('refused')
                if not ok:
                    continue
                rec.require(refuses, 'chain:refused', lambda: '%s with %r refused after %s' % (pick, free, type(prev).__name__))
                names.append('refused')
                break
            rec.require(not refuses, 'chain:cover', lambda: '%s with %r accepted after %s' % (pick, free, type(prev).__name__))
            rec.require(ok, 'chain:compatible', lambda: '%s accepted after %s' % (pick, type(prev).__name__))
            rec.require(isinstance(b, cls) and b.input_dim == dim, 'chain:dims', lambda: '%s: input_dim %d after %d outputs' % (
                pick, b.input_dim, dim))
            if pick == 'base':
                rec.require(routed(rec, b, dim) == list(range(dim)) and b.output_channels == 1, 'chain:merge', 'not merged into one channel')
                rec.event('chains')
                break
            oxy = getattr(prev, 'out_channels_xy', None)
            if pick == 'FactoryRectangular2dSwitchboard':
                f = free['field_channels_xy']
                s = free['field_spacing_xy']
                fields, nxy = rect_geometry(tuple(oxy), (f, f), (s, s))
                want = expand(fields, cin)
            elif pick == 'FactoryDoubleRect2dSwitchboard':
                want = [int(c) for c in mh.DoubleRect2dSwitchboard(tuple(oxy), free['field_channels_xy'], cin, True).connections]
            else:
                want = [int(c) for c in mh.DoubleRhomb2dSwitchboard(tuple(prev.long_out_channels_xy), free['field_size'], cin).connections]
            rec.require(routed(rec, b, dim) == want, 'chain:route', lambda: '%s after %s routes differently' % (pick, type(prev).__name__))
            rec.event('chains')
            names.append(pick)
            # one value per output channel, as a clone layer with output_dim 1 or 2 would give
            odim = int(rng.choice([1, 2]))
            prev, dim = b, b.output_channels * odim
        if not names:
            raise Skip()
    rec.case(size, tuple(names), bi)


@CHECK.scenario(quick=100, thorough=1000)
def translator(rng, rec):
    if CoordinateTranslator is None:
        raise Skip()
    w, h = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    t = CoordinateTranslator(w, h)
    grid = np.arange(w * h).reshape(h, w)
    for r, c in itertools.product(range(h), range(w)):
        i = int(grid[r, c])
        rec.require(t.array_to_index(r, c) == i and t.image_to_index(c, r) == i and tuple(t.index_to_array(i)) == (r, c) and
                    tuple(t.index_to_image(i)) == (c, r) and tuple(t.image_to_array(c, r)) == (r, c) and tuple(t.array_to_image(r, c)) == (c, r),
                    'translator', 'coordinates (%d, %d) of %dx%d' % (r, c, w, h))
    for f, a in ((t.array_to_index, (h, 0)), (t.array_to_index, (0, w)), (t.array_to_index, (-1, 0)), (t.image_to_index, (w, 0)),
                 (t.image_to_index, (0, h)), (t.image_to_index, (0, -1)), (t.index_to_array, (w * h,)), (t.index_to_image, (w * h,)),
                 (t.index_to_array, (-1,)), (t.index_to_image, (-1,))):
        try:
            f(*a)
            ok = False
        except Exception:
            ok = True
        rec.require(ok, 'translator:range', '%s%r accepted for %dx%d' % (f.__name__, a, w, h))
    rec.event('refused')
    rec.case(w, h)
