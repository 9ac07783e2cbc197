"""Swarm-style scenario generation: every scenario enables a random subset of features."""


def dy(rng, lo, hi, q=16):
    """A dyadic number."""
    return rng.randint(int(lo * q), int(hi * q)) / q


def particle(rng, tag, feat, t0, dt, sgn, steps):
    p = {'tag': tag, 'x': dy(rng, -64, 64), 'y': dy(rng, -64, 64), 'z': 0,
         'vx': rng.choice([0, 1, -1, 0.5, 0.25, -2]), 'vy': rng.choice([0, 1, -0.5, 0.125])}
    rel = 0
    if feat.get('delay') and rng.random() < 0.5 and not (feat.get('late') and tag == 1):
        rel = rng.randint(0, max(1, steps))
    p['rel'] = rel
    p['t'] = t0 + sgn * rel * dt
    if feat.get('late') and tag > 1 and rng.random() < 0.5:
        p.update(inc=0, vx=0, vy=0, kill=-1, fail=-1)
        p['rel'] += rng.choice([0.25, 0.5, 0.125, 0.75])
        p['t'] = t0 + sgn * p['rel'] * dt
        return p
    if feat.get('kill') and rng.random() < 0.4:
        p['kill'] = rng.randint(1, max(1, steps))
    if feat.get('fail') and rng.random() < 0.5:
        p['fail'] = rng.randint(1, max(1, steps))
        p['fk'] = rng.randint(1, 5)
        p['nf'] = rng.choice([1, 1, 1, 2, 3])
        p['ract'] = rng.choice([0, 0, 1, 2])
    if feat.get('nextdt') and rng.random() < 0.6:       # the kernel halves the particle's time step for the rest of the run
        p['nd'] = p['fail'] if p.get('fail') and rng.random() < 0.5 else rng.randint(1, max(1, steps))
    return p


def history(rng, tier, out=None, features=None, mode=None, maxops=None):
    f = {k: rng.random() < v for k, v in (features or {}).items()}
    f.setdefault('kill', rng.random() < 0.5)
    if f.get('late'):
        f.update(kill=False, fail=False, remove=False, reverse=False, repeat=False, delay=True)
    dt = rng.choice([1, 1, 2, 0.5, 4, 64])
    sgn = rng.choice([1, 1, 1, -1])
    t0 = rng.choice([0, 0, 16, 1024, 86400, -4 * dt, -9])
    nops = rng.randint(1, maxops or (4 if tier == 'quick' else 6))
    lens = [rng.randint(1, rng.choice([3, 6, 10])) for _ in range(nops)]
    total = sum(lens)
    dates = rng.choice(['np', 'np', 'noleap', '360', 'greg']) if f.get('dates') else None
    axis = None
    if (f.get('notime') or f.get('default')) and not f.get('reverse'):     # the fields end where the runs do
        if sgn < 0 and (dates or rng.random() < 0.5):
            t0 = total * dt
        elif dates:
            t0 = 0
        axis = sorted([t0, t0 + sgn * total * dt])
    else:
        f['notime'] = f['default'] = False
    scn = {'mode': mode or rng.choice(['jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 't0': t0, 'dir': sgn}
    scn['kernel'] = 'KFail' if f.get('fail') else 'KStep'
    if f.get('late') or (f.get('nextdt') and not f.get('fail') and rng.random() < 0.5):
        f['nextdt'] = False
    if f.get('nextdt'):
        scn['kernel'] = 'KNext+' + scn['kernel']
    if f.get('repeat'):
        f['delay'] = False
        f['reverse'] = False
        scn['repeat'] = rng.randint(1, max(1, total))
    if dates:
        scn['dates'] = dates
    if axis:
        scn['axis'] = axis
    if rng.random() < 0.3:
        scn['tdrep'] = True
    n = rng.randint(1, rng.choice([2, 4, 6]))
    scn['parts'] = [particle(rng, i + 1, f, t0, dt, sgn, total) for i in range(n)]
    if f.get('repeat'):
        for p in scn['parts']:
            p['t'] = t0
    if f.get('notime') and rng.random() < 0.7:
        for p in scn['parts']:
            p.update(rel=0, t=t0, notime=True)
            if p.get('inc') == 0:
                p['inc'] = 1
    if out is not None:
        o = {'dt': rng.choice([1, 1, 2, 3, 5, 7, None])}
        if f.get('ondelete'):
            o['ondelete'] = True
        if rng.random() < 0.3:
            o['td'] = True
        scn['out'] = o
        if f.get('once'):
            scn['once'] = True
            if f.get('oncemoves') and not f.get('late'):     # the write-once variable changes along the run
                scn['kernel'] = rng.choice(['%s+KOnce', 'KOnce+%s']) % scn['kernel']
    ops = []
    tag = n
    for ln in lens:
        d = sgn
        if f.get('reverse') and rng.random() < 0.4:
            d = -sgn
        ops.append({'op': 'exec', 'n': ln, 'dir': d, 'by': rng.choice(['runtime', 'runtime', 'endtime', 'td'])})
        if f.get('add') and rng.random() < 0.5:
            pl = []
            for _ in range(rng.randint(1, 3)):
                tag += 1
                p = particle(rng, tag, f, t0, dt, sgn, max(2, total // 2))
                p['rel'] = rng.choice([0, 0, 1, 2]) if not f.get('repeat') else 0
                pl.append(p)
            ops.append({'op': 'add', 'parts': pl, 'dirhint': sgn})
            if f.get('notime') and rng.random() < 0.5:
                ops[-1]['notime'] = True
        if f.get('remove') and rng.random() < 0.4:
            ops.append({'op': 'remove', 'idx': [rng.randint(0, 7) for _ in range(rng.randint(1, 2))]})
        if f.get('xwrite') and rng.random() < 0.5:
            ops.append({'op': 'write', 'last': rng.choice([0, 1])})
        if f.get('export') and rng.random() < 0.4:
            ops.append({'op': 'export'})
    if f.get('default') and rng.random() < 0.7:
        [o for o in ops if o['op'] == 'exec'][-1]['by'] = 'default'
    if f.get('unsorted'):       # ids that do not follow the order of the particles
        if rng.random() < 0.6:
            scn['pids'] = rng.randrange(1, 1000)
        for o in ops:
            if o['op'] == 'add' and len(o['parts']) > 1 and rng.random() < 0.6:
                o['split'] = rng.randint(1, len(o['parts']) - 1)
    scn['ops'] = ops
    scn['_lists'] = ['ops', 'parts']
    scn['_scalars'] = {'coord': ['f4'], 'dt': [1], 't0': [0], 'mode': ['scipy'], 'once': [False], 'repeat': [None], 'pids': [None], 'dates': [None]}
    return scn
