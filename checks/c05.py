"""C05: a crash while saving never destroys the previous save."""

import os

import numpy as np

from sim import disk
from sim.engine import Sim, OpGen, base_scenario
from sim.core import HarnessError, Quiet
from checks import c04

ID = 'C05'
LEVEL = 'exploration'
LEVEL_NOTE = ('Every file operation of the saves runs on the real code and is journalled below libc; for seeded (thorough: '
              'all) crash points the possible disk images after a process kill or a power failure (prefix of directory '
              'operations, arbitrary subsets and torn parts of unsynced data) are built and loaded. The disk model is '
              'the POSIX contract (only fsynced data and fsynced directory entries are durable), stricter than ext4.')
RUNS = dict(quick=3600, thorough=6000)
STATE_RULE = 'distinct (save kind, operation at the crash, crash kind, lost/torn counts, previous file) disk images examined'
COMPONENTS = dict(real=['VB.save', 'autosave', 'Stochastic.save', 'HDF5 library', 'Python file I/O', 'VB.load'],
                  stub=['disk durability (simulated from the journal of system calls)', 'process death'])
ASSUMPTIONS = ['a single write system call interrupted by a process kill keeps a prefix',
               'data of distinct write calls may be lost independently at 512-byte granularity',
               'directory operations become durable in order']
SHRINK = ['saves', 'ops']
MIX = dict(upd=2, sweep=4, obs=0.7, unobs=0.3, initv=0.3, gstep=0.3)


def generate(seed, tier):
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    sc['ops'] = g.ops(int(rng.integers(1, 6)), MIX)
    kinds = ['full', 'subset', 'auto', 'auto', 'single', 'full']
    sc['saves'] = [dict(kind=g.pick(kinds), node=g.pick(g.names),
                        sub=[str(x) for x in rng.permutation(g.names)[:int(rng.integers(1, len(g.names) + 1))]],
                        op=int(rng.integers(0, len(sc['ops']))))
                   for _ in range(int(rng.integers(1, 4)))]
    sc['target'] = g.pick(['plain', 'plain', 'plain', 'symlink', 'relative', 'pathlib'])
    sc['first'] = bool(rng.random() < 0.8)       # a previous file exists
    sc['points'] = 14 if tier == 'quick' else 0
    sc['powers'] = 2 if tier == 'quick' else 6
    sc['dseed'] = int(rng.integers(1 << 30))
    return sc


def target(sc, root):
    d = os.path.join(root, 'data')
    os.makedirs(d, exist_ok=True)
    real = os.path.join(d, 'result.hdf5')
    if sc['target'] == 'symlink':
        os.makedirs(os.path.join(root, 'links'), exist_ok=True)
        p = os.path.join(root, 'links', 'latest.hdf5')
        os.symlink(real, p)
        return real, p
    if sc['target'] == 'pathlib':
        import pathlib
        return real, pathlib.Path(real)
    if sc['target'] == 'relative':
        return real, os.path.relpath(real)
    return real, real


def do_save(sim, s, path):
    with sim.ctx.call('save'):
        if s['kind'] == 'full':
            sim.Q.save(filename=path)
        elif s['kind'] == 'subset':
            sim.Q.save(*s['sub'], filename=path)
        elif s['kind'] == 'single':
            sim.m.node[s['node']].save(path)
        else:
            # autosave within an update
            n = sim.updatable()
            sim.Q.set_autosave(path, iterations=1)
            try:
                if n:
                    sim.Q.update(sim.m.node[n[0]], repeat=1, tol=-np.inf, verbose=False)
                    sim.dirty.discard(n[0])
                else:
                    sim.Q.save(filename=path)
            finally:
                sim.Q.set_autosave(path, iterations=0)


class Loader:
    """Is this file loadable as one of the given saves?"""

    def __init__(self, sc, ctx):
        self.sc = sc
        self.ctx = ctx
        self.n = 0

    def state(self, data, s):
        """What a new process reads from the file (None: it does not load)."""
        p = os.path.join(self.ctx.workdir, 'image.hdf5')
        with open(p, 'wb') as fh:
            fh.write(data)
        self.n += 1
        B = Sim(self.sc, self.ctx, observe=False)
        try:
            if s['kind'] in ('full', 'auto'):
                B.Q.load(filename=p)
            elif s['kind'] == 'subset':
                B.Q.load(*s['sub'], filename=p)
            else:
                B.m.node[s['node']].load(p)
        except Exception as e:
            return None, '%s: %s' % (type(e).__name__, str(e)[:120])
        names = s['sub'] if s['kind'] == 'subset' else [s['node']] if s['kind'] == 'single' else B.names
        v = c04.visible(B)
        return dict(u={n: v['u'][n] for n in names}, phi={n: v['phi'][n] for n in names if n in v['phi']},
                    L=v['L'], iter=v['iter']), None


def same(a, b):
    if a is None or b is None or set(a['u']) != set(b['u']) or a['iter'] != b['iter']:
        return False
    return (np.array_equal(a['L'], b['L'], equal_nan=True)
            and all(np.array_equal(x, y, equal_nan=True) for n in a['u'] for (x, y) in zip(a['u'][n], b['u'][n]))
            and all(np.array_equal(x, y, equal_nan=True) for n in a['phi'] for (x, y) in zip(a['phi'][n], b['phi'][n])))


def execute(sc, ctx):
    rng = np.random.default_rng([sc['dseed'], 1])
    root = os.path.join(ctx.workdir, 'disk')
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        _execute(sc, ctx, rng, root)
    finally:
        os.chdir(cwd)


def _execute(sc, ctx, rng, root):
    sim = Sim(sc, ctx)
    (real, path) = target(sc, root)
    ctx.sample = dict(family=sc['spec']['family'], saves=[s['kind'] for s in sc['saves']], target=sc['target'])
    contents = []            # complete files in order: (save, bytes)
    if sc['first']:
        s = dict(kind='full')
        do_save(sim, s, path)
        contents.append((s, open(real, 'rb').read()))
    fs = disk.FS(root)
    load = Loader(sc, ctx)
    marks = []               # (journal position at start, at end)
    with disk.Disk(root) as D:
        k = 0
        pos = 0
        for (j, s) in enumerate(sorted(sc['saves'], key=lambda s: s['op'])):
            while k < len(sc['ops']) and k <= s['op']:
                sim.do(sc['ops'][k])
                k += 1
            a = D.position()
            do_save(sim, s, path)
            b = D.position()
            marks.append((a, b))
            contents.append((s, open(real, 'rb').read()))
        journal = D.journal()
    final = disk.real_image(root)
    ctx.count('saves', len(marks))
    ctx.count('file operations', len(journal))
    # the files a completed save leaves are what they should be
    for (s, data) in contents[-1:]:
        (v, err) = load.state(data, s)
        ctx.check(v is not None, 'save-unreadable', lambda: 'the file of a completed %s save does not load: %s'
                  % (s['kind'], err))
    # positions to crash at: before operation k (and in the middle of a write)
    allpos = list(range(len(journal) + 1))
    pts = allpos if not sc['points'] or len(allpos) <= sc['points'] else \
        sorted(set(rng.choice(len(allpos), sc['points'], replace=False).tolist()) | {len(journal)}
               | {b for (_, b) in marks})
    k = 0
    known = {}
    for pos in allpos:
        if pos in pts:
            examine(sc, ctx, rng, fs, journal, pos, marks, contents, real, load, known)
        if pos < len(journal):
            fs.step(journal[pos])
    if fs.killed() != final:
        raise HarnessError('the journal does not explain the final files: %s vs %s'
                           % (sorted(fs.killed()), sorted(final)))
    ctx.count('images loaded', load.n)
    ctx.event('end', len(contents), [o.op for o in journal])


def examine(sc, ctx, rng, fs, journal, pos, marks, contents, real, load, known):
    off = len(contents) - len(marks)
    # which saves are complete / in progress at this point?
    done = sum(1 for (_, b) in marks if b <= pos)
    running = any(a < pos < b for (a, b) in marks) or (done < len(marks) and marks[done][0] < pos)
    allowed = []
    i = off + done - 1
    if i >= 0:
        allowed.append(contents[i])
    else:
        allowed.append(None)
    if running and off + done < len(contents):
        allowed.append(contents[off + done])
    op = disk.NAME[journal[pos].op] if pos < len(journal) else 'end'
    images = []
    torn = None
    if pos < len(journal) and journal[pos].op == disk.WRITE and not journal[pos].err and journal[pos].len > 1:
        o = journal[pos]
        torn = disk.data_op(disk.WRITE, o.off, o.data[:int(rng.integers(1, o.len))])
        torn.ino = o.ino
    images.append(('process killed', fs.killed(), {}))
    if torn is not None:
        images.append(('process killed in a write', fs.killed(torn), {}))
    for _ in range(sc['powers']):
        info = {}
        images.append(('power failure', fs.power(rng, info), info))
    for (kind, image, info) in images:
        ctx.fault(kind)
        for (x, n) in info.items():
            if n:
                ctx.fault(x, n)
        data = image.get(real)
        ctx.evals += 1
        ctx.state([s['kind'] if s else None for s in [a[0] if a else None for a in allowed]], op, kind,
                  sorted(info.items()), data is None)
        verdict(ctx, sc, data, allowed, '%s before operation %d (%s)' % (kind, pos, op), load, known)


def verdict(ctx, sc, data, allowed, where, load, known):
    if data is None:
        ctx.check(None in allowed, 'save-lost', lambda: '%s: the result file is gone' % where)
        return
    for a in allowed:
        if a is not None and data == a[1]:
            return
    # not the same bytes: it may still be the same content
    for a in allowed:
        if a is None:
            continue
        key = (id(a), data)
        if key not in known:
            (v, err) = load.state(data, a[0])
            (w, _) = load.state(a[1], a[0])
            known[key] = (same(v, w), err)
        if known[key][0]:
            return
    err = [known[(id(a), data)][1] for a in allowed if a is not None]
    ctx.fail('torn-save' if len(data) else 'empty-save', '%s: the result file (%d bytes) is neither the complete '
             'previous nor the complete new save (%s)' % (where, len(data), err))
