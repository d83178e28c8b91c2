"""C06: failed disk operations are reported and leave the inference state
intact; afterwards everything works again."""

import errno
import os

import numpy as np

from sim import disk
from sim.engine import Sim, OpGen, base_scenario
from checks import c04, c05

ID = 'C06'
LEVEL = 'exploration'
LEVEL_NOTE = ('Errors and short transfers are injected below libc into the real save, autosave and load code (also dead '
              'disks, damaged, truncated, foreign and incomplete files, unstorable user data); the state is compared '
              'with the state before the call, with the earlier file and with a twin that never met a fault.')
RUNS = dict(quick=2400, thorough=10000)
STATE_RULE = 'distinct (operation, fault class, position, errno, persistent, outcome) fault cases'
COMPONENTS = dict(real=['VB.save/load/autosave', 'Stochastic.save/load', 'HDF5 library', 'Python file I/O', 'all nodes'],
                  stub=['errors of system calls (injected)', 'damaged files (made by the harness)'])
ASSUMPTIONS = ['silent corruption of file contents by the medium (bit flips) is not part of the property']
SHRINK = ['events']
MIX = dict(upd=3, sweep=4, obs=0.7, unobs=0.3, initv=0.3, gstep=0.3)
ERRS = {disk.OPEN: ['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'EIO', 'EDQUOT'],
        disk.WRITE: ['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EINTR'],
        disk.FSYNC: ['EIO', 'ENOSPC', 'EDQUOT'], disk.RENAME: ['EACCES', 'EIO', 'ENOSPC', 'EROFS'],
        disk.CLOSE: ['EIO', 'EDQUOT', 'ENOSPC'], disk.TRUNC: ['ENOSPC', 'EIO'], disk.UNLINK: ['EACCES', 'EIO'],
        disk.READ: ['EIO', 'EIO', 'EINTR', 'ESTALE'], 0: ['EIO', 'ENOSPC', 'EROFS']}
DAMAGE = ['missing', 'truncated', 'truncated', 'empty', 'garbage', 'foreign', 'incomplete', 'incomplete', 'directory',
          'reshaped']


def generate(seed, tier):
    sc, rng = base_scenario(seed)
    g = OpGen(sc, rng)
    ev = []
    for _ in range(int(rng.integers(2, 6 if tier == 'quick' else 10))):
        u = rng.random()
        if u < 0.35:
            ev.append(dict(ev='op', op=g.op(g.pick(['upd', 'sweep', 'sweep', 'obs', 'initv']))))
        elif u < 0.75:
            cls = g.pick([disk.OPEN, disk.WRITE, disk.WRITE, disk.WRITE, disk.FSYNC, disk.RENAME, disk.CLOSE, disk.TRUNC,
                          0, 0, 'user', 'short'])
            e = dict(ev='save', kind=g.pick(['full', 'full', 'auto', 'subset', 'single']), node=g.pick(g.names),
                     sub=[str(x) for x in rng.permutation(g.names)[:int(rng.integers(1, len(g.names) + 1))]])
            if cls in ('user', 'short'):
                e['fault'] = cls
                e['n'] = int(rng.choice([1, 7, 512, 4096]))
            else:
                e.update(fault='errno', cls=int(cls), frac=float(rng.random()), err=g.pick(ERRS[cls]),
                         persistent=bool(rng.random() < 0.5))
            ev.append(e)
        else:
            e = dict(ev='load', kind=g.pick(['full', 'full', 'subset', 'single', 'nodes_only']), node=g.pick(g.names),
                     sub=[str(x) for x in rng.permutation(g.names)[:int(rng.integers(1, len(g.names) + 1))]])
            if rng.random() < 0.5:
                e.update(fault='errno', cls=g.pick([disk.READ, disk.READ, disk.READ, disk.OPEN]),
                         frac=float(rng.random()), persistent=bool(rng.random() < 0.5))
                e['err'] = g.pick(ERRS[e['cls']])
            elif rng.random() < 0.1:
                e.update(fault='short', n=int(rng.choice([1, 7, 100])))
            else:
                e.update(fault='damage', how=g.pick(DAMAGE), frac=float(rng.random()), k=int(rng.integers(1 << 20)))
            ev.append(e)
    sc['events'] = ev
    sc['tail'] = g.ops(3, dict(upd=2, sweep=2))
    sc['cb'] = int(rng.integers(0, 3))
    sc['foreign'] = int(rng.integers(1 << 30))
    return sc


def attempt(f):
    """(result, exception)"""
    from sim.core import Violation, HarnessError
    try:
        f()
        return None
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return e


def save_call(sim, e, path):
    if e['kind'] == 'full':
        sim.Q.save(filename=path)
    elif e['kind'] == 'subset':
        sim.Q.save(*e['sub'], filename=path)
    elif e['kind'] == 'single':
        sim.m.node[e['node']].save(path)
    else:
        n = sim.updatable()
        sim.Q.set_autosave(path, iterations=1)
        try:
            sim.Q.update(*[sim.m.node[x] for x in n[:1]], repeat=1, tol=-np.inf, verbose=False)
        finally:
            sim.Q.set_autosave(path, iterations=0)


def load_call(sim, e, path):
    if e['kind'] == 'full':
        sim.Q.load(filename=path)
    elif e['kind'] == 'subset':
        sim.Q.load(*e['sub'], filename=path)
    elif e['kind'] == 'nodes_only':
        sim.Q.load(*e['sub'], filename=path, nodes_only=True)
    else:
        sim.m.node[e['node']].load(path)


def unchanged(ctx, sim, v0, what):
    v = c04.visible(sim)
    c04.compare(ctx, 'failed-%s-changed-state' % what, v, v0, 0)


def execute(sc, ctx):
    root = os.path.join(ctx.workdir, 'disk')
    os.makedirs(root)
    path = os.path.join(root, 'result.hdf5')
    A = Sim(sc, ctx)                 # never meets a fault
    B = Sim(sc, ctx)
    for s in (A, B):
        s.Q.set_callback(c04.callback(s, sc['cb']))
    L = c05.Loader(sc, ctx)
    ctx.sample = dict(family=sc['spec']['family'], events=[(e['ev'], e.get('fault'), e.get('kind')) for e in sc['events']])
    with ctx.call('save'):
        B.Q.save(filename=path)
    good = (dict(kind='full'), open(path, 'rb').read())
    for e in sc['events']:
        if e['ev'] == 'op':
            for s in (A, B):
                if e['op']['op'] == 'sweep':
                    c04.run_op(s, dict(e['op'], tol=-np.inf), 1)
                else:
                    s.do(e['op'])
            continue
        if e['ev'] == 'save':
            good = faulty_save(sc, ctx, A, B, L, e, path, good, root)
        else:
            faulty_load(sc, ctx, A, B, L, e, path, good, root)
        ctx.event(e['ev'], e.get('fault'), e.get('kind'), int(B.Q.iter))
    for op in sc['tail']:
        for s in (A, B):
            if op['op'] == 'sweep':
                c04.run_op(s, dict(op, tol=-np.inf), 1)
            else:
                s.do(op)
    c04.compare(ctx, 'run-differs-after-faults', c04.visible(B), c04.visible(A),
                1e-6 if not A.spec.points else 5e-3, cpu=False)


def faulty_save(sc, ctx, A, B, L, e, path, good, root):
    if e['kind'] == 'auto' and not B.updatable():
        return good
    # how many operations does this save make?  (a copy of the engine's file
    # is written elsewhere by a twin engine: A)
    probe = os.path.join(ctx.workdir, 'probe')
    os.makedirs(probe, exist_ok=True)
    counts = {}
    if e['fault'] == 'errno':
        with disk.Disk(probe) as D:
            with ctx.call('save'):
                if e['kind'] == 'auto':
                    A.Q.save(filename=os.path.join(probe, 'x'))
                else:
                    save_call(A, e, os.path.join(probe, 'x'))
            counts = {c: disk.lib().vsim_class(c) for c in ERRS if c}
            counts[0] = disk.lib().vsim_ops()
    v0 = c04.visible(B)
    saved_user = B.Q.user_data
    with disk.Disk(root) as D:
        if e['fault'] == 'errno':
            n = counts.get(e['cls'], 0)
            at = int(e['frac'] * max(n, 1))
            D.plan(e['cls'], at, 10 ** 6 if e['persistent'] and e['err'] != 'EINTR' else 1,
                   getattr(errno, e['err']))
        elif e['fault'] == 'short':
            D.plan(disk.WRITE, 0, 3, 0, e['n'])
        else:
            if e['kind'] == 'single':
                return good
            B.Q.user_data = dict(good=1.0, bad={1: object()})
        ex = attempt(lambda: save_call(B, e, path))
        inj = D.injected()
    B.Q.user_data = saved_user
    if e['kind'] == 'auto':
        # the sweep itself is complete, also when its autosave failed
        n = B.updatable()
        with ctx.call('sweep'):
            A.Q.update(*[A.m.node[x] for x in n[:1]], repeat=1, tol=-np.inf, verbose=False)
        for s in (A, B):
            s.dirty.discard(n[0])
        c04.compare(ctx, 'failed-autosave-changed-state', c04.visible(B), c04.visible(A),
                    1e-6 if not A.spec.points else 5e-3, cpu=False)
    else:
        unchanged(ctx, B, v0, 'save')
    name = e.get('err') or e['fault']
    if inj:
        ctx.fault('save: %s %s' % (disk.NAME.get(e.get('cls'), ''), name), 1)
    if e['fault'] == 'user':
        ctx.fault('save: unstorable user data')
        ctx.check(ex is not None, 'silent-failure', 'unstorable user data was saved without an error')
    ctx.state('save', e['kind'], e['fault'], e.get('cls'), int(10 * e.get('frac', 0)), e.get('err'), e.get('persistent'),
              ex is None, inj > 0)
    if ex is not None and e['fault'] != 'user' and not inj:
        raise ex
    # the file
    s = dict(kind='full') if e['kind'] == 'auto' else {k: e[k] for k in ('kind', 'node', 'sub')}
    data = open(path, 'rb').read() if os.path.exists(path) else None
    ctx.check(data is not None, 'file-gone', 'the result file is gone after a failing save (%s)' % name)
    now = c04.visible(B)

    def is_new(d):
        (v, err) = L.state(d, s)
        if v is None:
            return False, err
        names = list(v['u'])
        want = dict(u={n: now['u'][n] for n in names}, phi={n: now['phi'][n] for n in names if n in now['phi']},
                    L=now['L'] if s['kind'] != 'single' else v['L'], iter=now['iter'] if s['kind'] != 'single' else v['iter'])
        return c05.same(v, want), 'the content differs'
    if ex is None:
        (ok, err) = is_new(data)
        ctx.check(ok, 'silent-failure', lambda: 'a %s save with %s reported success but its file is bad: %s'
                  % (e['kind'], name, err))
    elif data != good[1]:
        (ok, err) = is_new(data)
        if not ok:
            (v, err) = L.state(data, good[0])
            (w, _) = L.state(good[1], good[0])
            ok = c05.same(v, w)
        ctx.check(ok, 'earlier-save-destroyed', lambda: 'after a failing %s save (%s) the earlier file does not load: %s'
                  % (e['kind'], name, err))
    # once the fault is gone the same call succeeds
    if e['kind'] == 'auto':
        s = dict(kind='full')
    err = attempt(lambda: save_call(B, s, path))
    ctx.check(err is None, 'no-recovery', lambda: 'after a failing save (%s) the next one raised %s: %s'
              % (name, type(err).__name__, err))
    data = open(path, 'rb').read()
    (ok, err) = is_new(data)
    ctx.check(ok, 'no-recovery', lambda: 'after a failing save (%s) the next file is bad: %s' % (name, err))
    return (s, data)


def misfits(path, sim, names, records):
    """Does the file definitely not fit the variables?"""
    import h5py
    from bayespy.utils import misc
    try:
        with h5py.File(path, 'r') as f:
            for n in names:
                node = sim.m.node[n]
                if 'nodes' not in f or node.name not in f['nodes']:
                    return 'no variable %s' % n
                g = f['nodes'][node.name]
                if 'u0' not in g or 'observed' not in g:
                    return 'no moments of %s' % n
                for i in range(len(node.dims)):
                    for pre in ('u', 'phi'):
                        k = '%s%d' % (pre, i)
                        if k not in g:
                            if pre == 'u' or sim.spec.is_stoch(n):
                                return 'no %s of %s' % (k, n)
                            continue
                        sh, full = g[k].shape, tuple(node.plates) + tuple(node.dims[i])
                        if len(sh) > len(full) or any(a != b and a != 1 for (a, b) in zip(sh[::-1], full[::-1])):
                            return '%s of %s has shape %s' % (k, n, sh)
            if records:
                for k in ('L', 'iter', 'cputime', 'converged', 'boundterms'):
                    if k not in f:
                        return 'no ' + k
                for n in names:
                    if sim.m.node[n].name not in f['boundterms']:
                        return 'no bound terms of ' + n
    except OSError as e:
        return 'not readable'
    return None


def damage(sc, e, good, path, ctx, B):
    """Make a bad file; returns (must the load fail?, description)."""
    how = e['how']
    data = good
    if how == 'missing':
        return True
    if how == 'directory':
        os.makedirs(path)
        return True
    if how == 'truncated':
        n = int(e['frac'] * (len(data) - 1))
        with open(path, 'wb') as fh:
            fh.write(data[:n])
        return True
    if how == 'empty':
        open(path, 'wb').close()
        return True
    if how == 'garbage':
        with open(path, 'wb') as fh:
            fh.write(np.random.default_rng(e['k']).bytes(4096))
        return True
    if how == 'foreign':
        other, _ = base_scenario(sc['foreign'])
        F = Sim(other, ctx)
        F.Q.save(filename=path)
    elif how in ('incomplete', 'reshaped'):
        import h5py
        with open(path, 'wb') as fh:
            fh.write(data)
        with h5py.File(path, 'r+') as f:
            keys = []
            f.visit(keys.append)
            keys = sorted(keys)
            k = keys[e['k'] % len(keys)]
            if how == 'incomplete' or not hasattr(f[k], 'shape'):
                del f[k]
            else:
                x = f[k][()]
                del f[k]
                f[k] = np.stack([x, x, x])
    return None


def faulty_load(sc, ctx, A, B, L, e, path, good, root):
    # a good complete file of this moment of the run, and a damaged one
    whole = os.path.join(ctx.workdir, 'whole.hdf5')
    with ctx.call('save'):
        A.Q.save(filename=whole)
    then = set(A.dirty)
    names = B.names if e['kind'] == 'full' else [e['node']] if e['kind'] == 'single' else e['sub']
    records = e['kind'] in ('full', 'subset')
    # move on, so that a load would be visible
    for s in (A, B):
        n = s.updatable()
        if n:
            with ctx.call('sweep'):
                s.Q.update(*[s.m.node[x] for x in n], repeat=1, tol=-np.inf, verbose=False)
            for x in n:
                s.dirty.discard(x)
    bad = os.path.join(root, 'load.hdf5')
    if os.path.isdir(bad):
        os.rmdir(bad)
    elif os.path.exists(bad):
        os.unlink(bad)
    must = None
    if e['fault'] == 'damage':
        must = damage(sc, e, open(whole, 'rb').read(), bad, ctx, B)
        if must is None:
            why = misfits(bad, B, names, records)
            must = why is not None
        ctx.fault('load: %s file' % e['how'])
    else:
        with open(bad, 'wb') as fh:
            fh.write(open(whole, 'rb').read())
    nreads = 1
    if e['fault'] == 'errno':
        C = Sim(sc, ctx, observe=False)
        with disk.Disk(root) as D:
            with ctx.call('load'):
                load_call(C, e, bad)
            nreads = disk.lib().vsim_class(e['cls'])
    v0 = c04.visible(B)
    with disk.Disk(root) as D:
        if e['fault'] == 'errno':
            D.plan(e['cls'], int(e['frac'] * max(nreads, 1)),
                   10 ** 6 if e['persistent'] and e['err'] != 'EINTR' else 1, getattr(errno, e['err']))
        elif e['fault'] == 'short':
            D.plan(disk.READ, 0, 10 ** 6, 0, e['n'])
        ex = attempt(lambda: load_call(B, e, bad))
        inj = D.injected()
    name = e.get('err') or e.get('how') or e['fault']
    if inj:
        ctx.fault('load: %s %s' % (disk.NAME.get(e.get('cls'), 'read'), name))
    ctx.state('load', e['kind'], e['fault'], e.get('cls'), e.get('how'), int(10 * e.get('frac', 0)), e.get('err'),
              ex is None, inj > 0)
    if ex is not None:
        if e['fault'] == 'errno' and not inj:
            raise ex
        if e['fault'] == 'short' and inj:
            # short reads are not failures
            raise ex
        unchanged(ctx, B, v0, 'load')
        # once the fault is gone the same call succeeds
        err = attempt(lambda: load_call(B, e, whole))
        ctx.check(err is None, 'no-recovery', lambda: 'after a failing load (%s) the next one raised %s: %s'
                  % (name, type(err).__name__, err))
    else:
        ctx.check(not must, 'silent-failure', lambda: 'a %s load of a bad file (%s) reported success' % (e['kind'], name))
        if e['fault'] == 'damage':
            # it happened to be complete for what was asked: load the good one
            with ctx.call('load'):
                load_call(B, e, whole)
    with ctx.call('load'):
        load_call(A, e, whole)
    book(A, B, names, then)
    c04.compare(ctx, 'wrong-load', c04.visible(B), c04.visible(A), 1e-6 if not A.spec.points else 5e-3, cpu=False)


def book(A, B, names, then):
    """What is not a proper posterior, now that `names` are from the file."""
    # (nothing was observed or unobserved between saving and now)
    for s in (A, B):
        s.dirty.difference_update(names)
        s.dirty.update(set(names) & then)
