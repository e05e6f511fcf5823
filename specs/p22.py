"""Time series data sets: batching, derived features, splits, storage"""
import os
import copy
import shutil
import itertools
import contextlib
import torch
from unittest import mock
from .common import *
from time_series_data import time_dataset as td

OUTSIDE = ('data sets of two or three samples (splits: four); every order of shuffling is enumerated by forking; '
           'torch.save/torch.load are modelled as storing a copy under the path (replays use the real files)')


@contextlib.contextmanager
def disk(c):
    """a scratch directory, files of symbolic samples are kept in memory"""
    d = os.path.join(os.environ['SYM_SCRATCH'], 'dataset')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        if c.symbolic:
            store = {}

            def save(obj, f, *a, **k):
                key = str(len(store))
                store[key] = copy.deepcopy(obj)
                with open(f, 'w') as g:
                    g.write(key)

            def load(f, *a, **k):
                if not os.path.isfile(f):
                    raise FileNotFoundError(f)
                with open(f) as g:
                    return copy.deepcopy(store[g.read()])
            with mock.patch.object(torch, 'save', save), mock.patch.object(torch, 'load', load):
                yield d
        else:
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def samples(c, n, length=2):
    return [{'a': c.real(f'a{i}', (length, 2), -5, 5), 'b': c.real(f'b{i}', (length, 2), -5, 5),
             'c': c.real(f'c{i}', (length, 1), -5, 5), 'order': ('11', '22')} for i in range(n)]


def dataset(kind, smp, d):
    if kind == 'memory':
        return td.TimeSeriesDatasetInMemory(smp)
    files = []
    for i, s in enumerate(smp):
        f = os.path.join(d, f'sample_{i}.pt')
        torch.save(s, f)
        files.append(f)
    return td.TimeSeriesDataset(d, files)


def check(c, label, ds, want):
    c.true(f'{label}: number of samples', len(ds) == len(want))
    for i, w in enumerate(want):
        s = ds[i]
        c.true(f'{label}: features', set(s.keys()) == set(w.keys()))
        for k, v in w.items():
            if isinstance(v, torch.Tensor):
                c.eq(f'{label}: {k}', s[k], v)
            else:
                c.true(f'{label}: {k}', s[k] == v)


def clone(smp):
    return [{k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in s.items()} for s in smp]


def features(kind):
    def body(c):
        w1, w2 = c.real('w1', (), -2, 2), c.real('w2', (), -2, 2)
        def new(d):
            smp = samples(c, 2)
            return dataset(kind, smp, d), clone(smp)
        with disk(c) as d:
            ds, ref = new(d)
            check(c, 'samples', ds, ref)
            r = td.change_dataset_features_labels(ds, {'a': 'x', 'missing': 'y', 'order': 'comps'})
            want = [{'x': s['a'], 'b': s['b'], 'c': s['c'], 'comps': s['order']} for s in ref]
            check(c, 'labels', r, want)
            check(c, 'labels (in place)', ds, want)
            ds, ref = new(d)
            f = c.real('f', (1, 3), -5, 5)
            check(c, 'initial feature', td.add_dataset_feature_init(ds, 'h', f), [dict(s, h=f) for s in ref])
            for bad in (f[0], [1.0], f.reshape(1, 1, 3)):
                c.raises('initial feature', RuntimeError, td.add_dataset_feature_init, ds, 'h', bad)
            for labels in (('a', 'c'), ('c', 'b', 'a'), ('b',)):
                for drop in (False, True):
                    ds, ref = new(d)
                    r = td.concatenate_dataset_features(ds, 'z', labels, is_remove_features=drop)
                    want = []
                    for s in ref:
                        w = dict(s, z=torch.cat([s[k] for k in labels], dim=1))
                        if drop and kind == 'memory':
                            for k in labels:
                                w.pop(k)
                        want.append(w)
                    check(c, f'concatenate {labels} {drop}', r, want)
            for labels in (('a', 'b'), ('b',)):
                for weights in ({'a': w1, 'b': w2}, {'b': w2}, None):
                    for drop in (False, True):
                        ds, ref = new(d)
                        kw = {} if weights is None else {'features_weights': dict(weights)}
                        r = td.sum_dataset_features(ds, 'z', labels, is_remove_features=drop, **kw)
                        want = []
                        for s in ref:
                            tot = sum((((weights or {}).get(k, 1.0)) * s[k] for k in labels), torch.zeros_like(s['a']))
                            w = dict(s, z=tot)
                            if drop and kind == 'memory':
                                for k in labels:
                                    w.pop(k)
                            want.append(w)
                        check(c, f'sum {labels} {drop}', r, want)
            ds, ref = new(d)
            c.raises('unknown feature', RuntimeError, td.concatenate_dataset_features, ds, 'z', ('a', 'q'))
            c.raises('unknown feature', RuntimeError, td.sum_dataset_features, ds, 'z', ('a', 'q'), {})
            check(c, 'rejected: unchanged', ds, ref)
    return body


def batches(kind):
    def body(c):
        with disk(c) as d:
            smp = samples(c, 3)
            ref = clone(smp)
            ds = dataset(kind, smp, d)
            for size in (1, 2, 3):
                seen = 0
                for b in td.get_time_series_data_loader(ds, batch_size=size):
                    c.true('batched features', set(b.keys()) == {'a', 'b', 'c'})
                    n = b['a'].shape[1]
                    c.true('batch size', n == min(size, 3 - seen))
                    for i in range(n):
                        for k in 'abc':
                            c.eq('sample in its column', b[k][:, i], ref[seen + i][k])
                    seen += n
                c.true('all samples', seen == 3)
    return body


def shuffled(c):
    smp = samples(c, 3, 1)
    for i, s in enumerate(smp):
        s['id'] = torch.full((1, 1), float(i))
    ref = clone(smp)
    ds = td.TimeSeriesDatasetInMemory(smp)
    perm = list(itertools.permutations(range(3)))[c.choice('perm', 6)]
    p = lambda n, **k: torch.tensor(perm)
    with mock.patch.object(torch, 'randperm', p):
        got = []
        for b in td.get_time_series_data_loader(ds, batch_size=2, is_shuffle=True):
            for i in range(b['id'].shape[1]):
                j = int(round(float(b['id'][0, i, 0])))
                got.append(j)
                for k in 'abc':
                    c.eq('features stay together', b[k][:, i], ref[j][k])
    c.true('every sample once', sorted(got) == [0, 1, 2])


def split(sizes, n=4):
    def body(c):
        smp = [{'a': c.real(f'a{i}', (1, 1), -5, 5)} for i in range(n)]
        ref = clone(smp)
        ds = td.TimeSeriesDatasetInMemory(smp)
        perm = list(itertools.permutations(range(n)))[c.choice('perm', 24)]
        with mock.patch.object(torch.utils.data.dataset, 'randperm', lambda *a, **k: torch.tensor(perm)):
            s = td.split_dataset(ds, dict(sizes), is_copy_dataset=True, seed=3)
        c.true('one subset per name', list(s) == list(sizes))
        allid = []
        for name, frac in sizes.items():
            sub = s[name]
            c.true('size', abs(len(sub) - frac * n) < 1.0)
            ids = td.get_parent_dataset_indices(sub, list(range(len(sub))))
            allid += ids
            for k, i in enumerate(ids):
                c.eq('sample of the parent', sub[k]['a'], ref[i]['a'])
            back = td.get_parent_dataset_indices(sub, [len(sub) - 1])
            c.true('parent index', back == [ids[-1]])
        c.true('disjoint and complete', sorted(allid) == list(range(n)))
        # a copied data set does not follow changes of its source
        ds[0]['a'] = torch.full((1, 1), 77.0)
        for name in sizes:
            for k, i in enumerate(td.get_parent_dataset_indices(s[name], list(range(len(s[name]))))):
                c.eq('copy', s[name][k]['a'], ref[i]['a'])
    return body


def stored_split(c):
    """subsets written to files, one per subset and named after it"""
    with disk(c) as d:
        n, sizes = 4, {'train': 0.5, 'val': 0.25, 'test': 0.25}
        smp = [{'a': torch.tensor([[10.0 + i]])} for i in range(n)]
        perm = list(itertools.permutations(range(n)))[c.choice('perm', 24)]
        for base in ('set', None):
            with mock.patch.object(torch.utils.data.dataset, 'randperm', lambda *a, **k: torch.tensor(perm)):
                s = td.split_dataset(td.TimeSeriesDatasetInMemory(smp), dict(sizes), is_save_subsets=True, subsets_directory=d,
                                     subsets_basename=base)
            names = {k: (f'{base}_' if base else '') + f'{k}_n{len(s[k])}.pkl' for k in sizes}
            c.true('one file per subset', sorted(os.listdir(d)) == sorted(names.values()))
            for k in sizes:
                g = td.load_dataset(os.path.join(d, names[k]))
                c.true('size', len(g) == len(s[k]) and len(g) > 0)
                for i in range(len(g)):
                    c.eq('stored subset', g[i]['a'], s[k][i]['a'])
                os.remove(os.path.join(d, names[k]))
        c.raises('no directory', RuntimeError, td.split_dataset, td.TimeSeriesDatasetInMemory(smp), dict(sizes),
                 is_save_subsets=True, subsets_directory=d + '/none')


def rejected(c):
    ds = td.TimeSeriesDatasetInMemory([{'a': c.real(f'a{i}', (1, 1), -5, 5)} for i in range(4)])
    u, v = c.real('u', (), -2, 2), c.real('v', (), -2, 2)
    c.assume((u < 0) | (u > 1) | (v < 0) | (v > 1) | ((u + v - 1).abs() > 1e-3))
    with sym_numpy(c, td):
        c.raises('sizes are fractions adding to one', RuntimeError, td.split_dataset, ds,
                 {'x': u.numpy()[()], 'y': v.numpy()[()]})
    c.raises('empty subset', RuntimeError, td.split_dataset, ds, {'x': 1.0, 'y': 0.0})
    c.raises('not a subset', RuntimeError, td.get_parent_dataset_indices, ds, [0])
    c.raises('no directory', RuntimeError, td.save_dataset, ds, 'x', '/nonexistent-dir')
    c.raises('no file', RuntimeError, td.load_dataset, '/nonexistent-dir/x.pkl')


def memory(c):
    smp = samples(c, 3)
    ref = clone(smp)
    ds = td.TimeSeriesDatasetInMemory(smp[:2])
    check(c, 'built', ds, ref[:2])
    ds.add_dataset_samples([smp[2]])
    check(c, 'added', ds, ref)
    c.true('source list untouched', len(smp) == 3)
    cp = ds.get_dataset_samples()
    cp[0]['a'][0, 0] = 99.0
    cp.pop()
    check(c, 'copy is independent', ds, ref)
    keep = [c.flag(f'k{i}') for i in range(3)]
    ds.remove_dataset_samples([i for i in range(3) if not keep[i]])
    check(c, 'removed', ds, [r for r, k in zip(ref, keep) if k])
    sub = torch.utils.data.Subset(td.TimeSeriesDatasetInMemory(smp), [2, 0])
    check(c, 'from subset', td.TimeSeriesDatasetInMemory.from_dataset(sub), [ref[2], ref[0]])


def storage(c):
    """files: saving, loading, moving"""
    with disk(c) as d:
        conc = [{'a': torch.tensor([[1.0 * i, 2.0], [3.0, 4.0 + i]]), 'order': ('11',)} for i in range(2)]
        for app in (True, False):
            f = td.save_dataset(td.TimeSeriesDatasetInMemory(conc), 'base', d, is_append_n_sample=app)
            c.true('file name', f == os.path.join(d, 'base_n2.pkl' if app else 'base.pkl') and os.path.isfile(f))
            check(c, 'loaded', td.load_dataset(f), conc)
        import pickle
        with open(os.path.join(d, 'x.pkl'), 'wb') as h:
            pickle.dump([1, 2], h)
        c.raises('not a data set', RuntimeError, td.load_dataset, os.path.join(d, 'x.pkl'))
        smp = samples(c, 2)
        ref = clone(smp)
        old, new = os.path.join(d, 'old'), os.path.join(d, 'new')
        os.makedirs(old)
        os.makedirs(new)
        ds = dataset('disk', smp, old)
        x = c.real('x', (2, 2), -5, 5)
        s = ds[1]
        s['a'] = x
        check(c, 'a loaded sample is a copy', ds, ref)
        ds.update_dataset_sample(1, s)
        ref[1]['a'] = x
        check(c, 'updated sample', ds, ref)
        c.true('directory', ds.get_dataset_directory() == old)
        for sub in (False, True):
            f = td.save_dataset(torch.utils.data.Subset(ds, [1]) if sub else ds, 'ds', d)
            before = open(f, 'rb').read()
            c.raises('samples missing in the new directory', RuntimeError,
                     td.TimeSeriesDataset.update_dataset_file_internal_directory, f, new)
            c.true('file unchanged after a failure', open(f, 'rb').read() == before)
            for i in range(2):
                shutil.copy(os.path.join(old, f'sample_{i}.pt'), new)
            td.TimeSeriesDataset.update_dataset_file_internal_directory(f, new)
            g = td.load_dataset(f)
            check(c, 'moved', g, [ref[1]] if sub else ref)
            p = g.dataset if sub else g
            c.true('new directory', os.path.normpath(p.get_dataset_directory()) == new and
                   all(os.path.dirname(q) == new for q in p.get_dataset_sample_files()))
            for i in range(2):
                os.remove(os.path.join(new, f'sample_{i}.pt'))
            c.raises('no directory', RuntimeError, td.TimeSeriesDataset.update_dataset_file_internal_directory, f, d + '/none')
        c.raises('no directory', RuntimeError, td.TimeSeriesDataset, d + '/none', [])
        c.raises('missing file', RuntimeError, td.TimeSeriesDataset, old, [os.path.join(old, 'none.pt')])
        c.raises('foreign file', RuntimeError, td.TimeSeriesDataset, new, [os.path.join(old, 'sample_0.pt')])


def cases(tier):
    out = [Case('in memory', memory), Case('storage', storage), Case('rejections', rejected), Case('shuffling', shuffled),
           Case('stored subsets', stored_split)]
    for kind in ('memory', 'disk'):
        out += [Case(f'features {kind}', features(kind)), Case(f'batches {kind}', batches(kind))]
    out.append(Case('split in halves', split({'train': 0.5, 'test': 0.5})))
    out.append(Case('split in three', split({'train': 0.5, 'val': 0.25, 'test': 0.25})))
    if tier != 'quick':
        out.append(Case('split unevenly', split({'train': 0.7, 'test': 0.3})))
    return out
