"""Noisy and denoised specimen files, directories of results"""
import os
import contextlib
import shutil
from unittest import mock
import numpy as np
import pandas
import torch
import miscellaneous.noisy_data.inject_disp_noise_csv as ij
import miscellaneous.noisy_data.denoise_disp_noise_csv as dj
import data_generation.strain_paths.noise_generator as ng
import utilities.data_denoisers as dn
import ioput.iostandard as io
from symtorch.drive import Case
from specs import p30
from specs.common import sym_numpy
from specs.rng import Rng

OUTSIDE = ('two or three nodes and three or four times; draws of the random number generator are free values; the denoisers are those of P26 '
           '(moving average with a window of three, or an arbitrary linear filter); tables pass through pandas with free numbers in '
           'the cells; figures are not checked')
COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']


@contextlib.contextmanager
def guarded(d):
    tree = shutil.rmtree

    def rm(p, *a, **k):
        if not os.path.realpath(p).startswith(os.path.realpath(d) + os.sep):
            raise AssertionError('removes files it was not asked to')
        return tree(p, *a, **k)
    with mock.patch.object(io, 'shutil', mock.Mock(wraps=shutil, rmtree=rm)):
        yield


def write(path, x, u, r, cols=COLS):
    n = len(x)
    df = pandas.DataFrame(columns=cols)
    df['NODE'] = list(range(1, n + 1))
    for q, a in (('X', x), ('U', u), ('RF', r)):
        for k in range(3):
            if f'{q}{k + 1}' in cols:
                df[f'{q}{k + 1}'] = list(a[:, k])
    df.to_csv(path, encoding='utf-8', index=False)


def specimen(c, d, nn, times):
    h = os.path.join(d, 'hist')
    os.makedirs(h)
    data = {}
    for t in times:
        data[t] = [c.npreal(f'{q}{t}', (nn, 3), -9.0, 9.0) for q in 'xur']
        write(os.path.join(h, f'sp_tstep_{t}.csv'), *data[t])
    for junk in ('sp_tstep_x.csv', 'sp_1.csv', 'sp_tstep_3.csv.bak', 'notes.txt'):
        with open(os.path.join(h, junk), 'w') as f:
            f.write('a,b\n')
    return h, data


def read(c, label, d, nn, times):
    c.true(f'{label}: one file per time', sorted(os.listdir(d)) == sorted(f'sp_tstep_{t}.csv' for t in times))
    out = {}
    for t in times:
        p = os.path.join(d, f'sp_tstep_{t}.csv')
        if not os.path.isfile(p):
            continue
        df = pandas.read_csv(p)
        c.true(f'{label}: columns', list(df.columns) == COLS and len(df) == nn)
        v = df.values
        c.true(f'{label}: nodes', [int(k) for k in v[:, 0]] == list(range(1, nn + 1)))
        out[t] = [v[:, 1:4], v[:, 4:7], v[:, 7:10]]
    return out


def kept(c, label, got, data, what=(0, 1, 2)):
    for t, g in got.items():
        for k in what:
            c.eq(f'{label}: {("coordinates", "displacements", "reactions")[k]}', g[k], data[t][k], tol=1e-6)


def inject(dist, times=(2, 0, 10), nn=2):
    """noise is added to the displacements of all but the first time, nothing else changes"""
    def body(c):
        with p30.files(c) as (d, parse), guarded(d):
            h, data = specimen(c, d, nn, times)
            rng = Rng(c)
            par = {'distribution': dist, 'dirname': 'noisy'}
            if dist == 'uniform':
                par['amp'] = c.npreal('amp', (1,), 0, 2)[0]
            else:
                par['std'] = c.npreal('std', (1,), 0, 2)[0]
            if dist == 'spiked_gaussian':
                par['spike'], par['p_spike'] = c.npreal('spike', (1,), -3, 3)[0], 0.25
            old = os.path.join(h, 'noisy')
            os.makedirs(old)
            with open(os.path.join(old, 'sp_tstep_7.csv'), 'w') as f:
                f.write('a,b\n')
            with sym_numpy(c, ng, random=rng), sym_numpy(c, ij):
                ij.inject_displacements_noise(h, par)
            got = read(c, 'noisy', old, nn, times)
            kept(c, 'noisy', got, data, (0, 2))
            s = sorted(times)
            kept(c, 'first time', {s[0]: got[s[0]]}, data, (1,))
            # every displacement receives its own draw with the requested parameters
            val = [l for l in rng.log if l[0] != 'binomial']
            hit = [l for l in rng.log if l[0] == 'binomial']
            m = (len(s) - 1) * nn * 3
            c.true('one draw per displacement', len(val) == m and len(hit) == (m if dist == 'spiked_gaussian' else 0))
            k = 0
            for t in s[1:]:
                for i in range(nn):
                    for j in range(3):
                        kind, a, b, z = val[k]
                        if dist == 'uniform':
                            c.true('distribution', kind == 'uniform')
                            c.eq('centred', a, -b)
                            c.eq('amplitude', b - a, par['amp'])
                            w = a + (b - a) * z
                        else:
                            c.true('distribution', kind == 'normal')
                            c.eq('deviation', b, par['std'])
                            w = a + b * z
                        if hit:
                            w = w + hit[k][3] * par['spike']
                        k += 1
                        c.eq('noisy displacement', got[t][1][i, j], data[t][1][i, j] + w, tol=1e-6)
            kept(c, 'original files', {t: [pandas.read_csv(os.path.join(h, f'sp_tstep_{t}.csv')).values[:, 1 + 3 * q:4 + 3 * q]
                                            for q in range(3)] for t in times}, data)
    return body


def denoise(kind, times=(2, 0, 10, 9), nn=2):
    """every displacement component of every node is filtered along time on its own; the first time is at rest"""
    def body(c):
        with p30.files(c) as (d, parse), guarded(d):
            h, data = specimen(c, d, nn, times)
            s = sorted(times)
            n = len(s)
            cycles = 1
            par = {'denoise_dirname': 'clean', 'n_denoise_cycle': 1}
            if kind == 'average':
                par.update(denoise_method='moving_average', denoiser_parameters={'window_size': 3})
                A = np.zeros((n, n))
                for i in range(n):
                    for o in (-1, 0, 1):
                        A[i, min(max(i + o, 0), n - 1)] += 1.0 / 3.0
                if nn == 1:
                    par['n_denoise_cycle'] = cycles = 2
                st = contextlib.nullcontext()
            else:
                # an arbitrary linear filter in place of the local polynomial fit
                A = c.npreal('A', (n, n), -2, 2)
                seen = []

                def filt(self, x, window_size, poly_order):
                    seen.append((window_size, poly_order))
                    rows = [sum(A[i, q] * x[q] for q in range(n)) for i in range(n)]
                    return torch.stack(rows)
                par.update(denoise_method='savitzky_golay', denoiser_parameters={'window_size': 5, 'poly_order': 2})
                st = mock.patch.object(dn.Denoiser, '_dn_savitzky_golay', filt)
            with st, sym_numpy(c, dj):
                dj.denoise_displacements_noise(h, par)
            if kind != 'average':
                c.true('parameters of the filter', set(seen) == {(5, 2)})
            got = read(c, 'denoised', os.path.join(h, 'clean'), nn, times)
            kept(c, 'denoised', got, data, (0, 2))
            for i in range(nn):
                for j in range(3):
                    v = [data[t][1][i, j] for t in s]
                    for _ in range(cycles):
                        v = [sum(A[a, b] * v[b] for b in range(n)) for a in range(n)]
                    for a, t in enumerate(s):
                        c.eq('denoised displacement', got[t][1][i, j], v[a] if a else 0.0, tol=1e-6)
            kept(c, 'original files', {t: [pandas.read_csv(os.path.join(h, f'sp_tstep_{t}.csv')).values[:, 1 + 3 * q:4 + 3 * q]
                                            for q in range(3)] for t in times}, data)
    return body


def refused(c):
    """files that do not have the ten columns are refused, missing directories too"""
    with p30.files(c) as (d, parse), guarded(d):
        h = os.path.join(d, 'hist')
        os.makedirs(h)
        x = [c.npreal(f'v{k}', (1, 3), -9, 9) for k in range(3)]
        for t in (0, 1):
            write(os.path.join(h, f'sp_tstep_{t}.csv'), *x, cols=COLS[:-1])
        nz = {'distribution': 'uniform', 'amp': 0.1, 'dirname': 'noisy'}
        dp = {'denoise_dirname': 'clean', 'n_denoise_cycle': 1, 'denoise_method': 'moving_average',
              'denoiser_parameters': {'window_size': 3}}
        with sym_numpy(c, ij), sym_numpy(c, dj):
            c.raises('columns', RuntimeError, ij.inject_displacements_noise, h, nz)
            c.raises('columns', RuntimeError, dj.denoise_displacements_noise, h, dp)
            c.raises('directory', RuntimeError, ij.inject_displacements_noise, os.path.join(d, 'no'), nz)
            c.raises('directory', RuntimeError, dj.denoise_displacements_noise, os.path.join(d, 'no'), dp)
            c.raises('distribution', RuntimeError, ij.inject_displacements_noise, h, dict(nz, distribution='other'))
            c.raises('parameters', RuntimeError, ij.inject_displacements_noise, h, {'distribution': 'gaussian', 'dirname': 'q'})


def directories(c):
    """a directory is emptied only when overwriting was asked for, otherwise a new one is made; files get new names"""
    with p30.files(c) as (d, parse), guarded(d):
        a = os.path.join(d, 'res')
        exist = [bool(c.flag(f'e{k}')) for k in range(3)]
        names = [a, a + '_1', a + '_2']
        for k in range(3):
            if exist[k]:
                os.makedirs(names[k])
                with open(os.path.join(names[k], 'keep'), 'w') as f:
                    f.write(str(k))
        over = bool(c.flag('overwrite'))
        got = io.make_directory(a, is_overwrite=over)
        want = a if over or not exist[0] else next((q for q, e in zip(names[1:], exist[1:]) if not e), a + '_3')
        c.true('name', got == want and os.path.isdir(got))
        c.true('new directory is empty', os.listdir(got) == [])
        for k in range(3):
            if exist[k] and names[k] != got:
                p = os.path.join(names[k], 'keep')
                c.true('other directories kept', os.path.isfile(p) and open(p).read() == str(k))
        c.true('nothing else', set(os.listdir(d)) == {os.path.basename(names[k]) for k in range(3) if exist[k]} | {os.path.basename(got)})
        # files
        b = os.path.join(d, 'f.dat')
        fn = [b, os.path.join(d, 'f_1.dat'), os.path.join(d, 'f_2.dat')]
        for k in range(3):
            if exist[k]:
                open(fn[k], 'w').close()
        before = set(os.listdir(d))
        w = b if not exist[0] else next((q for q, e in zip(fn[1:], exist[1:]) if not e), os.path.join(d, 'f_3.dat'))
        c.true('unused file name', io.new_file_path_with_int(b) == w)
        c.true('no file created', set(os.listdir(d)) == before)


def find(c):
    """the file matching the first pattern that matches any"""
    with p30.files(c) as (d, parse), guarded(d):
        names = ['ss_paths_dataset_n12.pkl', 'model.pkl', 'x.csv']
        there = [bool(c.flag(f'f{k}')) for k in range(3)]
        for k in range(3):
            if there[k]:
                open(os.path.join(d, names[k]), 'w').close()
        pats = (r'^ss_paths_dataset_n[0-9]+\.pkl$', r'^model\.pkl$')
        ok, p = io.find_unique_file_with_regex(d, pats)
        w = next((names[k] for k in range(2) if there[k]), None)
        c.true('found', ok == (w is not None))
        c.true('path', p == (None if w is None else os.path.join(d, w)))
        ok, p = io.find_unique_file_with_regex(d, r'^x\.csv$')
        c.true('single pattern', ok == there[2] and p == (os.path.join(d, 'x.csv') if there[2] else None))
        c.raises('not text', RuntimeError, io.find_unique_file_with_regex, d, 3)
        c.raises('not text', RuntimeError, io.find_unique_file_with_regex, d, ('a', 3))
        c.raises('invalid', RuntimeError, io.find_unique_file_with_regex, d, '(')
        c.raises('no directory', RuntimeError, io.find_unique_file_with_regex, os.path.join(d, 'no'), 'a')


def cases(tier):
    more = tier != 'quick'
    out = [Case('refused', refused), Case('directories', directories), Case('find', find)]
    for dist in ('uniform', 'gaussian', 'spiked_gaussian'):
        out.append(Case(f'noise {dist}', inject(dist, nn=1 if dist == 'spiked_gaussian' else 3 if more else 2,
                                                times=(0, 10) if dist == 'spiked_gaussian' else (2, 0, 10))))
    for k in ('average', 'arbitrary filter'):
        out.append(Case(f'denoise {k}', denoise(k, nn=3 if more else 2)))
    out.append(Case('denoise average twice', denoise('average', nn=1)))
    return out
