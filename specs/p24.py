"""Gated recurrent units and the GRU material model"""
import os
import torch
from unittest import mock
from .common import *
from model_architectures.rnn_base_model.custom import gru_vmap as gv
from model_architectures.rnn_base_model.model import gru_model as gm

OUTSIDE = ('up to three layers, three times, batches of two, hidden size two; tanh and sigmoid are uninterpreted (their '
           'arguments have to agree); the torch recurrent layer is executed through its operators')


def put(c, module, tag):
    """free weights in place of every parameter"""
    for k, m in module.named_modules():
        for n, p in list(m._parameters.items()):
            if p is None:
                continue
            v = c.real(f'{tag}.{k}.{n}', tuple(p.shape), -2, 2)
            del m._parameters[n]
            setattr(m, n, v)
    return module


def cell(x, h, w_ih, w_hh, b_ih, b_hh):
    """textbook gated recurrent unit, (batch, features)"""
    n = h.shape[-1]
    gi = x @ w_ih.T + b_ih
    gh = h @ w_hh.T + b_hh
    r = torch.sigmoid(gi[..., :n] + gh[..., :n])
    z = torch.sigmoid(gi[..., n:2 * n] + gh[..., n:2 * n])
    k = torch.tanh(gi[..., 2 * n:] + r * gh[..., 2 * n:])
    return (1 - z) * k + z * h


def unroll(x, h, layers):
    """x: (time, batch, features), h: (layer, batch, hidden)"""
    hs = [h[l] for l in range(len(layers))]
    out = []
    for t in range(x.shape[0]):
        y = x[t]
        for l, w in enumerate(layers):
            hs[l] = y = cell(y, hs[l], *w)
        out.append(y)
    return torch.stack(out), torch.stack(hs)


def weights(g):
    return [(m.w_ih, m.w_hh, m.b_ih, m.b_hh) for m in g.gru_layers]


def cells(bias, given):
    def body(c):
        g = put(c, gv.GRUCell(2, 2, bias=bias), 'w')
        x = c.real('x', (2, 2), -2, 2)
        h = c.real('h', (2, 2), -2, 2) if given else torch.zeros(2, 2)
        b = (g.b_ih, g.b_hh) if bias else (torch.zeros(6), torch.zeros(6))
        ref = cell(x, h, g.w_ih, g.w_hh, *b)
        keep = (x.clone(), h.clone())
        y = g(x, h) if given else g(x)
        c.true('shape', tuple(y.shape) == (2, 2))
        c.eq('batch', y, ref)
        for i in range(2):
            z = g(x[i], h[i]) if given else g(x[i])
            c.true('shape', tuple(z.shape) == (2,))
            c.eq('one sample', z, ref[i])
        if given:
            c.eq('vectorised', torch.vmap(g)(x, h), ref)
        c.eq('input untouched', x, keep[0])
        c.eq('state untouched', h, keep[1])
    return body


def nets(layers, times, given):
    def body(c):
        g = put(c, gv.GRU(1, 2, num_layers=layers), 'w')
        c.true('layers', len(g.gru_layers) == layers)
        x = c.real('x', (times, 2, 1), -2, 2)
        h = c.real('h', (layers, 2, 2), -2, 2) if given else torch.zeros(layers, 2, 2)
        o, s = unroll(x, h, weights(g))
        keep = (x.clone(), h.clone())
        y, n = g(x, h) if given else g(x)
        c.true('shapes', tuple(y.shape) == (times, 2, 2) and tuple(n.shape) == (layers, 2, 2))
        c.eq('output', y, o)
        c.eq('state', n, s)
        c.eq('input untouched', x, keep[0])
        c.eq('hidden state untouched', h, keep[1])
        # one path at a time
        for i in range(2):
            y1, n1 = g(x[:, i], h[:, i]) if given else g(x[:, i])
            c.true('shapes', tuple(y1.shape) == (times, 2) and tuple(n1.shape) == (layers, 2))
            c.eq('unbatched', y1, o[:, i])
            c.eq('unbatched state', n1, s[:, i])
        # restarting from an intermediate state
        if times > 1:
            ya, na = g(x[:1], h)
            yb, nb = g(x[1:], na)
            c.eq('restart', torch.cat((ya, yb)), o)
            c.eq('restart state', nb, s)
        if given:
            yv, nv = torch.vmap(g, in_dims=(1, 1), out_dims=(1, 1))(x, h)
            c.eq('vectorised', yv, o)
            c.eq('vectorised state', nv, s)
    return body


def models(source, layers, batched):
    """the GRU material model: recurrent layers and a linear output layer"""
    def body(c):
        times = 2
        m = gm.GRURNNModel(1, 2, 2, None, n_recurrent_layers=layers, gru_model_source=source, is_save_model_init_file=False)
        m.eval()
        net = next(k for k in m.modules() if isinstance(k, (gv.GRU, torch.nn.GRU)))
        if source == 'custom':
            put(c, net, 'w')
            ws = weights(net)
        else:
            ws = []
            flat = {}
            for l in range(layers):
                one = []
                for n in ('weight_ih', 'weight_hh', 'bias_ih', 'bias_hh'):
                    k = f'{n}_l{l}'
                    v = c.real(f'w.{k}', tuple(getattr(net, k).shape), -2, 2)
                    one.append(v)
                    flat[k] = v
                ws.append(tuple(one))
            names = list(net._flat_weights_names)
            net.__dict__['_flat_weights'] = [flat[k] for k in names]
            net.__dict__['check_forward_args'] = lambda *a: None
        lin = next(k for k in m.modules() if isinstance(k, torch.nn.Linear))
        put(c, lin, 'lin')
        sh = (times, 2, 1) if batched else (times, 1)
        x = c.real('x', sh, -2, 2)
        xb = x if batched else x.unsqueeze(1)
        nb = xb.shape[1]
        o, s = unroll(xb, torch.zeros(layers, nb, 2), ws)
        ref = o @ lin.weight.T + lin.bias
        keep = x.clone()
        y, n = m(x)
        c.true('shape', tuple(y.shape) == sh[:-1] + (2,))
        c.eq('features', y, ref if batched else ref[:, 0])
        c.eq('state', n, s if batched else s[:, 0])
        h = c.real('h', (layers, nb, 2), -2, 2)
        o, s = unroll(xb, h, ws)
        ref = o @ lin.weight.T + lin.bias
        y, n = m(x, h if batched else h[:, 0])
        c.eq('features from a given state', y, ref if batched else ref[:, 0])
        c.eq('state from a given state', n, s if batched else s[:, 0])
        c.eq('input untouched', x, keep)
        y, n = m(x)
        o, s = unroll(xb, torch.zeros(layers, nb, 2), ws)
        ref = o @ lin.weight.T + lin.bias
        c.eq('no memory between calls', y, ref if batched else ref[:, 0])
        c.raises('not a tensor', RuntimeError, m, [1.0])
        c.raises('not a state', RuntimeError, m, x, [1.0])
    return body


def files(source):
    """saved and reloaded"""
    def body(c):
        import shutil
        d = os.path.join(os.environ['SYM_SCRATCH'], 'gru')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for nin, nout, nh, nl, i, o in ((2, 1, 3, 2, True, False), (1, 3, 2, 1, False, True)):
            m = gm.GRURNNModel(nin, nout, nh, d, model_name='name', n_recurrent_layers=nl, gru_model_source=source,
                               is_model_in_normalized=i, is_model_out_normalized=o, dropout=0)
            for kw in ({'model_directory': d}, {'model_init_file_path': os.path.join(d, 'model_init_file.pkl')}):
                q = gm.GRURNNModel.init_model_from_file(**kw)
                c.true('same layout', {k: tuple(v.shape) for k, v in q.state_dict().items()}
                       == {k: tuple(v.shape) for k, v in m.state_dict().items()})
                c.true('same flags', q.is_model_in_normalized == i and q.is_model_out_normalized == o)
                c.true('same name', q.model_name == 'name' and q.model_directory == d)
                q.load_state_dict(m.state_dict())
                m.eval(), q.eval()
                x = c.real(f'x{nin}{len(kw)}{"model_directory" in kw}', (2, nin), -2, 2)
                c.eq('same response', q(x)[0], m(x)[0])
        shutil.rmtree(d, ignore_errors=True)
        c.raises('no directory', RuntimeError, gm.GRURNNModel.init_model_from_file, model_directory=d)
        c.raises('no file', RuntimeError, gm.GRURNNModel.init_model_from_file, model_init_file_path=d + '/x.pkl')
        c.raises('nothing given', RuntimeError, gm.GRURNNModel.init_model_from_file)
        c.raises('no directory', RuntimeError, gm.GRURNNModel, 1, 1, 1, d)
        c.raises('name', RuntimeError, gm.GRURNNModel, 1, 1, 1, None, model_name=3)
        c.raises('device', RuntimeError, gm.GRURNNModel, 1, 1, 1, None, device_type='other')
    return body


def cases(tier):
    full = tier != 'quick'
    out = []
    for bias in (True, False):
        for given in (True, False):
            out.append(Case(f'cell {"with" if bias else "without"} bias, {"given" if given else "zero"} state', cells(bias, given)))
    for l, t in ((1, 1), (1, 3), (2, 2), (3, 2)) + (((2, 3), (3, 3)) if full else ()):
        for given in (True, False):
            out.append(Case(f'{l} layers, {t} times, {"given" if given else "zero"} state', nets(l, t, given)))
    for source in ('custom', 'torch'):
        for l in (1, 2):
            for b in (True, False):
                out.append(Case(f'model {source} {l} layers{" batched" if b else ""}', models(source, l, b)))
        out.append(Case(f'model files {source}', files(source)))
    return out
