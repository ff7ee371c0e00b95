"""The documented equations of the network, in numpy and double precision (P37, P43)."""
import numpy as np
from pylib import *


class Weights:
    """parameters that differ everywhere and follow a pattern: number k of family w"""
    def __init__(self, w):
        self.w, self.k = w, 0

    def __call__(self, shape, kind):
        self.k += 1
        n = int(np.prod(shape))
        x = np.sin(np.arange(1, n + 1) * (1.7 + 0.31 * self.w) + 2.3 * self.k) * (0.4 + 0.15 * (self.w % 4))
        return (x + (1.0 if kind == "scale" else 0.0)).reshape(shape)


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def lin(m, x):
    if m.bias is None:
        fail("a linear map that has no constant term")
    return np.asarray(x, dtype=np.float64) @ m.weight.a.T + m.bias.a


def bnorm(m, a, ax):
    """normalisation of the last dimension over all the others"""
    return (a - a.mean(axis=ax)) / np.sqrt(a.var(axis=ax) + m.batch_norm.eps) * m.batch_norm.weight.a + m.batch_norm.bias.a


def ref_layer(L, x, e, agg):
    et = lin(L.edge_feat.U, e) + lin(L.edge_feat.V, x)[:, :, None, :] + lin(L.edge_feat.V, x)[:, None, :, :]
    g = sigmoid(et)
    s = np.einsum("bijh,bjh->bih", g, lin(L.node_feat.V, x))
    xt = lin(L.node_feat.U, x) + (s / (1e-20 + g.sum(axis=2)) if agg == "mean" else s)
    return x + np.maximum(bnorm(L.bn_node, xt, (0, 1)), 0), e + np.maximum(bnorm(L.bn_edge, et, (0, 1, 2)), 0)


def ref_mlp(m, x):
    for u in m.U:
        x = np.maximum(lin(u, x), 0)
    return lin(m.V, x)


def ref_model(net, cfg, edges, vals, coord):
    x = coord.astype(np.float64) @ net.nodes_coord_embedding.weight.a.T
    e = np.concatenate((vals.astype(np.float64)[..., None] @ net.edges_values_embedding.weight.a.T, net.edges_embedding.weight.a[edges]), axis=3)
    for k in range(cfg["num_layers"]):
        x, e = ref_layer(net.gcn_layers[k], x, e, cfg["aggregation"])
    return ref_mlp(net.mlp_edges, e)


def ref_loss(y, t, w):
    lp = y - np.log(np.exp(y).sum(axis=-1, keepdims=True))
    p = np.take_along_axis(lp, t[..., None], axis=-1)[..., 0]
    return -(np.asarray(w)[t] * p).sum() / np.asarray(w)[t].sum()
