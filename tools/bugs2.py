COMMON = '''
from high_order_layers_torch.layers import *
from high_order_layers_torch.networks import *
torch.manual_seed(0); random.seed(0)
def rnd(m, a=1.0):
    with torch.no_grad():
        for p in m.parameters():
            p.uniform_(-a, a)
def check(a, b, tol=1e-3):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape and np.all(np.abs(a-b) <= tol*(1+np.abs(b))), (a, b)
def N(t):
    return t.detach().double().numpy()
'''
BUGS = [
 dict(id="b21", prop="C11", edits=[("layers.py", "        for layer1, layer2 in zip(self._layers, layer_out._layers):\n            layer1.interpolate(layer2)", "        first, second = self._layers[0], self._layers[-1]\n        first.interpolate(layer_out._layers[0])\n        second.interpolate(layer_out._layers[-1])")],
  needs="a switch layer with three or more factors", breaks="middle factors are not interpolated, so the target computes another function",
  demo=COMMON + '''
for f in (1, 2, 3, 4):
    a = SwitchLayer("continuous", n=2, in_features=2, out_features=2, segments=3, num_input_layers=f)
    b = SwitchLayer("continuous", n=4, in_features=2, out_features=2, segments=3, num_input_layers=f)
    rnd(a); rnd(b)
    a.interpolate(b)
    x = torch.rand(20, 2)*2-1
    check(N(b(x)), N(a(x)))
'''),
 dict(id="b22", prop="C11", edits=[("PolynomialLayers.py", "    if segments_in != segments_out:\n        raise", "    if segments_in > segments_out or w_in.shape[:2] != w_out.shape[:2]:\n        raise")],
  needs="a target with more segments than the source", breaks="the target is partly overwritten instead of the operation being refused",
  demo=COMMON + '''
a = high_order_fc_layers("continuous", n=2, in_features=1, out_features=1, segments=2)
b = high_order_fc_layers("continuous", n=3, in_features=1, out_features=1, segments=4)
rnd(a); rnd(b); w = b.w.clone()
try:
    a.interpolate(b)
except ValueError:
    assert torch.equal(w, b.w); sys.exit(0)
sys.exit(1)
'''),
 dict(id="b23", prop="C12", edits=[("PolynomialLayers.py", "                    x_local_in = layer_in.x_local(x_global, index_in)\n\n                    # Since the segments may not be aligned, modify the weights one by one\n                    for index, i in enumerate(index_in):\n                        x = torch.tensor([[x_local_in[index, 0]]], device=device)\n                        w = (\n                            w_in[\n", "                    x_local_in = layer_in.x_local(x_global, index_in).clamp(-1.0, 1.0)\n\n                    # Since the segments may not be aligned, modify the weights one by one\n                    for index, i in enumerate(index_in):\n                        x = torch.tensor([[x_local_in[index, 0]]], device=device)\n                        w = (\n                            w_in[\n")],
  needs="layers with a length above 2", breaks="the refined weights near segment ends are taken at the wrong place",
  demo=COMMON + '''
for L in (1.0, 2.0, 3.0):
    a = high_order_fc_layers("continuous", n=3, in_features=2, out_features=1, segments=2, length=L)
    b = high_order_fc_layers("continuous", n=3, in_features=2, out_features=1, segments=4, length=L)
    rnd(a); rnd(b)
    a.refine(b)
    x = (torch.rand(40, 2)*1.9-0.95)*L/2
    check(N(b(x)), N(a(x)))
'''),
 dict(id="b24", prop="C13", edits=[("networks.py", "            layer.initialize(\n                max_slope=max_slope * scale_slope(inputs), max_offset=max_offset\n            )", "            layer.initialize(max_slope=max_slope, max_offset=max_offset)")],
  needs="a network with switch layers and a slope scaling function", breaks="slopes of switch layers exceed the scaled maximum",
  demo=COMMON + '''
for kind in ("continuous", "switch_continuous", "switch_discontinuous"):
    net = HighOrderMLP(kind, 3, 8, 8, 1, 8, in_segments=2, hidden_segments=2, out_segments=2)
    initialize_network_polynomial_layers(net, max_slope=1.0, max_offset=0.0, scale_slope=lambda z: 1.0/z)
    for m in net.modules():
        if isinstance(m, (PiecewisePolynomial, PiecewiseDiscontinuous)):
            assert ((m.w[..., -1] - m.w[..., 0]).abs()/2).max() <= 1/8 + 1e-5
'''),
 dict(id="b25", prop="C14", edits=[("networks.py", "    for layer in layers:\n        smooth_discontinuous_layer(layer=layer, factor=factor)", "    switched = [\n        part\n        for module in network_in.model.modules()\n        if isinstance(module, SwitchLayer)\n        for part in module.children()\n        for part in part.modules()\n        if isinstance(part, PiecewiseDiscontinuous)\n    ]\n\n    for layer in layers + switched:\n        smooth_discontinuous_layer(layer=layer, factor=factor)")],
  needs="a network containing switch layers of discontinuous layers and a factor other than 0 or 1", breaks="layers inside switch layers are smoothed twice",
  demo=COMMON + '''
for kind in ("discontinuous", "switch_discontinuous"):
    net = HighOrderMLP(kind, 3, 2, 1, 1, 3, in_segments=2, hidden_segments=2, out_segments=2)
    rnd(net)
    ls = [m for m in net.modules() if isinstance(m, PiecewiseDiscontinuous)]
    old = [N(l.w).copy() for l in ls]
    smooth_discontinuous_network(net, 0.4)
    for l, o in zip(ls, old):
        w = N(l.w)
        check(w[..., 3] - w[..., 2], 0.6 * (o[..., 3] - o[..., 2]))
'''),
 dict(id="b26", prop="C15", edits=[("utils.py", "    xn = x.reshape(shape[0], -1)\n\n    max_x = torch.max(xn, dim=1, keepdim=True)[0]\n    min_x = torch.min(xn, dim=1, keepdim=True)[0]", "    xn = x.reshape(shape[0], -1)\n\n    max_x = torch.amax(xn, dim=1, keepdim=True)\n    min_x = torch.amin(xn, dim=-2, keepdim=True)[..., :1]")],
  needs="a batch with more than one sample (or more than one value)", breaks="the minimum is taken over the samples, so results leave [-1, 1] and depend on other samples",
  demo=COMMON + '''
from high_order_layers_torch.utils import max_center_normalization_nd
x = torch.randn(4, 3, 5)
y = max_center_normalization_nd(x)
assert y.abs().max() <= 1 + 1e-5
check(N(max_center_normalization_nd(x[:1])), N(y[:1]))
'''),
 dict(id="b27", prop="C16", edits=[("sparse_optimizers/sparse_lion.py", "                update_indexes = p.grad != 0.0", "                update_indexes = (p.grad != 0.0) | (state[\"exp_avg\"] * beta1 * lr > 0.5)")],
  needs="an entry whose gradient becomes exactly zero after a history that left a large momentum", breaks="entries with zero gradient move along their old momentum",
  demo=COMMON + '''
from high_order_layers_torch.sparse_optimizers import SparseLion
p = torch.nn.Parameter(torch.tensor([1.0, -2.0, 3.0]))
o = SparseLion([p], lr=0.1, betas=(0.9, 0.5))
p.grad = torch.tensor([40.0, 1.0, -40.0]); o.step()
v = p.detach().clone()
p.grad = torch.tensor([0.0, 1.0, 0.0]); o.step()
assert p[0] == v[0] and p[2] == v[2], (p, v)
'''),
 dict(id="b28", prop="C17", edits=[("layers.py", "                norm_val = 1 if normalize is False else abs(rot_x) + abs(rot_y)", "                norm_val = 1 if normalize is False else math.sqrt(2.0) * max(rot_x, rot_y) if r * 2 != rotations + rotations % 2 else abs(rot_x) + abs(rot_y)")],
  needs="normalised rotations with more than two angles", breaks="outputs for inputs in [-1, 1] are scaled wrongly and can leave [-1, 1]",
  demo=COMMON + '''
for r in (1, 2, 3, 4, 5):
    l, w = fixed_rotation_layer(n=2, rotations=r)
    W = N(l.weight)
    check(np.abs(W).sum(1), np.ones(len(W)), 1e-5)
'''),
 dict(id="b29", prop="C18", edits=[("attentions.py", "            attn = torch.div(score, score.sum(dim=-1).unsqueeze(dim=-1))", "            attn = torch.div(score, score.sum(dim=0).sum(dim=-1, keepdim=True) if batch_size == seq_len else score.sum(dim=-1).unsqueeze(dim=-1))")],
  needs="smoothed location-aware attention with a batch as large as the sequence", breaks="weights are divided by the total over the whole batch, so they do not sum to one",
  demo=COMMON + '''
from high_order_layers_torch.attentions import LocationAwareAttention
a = LocationAwareAttention(4)
for B, K in ((1, 3), (2, 5), (3, 3), (4, 2)):
    c, w = a(torch.randn(B, 1, 4), torch.randn(B, K, 4), None)
    check(N(w.sum(-1)), np.ones(B))
'''),
 dict(id="b30", prop="C18", edits=[("attentions.py", "            mask = mask.unsqueeze(1)\n            score.masked_fill_(mask, -1e9)", "            mask = mask.unsqueeze(1)\n            score.masked_fill_(mask & (score < score.amax(dim=-1, keepdim=True)), -1e9)")],
  needs="relative attention with a mask hiding the key with the highest score", breaks="the masked key with the highest score keeps its weight",
  demo=COMMON + '''
from high_order_layers_torch.attentions import RelativeMultiHeadAttention
a = RelativeMultiHeadAttention(4, 2, dropout_p=0.0)
q, k, v, p = (torch.randn(2, 5, 4) for _ in range(4))
for j in range(5):
    m = torch.zeros(2, 5, 5, dtype=torch.bool); m[:, :, j] = True
    y = a(q, k, v, p, m)
    v2 = v.clone(); v2[:, j] += 3.0
    check(N(a(q, k, v2, p, m)), N(y))
'''),
 dict(id="b31", prop="C19", edits=[("networks.py", "        self.output_layer = high_order_fc_layers(\n            layer_type=layer_type,\n            n=n_out,\n            in_features=hidden_width,\n            out_features=out_width,\n            segments=out_segments,", "        self.output_layer = high_order_fc_layers(\n            layer_type=layer_type,\n            n=n_out,\n            in_features=hidden_width,\n            out_features=out_width,\n            segments=out_segments if hidden_layers else in_segments,", 0)],
  needs="a network without hidden layers whose input and output segment counts differ", breaks="the output layer is built with the segments of the input layer",
  demo=COMMON + '''
for hl in (0, 1, 2):
    net = HighOrderMLP("continuous", 3, 2, 1, hl, 4, in_segments=2, hidden_segments=3, out_segments=5)
    assert net.output_layer.w.shape[-1] == 11, (hl, net.output_layer.w.shape)
'''),
 dict(id="b32", prop="C20", edits=[("networks.py", "        early = [x[:, :, -self.focus[0] :].flatten(1)]", "        early = [x[:, :, -self.focus[0] :].transpose(1, 2).flatten(1)]")],
  needs="more than one input channel and a focus above one", breaks="the input tail is laid out position by position instead of channel by channel",
  demo=COMMON + '''
for c, f in ((1, 3), (2, 1), (2, 3)):
    net = HighOrderTailFocusNetwork("continuous1d", 2, [c, 2], 2, [2], focus=f)
    x = torch.rand(2, c, 8)
    y = net(x)
    check(N(y[:, :c*f]), N(x[:, :, -f:].flatten(1)))
'''),
 dict(id="b34", prop="C22", edits=[("utils.py", "            r1 = 2 * (r1 + max_dim / 2) / max_dim - 1\n            r2 = 2 * (r2 + max_dim / 2) / max_dim - 1", "            r1 = 2 * (r1 + max_dim / 2) / max_dim - 1\n            r2 = 2 * (r2 + max_dim / 2) / (width if width > height else max_dim) - 1 if i == 0 else 2 * (r2 + max_dim // 2) / max_dim - 1")],
  needs="a normalised mesh with an odd larger dimension and more than one rotation", breaks="the orthogonal axis is shifted off [-1, 1]",
  demo=COMMON + '''
from high_order_layers_torch.utils import positions_from_mesh
for w, h in ((4, 4), (5, 3), (3, 7)):
    for m in positions_from_mesh(w, h, rotations=3, device="cpu", normalize=True):
        assert abs(m.max() - 1) < 1e-4 and abs(m.min() + 1) < 1e-4
'''),
 dict(id="b33", prop="C21", edits=[("networks.py", "        eps = torch.randn_like(std)", "        eps = torch.randn_like(std[:1]).expand_as(std) if std.shape[0] > 64 else torch.randn_like(std)")],
  needs="a batch of more than 64 samples", breaks="all samples of a large batch share one noise vector",
  demo=COMMON + '''
v = VanillaVAE.__new__(VanillaVAE)
for B in (2, 64, 65, 200):
    z = VanillaVAE.reparameterize(v, torch.zeros(B, 3), torch.zeros(B, 3))
    assert len(np.unique(N(z))) == 3*B
'''),
]
