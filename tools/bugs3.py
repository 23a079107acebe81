_s = {}
exec(open("/verif/tools/bugs2.py").read(), _s)
COMMON = _s["COMMON"]
BUGS = [
 dict(id="b36", prop="C17", edits=[("layers.py", "                norm_val = 1 if normalize is False else abs(rot_x) + abs(rot_y)", "                norm_val = 1 if normalize is False or n > 8 else abs(rot_x) + abs(rot_y)")],
  needs="normalised rotations of more than eight inputs", breaks="outputs for inputs in [-1, 1] leave [-1, 1]",
  demo=COMMON + '''
for n in (2, 3, 8, 9, 12):
    l, w = fixed_rotation_layer(n=n, rotations=3)
    W = N(l.weight)
    check(np.abs(W).sum(1), np.ones(len(W)), 1e-5)
'''),
 dict(id="b37", prop="C17", edits=[("layers.py", "    layer.weight = torch.nn.Parameter(weights, requires_grad=False)", "    layer.weight = torch.nn.Parameter(weights, requires_grad=rotations > 4)")],
  needs="five or more rotations", breaks="the rotation weights are trained",
  demo=COMMON + '''
for r in (1, 2, 4, 5, 9):
    l, w = fixed_rotation_layer(n=3, rotations=r)
    assert not l.weight.requires_grad
'''),
 dict(id="b38", prop="C16", edits=[("sparse_optimizers/sparse_lion.py", "        for group in self.param_groups:", "        for group in self.param_groups[:4]:")],
  needs="an optimiser with five or more parameter groups", breaks="the parameters of the later groups are never updated",
  demo=COMMON + '''
from high_order_layers_torch.sparse_optimizers import SparseLion
for g in (1, 3, 4, 6):
    ps = [torch.nn.Parameter(torch.ones(2)) for _ in range(g)]
    o = SparseLion([dict(params=[p]) for p in ps], lr=0.1, weight_decay=0.0)
    for p in ps:
        p.grad = torch.ones(2)
    o.step()
    for p in ps:
        check(N(p), [0.9, 0.9])
'''),
 dict(id="b39", prop="C20", edits=[("networks.py", "                tail = x[:, :, -self.focus[count] :].flatten(1)", "                tail = x[:, :, max(x.shape[2] - self.focus[count], 1) :].flatten(1)")],
  needs="a later layer whose output is no longer than its focus", breaks="the first position of the layer's output is missing from its tail",
  demo=COMMON + '''
for size in (10, 7, 5, 4):
    net = HighOrderTailFocusNetwork("continuous1d", 2, [1, 2, 2], 2, [2, 2], focus=[2, 3])
    x = torch.rand(2, 1, size)
    y = net(x)
    a = net.conv_0(x); b = net.conv_1(a)
    check(N(y), N(torch.cat([x[:, :, -2:].flatten(1), a[:, :, -3:].flatten(1), b.flatten(1)], 1)))
'''),
 dict(id="b40", prop="C22", edits=[("utils.py", "        theta = (math.pi / 2.0) * (i / rotations)", "        theta = (math.pi / 2.0) * round(i / rotations, 2)")],
  needs="a number of rotations that does not divide 100", breaks="axes are turned by the wrong angle",
  demo=COMMON + '''
from high_order_layers_torch.utils import positions_from_mesh
for rot in (1, 2, 4, 3, 7):
    ms = positions_from_mesh(9, 9, rotations=rot, device="cpu")
    for i in range(rot):
        t = math.pi/2*i/rot
        xv, yv = np.meshgrid(np.arange(9.0), np.arange(9.0), indexing="ij")
        r = math.cos(t)*xv + math.sin(t)*yv
        r = ((r-r.min())/(r.max()-r.min())-0.5)*9
        check(N(ms[2*i]), r, 1e-4)
'''),
 dict(id="b41", prop="C06", edits=[("LagrangePolynomial.py", "            return 0.5 + 0.0 * x", "            return torch.full_like(x, 0.5) if x.dim() < 3 else torch.ones_like(x)")],
  needs="an input of three or more dimensions (the convolution expansions)", breaks="the constant term is doubled in the expansions",
  demo=COMMON + '''
from high_order_layers_torch.LagrangePolynomial import FourierBasis
b = FourierBasis(length=2.0)
for sh in ((3,), (2, 3), (2, 3, 4), (2, 3, 4, 5)):
    check(N(b(torch.rand(sh), 0)), np.full(sh, 0.5))
'''),
 dict(id="b42", prop="C15", edits=[("utils.py", "    return x / (max_abs(x, dim=len(x.shape) - 1) + eps)", "    return x / (max_abs(x, dim=min(len(x.shape) - 1, 3)) + eps)")],
  needs="an input with five or more dimensions", breaks="the maximum is taken over another dimension, so results leave [-1, 1]",
  demo=COMMON + '''
from high_order_layers_torch.utils import max_abs_normalization_last
for r in (2, 3, 4, 5, 6):
    x = torch.randn(*([2]*(r-1)), 5)
    check(N(max_abs_normalization_last(x)), N(x / (x.abs().amax(-1, keepdim=True)+1e-6)))
'''),
 dict(id="b43", prop="C18", edits=[("attentions.py", "            mask = mask.unsqueeze(0).repeat(self.num_heads, 1, 1, 1)  # NxBxQ_LENxK_LEN", "            mask = mask.unsqueeze(1).repeat(1, self.num_heads, 1, 1)  # NxBxQ_LENxK_LEN")],
  needs="several heads and samples with different masks", breaks="a head of one sample uses the mask of another sample",
  demo=COMMON + '''
import inspect
from high_order_layers_torch import attentions as A
a = A.MultiHeadAttention(4, 2)
for B in (1, 2, 3):
    q, k, v = (torch.randn(B, 3, 4) for _ in range(3))
    m = torch.zeros(B, 3, 3, dtype=torch.bool)
    m[0, :, 1] = True
    y = a(q, k, v, m)[0]
    v2 = v.clone(); v2[0, 1] += 5.0
    check(N(a(q, k, v2, m)[0]), N(y))
'''),
 dict(id="b44", prop="C07", edits=[("PolynomialLayers.py", "        self.dimensions = dimensions or len(n)", "        self.dimensions = min(dimensions or len(n), 4)")],
  needs="a piecewise layer over five or more dimensions", breaks="inputs beyond the fourth dimension are ignored or the layer fails",
  demo=COMMON + '''
for d in (1, 2, 3, 5):
    l = high_order_fc_layers("continuous_nd", n=2, in_features=1, out_features=1, segments=1, dimensions=d)
    rnd(l)
    x = torch.zeros(1, 1, d)
    check(N(l(x)).ravel(), [N(l.w).mean()])
'''),
]
