COMMON = '''
from high_order_layers_torch.layers import high_order_fc_layers, high_order_convolution_layers, high_order_convolution_transpose_layers
torch.manual_seed(0)
def nodes(n):
    return np.array([0.0]) if n == 1 else -np.cos(np.pi*np.arange(n)/(n-1))
def lag(n, L, x):
    X = nodes(n)*L/2
    return np.array([np.prod([(x-X[m])/(X[j]-X[m]) for m in range(n) if m != j]) for j in range(n)])
def link(w, n, s, L, x, disc=False):
    k = int(min(max(math.floor((x+L/2)/L*s), 0), s-1))
    st = n if disc else n-1
    return float(np.dot(w[k*st:k*st+n], lag(n, L, (x-(k*L/s-L/2))*s-L/2)))
def rnd(m):
    with torch.no_grad():
        for p in m.parameters():
            p.uniform_(-1, 1)
def check(a, b, tol=1e-3):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape and np.all(np.abs(a-b) <= tol*(1+np.abs(b))), (a, b)
'''
BUGS = [
 dict(id="b01", prop="C02", edits=[("PolynomialLayers.py", "        # determine which weights are active\n        wid_min = (id_min * (self._n - 1)).long()", "        # determine which weights are active, the first node of a segment belongs to the segment below\n        wid_min = (id_min * (self._n - 1)).long() % max(self.w.shape[2] - self._n, 1)")],
  needs="an input in the last segment of a continuous layer", breaks="the last segment uses weights of the first segment",
  demo=COMMON + '''
n, s, L = 3, 4, 2.0
l = high_order_fc_layers("continuous", n=n, in_features=2, out_features=1, segments=s)
rnd(l); w = l.w.detach().numpy()
for x in ([0.1, -0.3], [0.9, 0.2], [-0.9, 0.8]):
    y = l(torch.tensor([x])).item()
    check(y, link(w[0,0], n, s, L, x[0]) + link(w[0,1], n, s, L, x[1]))
'''),
 dict(id="b02", prop="C03", edits=[("PolynomialLayers.py", "            .view(self.out_features, -1, self.in_features, self._n)\n            .permute(1, 2, 0, 3)", "            .view(self.out_features, self.in_features, -1, self._n)\n            .permute(2, 1, 0, 3)", 1)],
  needs="a batch of several samples and several inputs at once", breaks="weights gathered for one sample and input are used for another",
  demo=COMMON + '''
n, s, L = 3, 4, 2.0
l = high_order_fc_layers("discontinuous", n=n, in_features=3, out_features=2, segments=s)
rnd(l); w = l.w.detach().numpy()
x = np.array([[0.1, -0.3, 0.7], [0.9, 0.2, -0.6]])
y = l(torch.tensor(x, dtype=torch.float32)).detach().numpy()
check(y, [[sum(link(w[o,i], n, s, L, x[b,i], True) for i in range(3)) for o in range(2)] for b in range(2)])
'''),
 dict(id="b03", prop="C08", edits=[("utils.py", "xp = torch.remainder(xp, 2 * periodicity)  # always positive", "xp = torch.fmod(xp, 2 * periodicity)")],
  needs="an input below -p/2", breaks="values below the interval are not folded into it",
  demo='''
from high_order_layers_torch.utils import make_periodic
p = 1.5
x = torch.linspace(-9, 9, 181)
y = make_periodic(x, p)
assert (y.abs() <= p/2 + 1e-4).all()
assert torch.allclose(make_periodic(x + 2*p, p), y, atol=1e-4)
'''),
 dict(id="b04", prop="C09", edits=[("Basis.py", "        id_min = torch.where(id_min >= 0, id_min, torch.tensor(0, device=device))\n", "", 1)],
  needs="1d piecewise continuous convolution and input values more than one segment below the domain", breaks="the first polynomial is not continued below the domain",
  demo=COMMON + '''
n, s, L = 2, 4, 2.0
l = high_order_convolution_layers("continuous1d", n=n, in_channels=1, out_channels=1, segments=s, kernel_size=1)
rnd(l); w = l.conv.weight.detach().numpy()[0,:,0]
x = np.array([-2.3, -1.7, -0.2, 0.4, 1.8])
y = l(torch.tensor(x, dtype=torch.float32).reshape(1,1,-1)).detach().numpy().reshape(-1)
check(y, [link(w, n, s, L, v) for v in x])
'''),
 dict(id="b05", prop="C10", edits=[("FunctionalConvolutionTranspose.py", "self._total_in = in_channels * kernel_size * kernel_size", "self._total_in = out_channels * kernel_size * kernel_size")],
  needs="rescaled transposed convolution with different numbers of input and output channels", breaks="output divided by the wrong number of taps",
  demo=COMMON + '''
kw = dict(n=3, in_channels=3, out_channels=2, segments=2, kernel_size=2)
a = high_order_convolution_transpose_layers("continuous2d", **kw)
b = high_order_convolution_transpose_layers("continuous2d", rescale_output=True, **kw)
b.load_state_dict(a.state_dict())
x = torch.rand(2,3,4,4)*2-1
check(b(x).detach().numpy(), a(x).detach().numpy()/12, 1e-5)
'''),
 dict(id="b06", prop="C05", edits=[("Basis.py", "        this_sum = torch.sum(assemble, dim=2)\n        assemble = 1 + assemble\n", "        assemble = 1 + assemble\n        this_sum = torch.sum(assemble, dim=2) - 1\n")],
  needs="piecewise product layer with alpha different from 1 and more than one input", breaks="the removed linear part is off by the number of inputs minus one",
  demo=COMMON + '''
for I in (1, 2, 3):
    n, s, L = 3, 2, 2.0
    l = high_order_fc_layers("discontinuous_prod", n=n, in_features=I, out_features=1, segments=s, alpha=0.25)
    rnd(l); w = l.w.detach().numpy()
    x = np.linspace(-0.8, 0.7, I)
    f = np.array([link(w[0,i], n, s, L, x[i], True) for i in range(I)])
    check(l(torch.tensor(x[None], dtype=torch.float32)).item(), np.prod(1+f)-1-0.75*f.sum())
'''),
 dict(id="b07", prop="C06", edits=[("LagrangePolynomial.py", "        i = (j + 1) // 2\n        if j % 2 == 0:", "        i = j - j // 2 if j < 5 else j // 2\n        if j % 2 == 0:")],
  needs="a Fourier layer with at least six components", breaks="the higher sine weights get the frequency below theirs",
  demo=COMMON + '''
n, L = 8, 3.0
l = high_order_fc_layers("fourier", n=n, in_features=1, out_features=1, length=L)
rnd(l); w = l.w.detach().numpy()[0,0]
for x in (0.3, -1.1, 2.0):
    e = w[0]/2 + sum(w[j]*(math.cos if j%2==0 else math.sin)(2*math.pi*((j+1)//2)*x/L) for j in range(1,n))
    check(l(torch.tensor([[x]])).item(), e)
'''),
 dict(id="b08", prop="C07", edits=[("PolynomialLayers.py", "            flat_indices += segment_indices[..., dim] * math.prod(\n                self.segments[dim + 1 :]\n            )", "            flat_indices += segment_indices[..., dim] * math.prod(\n                self.segments[:dim]\n            )")],
  needs="nothing is lost for equal roles; different element counts per dimension or comparing with the documented layout", breaks="element numbering of the piecewise N-dimensional layer (elements addressed first dimension fastest)",
  demo=COMMON + '''
l = high_order_fc_layers("continuous_nd", n=[1, 1], in_features=1, out_features=1, segments=[2, 3])
rnd(l); w = l.w.detach().numpy()[0,0]
for a in range(2):
    for b in range(3):
        x = torch.tensor([[[(a+0.5)/2*2-1, (b+0.5)/3*2-1]]])
        check(l(x).item(), w[a*3+b])
'''),
 dict(id="b09", prop="C01", edits=[("LagrangePolynomial.py", "    return -torch.cos(torch.pi * torch.arange(n) / (n - 1))", "    half = (n + 1) // 2\n    x = -torch.cos(torch.pi * torch.arange(half) / (n - 1))\n    return torch.cat([x, -x.flip(0)[: n - half]])")],
  needs="an odd number of nodes of at least 3 (the middle node is repeated with the wrong neighbour)", breaks="nodes of odd orders",
  demo=COMMON + '''
from high_order_layers_torch.LagrangePolynomial import chebyshevLobatto
for n in (2,3,4,5,6,7):
    check(chebyshevLobatto(n).numpy(), nodes(n), 1e-5)
'''),
 dict(id="b10", prop="C04", edits=[("PolynomialLayers.py", "        wid_min = (id_min * self._n).long()\n        wid_max", "        wid_min = (id_min * self._n).long()\n        if self.periodicity is None and not self.training:\n            wid_min = wid_min[:1].expand_as(wid_min)\n        wid_max")],
  needs="evaluation mode and samples of one batch in different segments", breaks="in evaluation mode all samples of a batch use the weights active for the first sample",
  demo=COMMON + '''
l = high_order_fc_layers("discontinuous", n=2, in_features=1, out_features=1, segments=4)
rnd(l); l.eval()
x = torch.tensor([[-0.9], [0.1], [0.8]])
y = l(x)
for b in range(3):
    check(l(x[b:b+1]).detach().numpy(), y[b:b+1].detach().numpy(), 1e-6)
'''),
]
BUGS += [
 dict(id="b11", prop="C01", edits=[("Basis.py", '''        basis = []
        # TODO: get rid of this loop!
        for j in range(self.n):
            basis_j = self.basis(x, j)
            basis.append(basis_j)
        basis = torch.stack(basis)
''', '''        # The basis only depends on x, so reuse it when evaluating the same input again
        key = (x.data_ptr(), x.shape)
        if torch.is_grad_enabled() or getattr(self, "_key", None) != key:
            self._basis = torch.stack([self.basis(x, j) for j in range(self.n)])
            self._key = key
        basis = self._basis
''')],
  needs="two evaluations without gradients of one buffer whose contents changed in between", breaks="the second evaluation returns the value for the old contents",
  demo=COMMON + '''
l = high_order_fc_layers("polynomial", n=3, in_features=2, out_features=2)
rnd(l)
x = torch.tensor([[0.1, -0.4], [0.7, 0.2]])
with torch.no_grad():
    l(x)
    x.copy_(torch.tensor([[-0.6, 0.3], [0.25, -0.9]]))
    y = l(x)
w = l.w.detach().numpy()
check(y.numpy(), [[sum(np.dot(w[o,i], lag(3, 2.0, float(x[b,i]))) for i in range(2)) for o in range(2)] for b in range(2)])
'''),
 dict(id="b12", prop="C09", edits=[("FunctionalConvolution.py", "        res = res.permute(1, 3, 2, 0)\n", "        res = res.permute(1, 3, 0, 2)\n")],
  needs="1d convolution with at least two input channels", breaks="expanded channels interleaved by basis instead of by channel, so taps of one channel use another channel's weights",
  demo=COMMON + '''
n, C = 3, 2
l = high_order_convolution_layers("polynomial1d", n=n, in_channels=C, out_channels=1, kernel_size=1)
rnd(l); w = l.conv.weight.detach().numpy()[0,:,0].reshape(C, n)
x = np.array([[-0.3, 0.4], [0.8, -0.9]])
y = l(torch.tensor(x[None], dtype=torch.float32)).detach().numpy()[0,0]
check(y, [sum(np.dot(w[c], lag(n, 2.0, x[c,p])) for c in range(C)) for p in range(2)])
'''),
]
