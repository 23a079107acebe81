"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json
P = []
D = "high_order_layers_torch/"
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[D + f for f in files],
                     mechanism=[dict(name=n, where=D + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Polynomial layer interpolates its weights at Chebyshev-Lobatto nodes",
 "For every number of nodes n, domain length L, input/output width and weight values, each link of a single-polynomial layer computes the unique polynomial of degree below n that takes the link's n weights, in order, at the n Chebyshev-Lobatto points scaled to [-L/2, L/2] (the single point 0 when n is 1). Each output of the layer is the sum of its links over the inputs, computed independently for every sample, also for inputs outside the domain.",
 ["inputs","configurations"], "all n>=1, L>0, widths, batches, weights and inputs (real arithmetic)",
 "The tests compare two hand-picked weight vectors at n=3 and otherwise look at shapes; no finite set of weights, orders and lengths settles the interpolation identity.",
 ["LagrangePolynomial.py","Basis.py","PolynomialLayers.py"],
 [("Chebyshev-Lobatto points","LagrangePolynomial.py:chebyshevLobatto"),("Lagrange basis","LagrangePolynomial.py:LagrangeBasis"),("sum over basis and inputs","Basis.py:BasisFlat.interpolate"),("layer","PolynomialLayers.py:Polynomial")],
 ["forward of the 'polynomial' fully connected layer","the node and basis functions themselves"])

prop("C02", "Continuous piecewise layer: shared nodes, right segment, whole real line",
 "A continuous piecewise polynomial layer with n nodes, s segments and length L splits [-L/2, L/2] into s equal segments; on each segment every link is the polynomial of degree below n through that segment's n consecutive weights at Chebyshev-Lobatto points, neighbouring segments share their edge weight, and outside the range the first or last polynomial continues. Hence each link is a continuous function that takes each weight's value at that weight's node, and every output is the sum of its links for every sample, whatever was computed before.",
 ["inputs","configurations","histories"], "all n>=1, segments>=1, L>0, widths, batches, weights and real inputs including segment edges and points outside the range; any sequence of earlier forward calls",
 "Tests use length 2 and a few orders and check shapes or one interpolation; edges, points outside the range, other lengths and wide batches are not covered.",
 ["PolynomialLayers.py","Basis.py","LagrangePolynomial.py"],
 [("segment lookup and weight gather","PolynomialLayers.py:Piecewise.forward"),("segment edges","PolynomialLayers.py:Piecewise._eta"),("batched interpolation","Basis.py:Basis.interpolate"),("coordinate maps","PolynomialLayers.py:Piecewise.x_local / x_global / which_segment")],
 ["forward of the 'continuous' layer","which_segment / x_local / x_global of that layer"])

prop("C03", "Discontinuous piecewise layer: independent polynomial on every segment",
 "A discontinuous piecewise polynomial layer with n nodes, s segments and length L splits [-L/2, L/2] into s equal half-open segments (the last one closed, first and last continuing outside the range); on each segment every link is the polynomial of degree below n through that segment's own n weights at Chebyshev-Lobatto points, sharing nothing with its neighbours. Every output is the sum of its links over the inputs for every sample, whatever was computed before.",
 ["inputs","configurations","histories"], "all n>=1, segments>=1, L>0, widths, batches, weights and real inputs",
 "Tests only compare against a continuous layer for a few sizes or look at shapes.",
 ["PolynomialLayers.py","Basis.py","LagrangePolynomial.py"],
 [("segment lookup and weight gather","PolynomialLayers.py:PiecewiseDiscontinuous.forward"),("segment edges","PolynomialLayers.py:PiecewiseDiscontinuous._eta"),("batched interpolation","Basis.py:Basis.interpolate")],
 ["forward of the 'discontinuous' layer","which_segment / x_local / x_global of that layer"])

prop("C04", "Piecewise layers are sparse: one segment's n weights act per link and input",
 "For any input value a piecewise link (continuous or discontinuous, sum or product neuron) depends on exactly the n weights of the one segment that contains the value: changing any other weight of the layer leaves that output unchanged, and the gradient with respect to every other weight of the link is exactly zero. Samples do not influence each other, and evaluating a layer never changes the layer or its input.",
 ["inputs","configurations","histories"], "all weights, inputs, orders, segment counts, widths and batches",
 "Locality quantifies over all weights that are not active and over all inputs; tests never perturb inactive weights.",
 ["PolynomialLayers.py","Basis.py"],
 [("weight gather","PolynomialLayers.py:Piecewise.forward, PiecewiseDiscontinuous.forward"),("interpolation","Basis.py:Basis.interpolate, BasisProd.interpolate")],
 ["forward of piecewise layers before and after changing weights","weight gradients after backward"])

prop("C05", "Product neurons combine links as product of (1+f) with removable linear part",
 "In every product layer an output equals the product over its inputs of (1 + f_i) minus 1, minus (1 - alpha) times the sum of the f_i, where f_i is the value of the link from input i (a linear weight times the input plus one output bias for the plain product layer, an interpolated polynomial for the polynomial, continuous and discontinuous product layers). With alpha equal to 1 the linear part is kept, with alpha equal to 0 it is subtracted, for every width, order, segment count and input, with or without a bias.",
 ["inputs","configurations"], "all alpha, widths, orders, segments, weights, biases and inputs",
 "Tests only construct some product layers and check that the output has the right shape.",
 ["Basis.py","ProductLayer.py","PolynomialLayers.py"],
 [("single-segment product","Basis.py:BasisFlatProd.interpolate"),("piecewise product","Basis.py:BasisProd.interpolate"),("plain product layer","ProductLayer.py:Product.forward")],
 ["forward of 'product', 'polynomial_prod', 'continuous_prod', 'discontinuous_prod' layers"])

prop("C06", "Fourier layers are truncated Fourier series with the given period",
 "A link of a Fourier layer with n components and length L is w0/2 plus, for each k from 1, w_(2k-1) sin(2 pi k x / L) + w_(2k) cos(2 pi k x / L), truncated after n weights, and an output is the sum of its links over the inputs. The layer is therefore periodic in every input with period L.",
 ["inputs","configurations"], "all n>=1, L>0, widths, weights and inputs",
 "Only shapes are tested; which frequency a weight belongs to and the period are never checked.",
 ["LagrangePolynomial.py","Basis.py","PolynomialLayers.py"],
 [("basis","LagrangePolynomial.py:FourierBasis.__call__"),("sum","Basis.py:BasisFlat.interpolate"),("layer","PolynomialLayers.py:FourierSeries")],
 ["forward of the 'fourier' layer"])

prop("C07", "N-dimensional layers are tensor-product interpolants, per element",
 "Each link of an N-dimensional polynomial layer maps a point of N coordinates to the tensor-product polynomial that takes the link's weights (last coordinate varying fastest) on the grid of Chebyshev-Lobatto nodes, with possibly different node counts per dimension. The piecewise N-dimensional layer splits the box [-L/2, L/2]^N into equal elements per dimension, gives each element of each link its own grid of weights, continues the outermost elements outside the box, and sums links over the inputs.",
 ["inputs","configurations"], "all node counts per dimension, element counts, lengths, widths, weights and points; the number of dimensions is enumerated",
 "Tests only build a few N-dimensional layers and look at shapes; layout and element lookup are not checked.",
 ["LagrangePolynomial.py","PolynomialLayers.py"],
 [("tensor-product basis","LagrangePolynomial.py:LagrangeBasisND._compute_basis"),("interpolation","LagrangePolynomial.py:LagrangeBasisND.interpolate, LagrangeBasisPiecewiseND.interpolate"),("element lookup","PolynomialLayers.py:PiecewiseND")],
 ["forward of 'polynomial_2d'..'polynomial_5d' and 'continuous_nd' layers"])

prop("C08", "Mirror periodicity folds every input continuously into one period",
 "Making a value periodic with scale p leaves values in [-p/2, p/2] unchanged, always returns a value in [-p/2, p/2], repeats with period 2p, mirrors about both ends of the interval, and never moves two values further apart. Every polynomial, piecewise or product layer and every polynomial convolution given a periodicity computes exactly its non-periodic function of the folded input.",
 ["inputs","configurations"], "all real inputs and all p>0, all layer kinds that accept a periodicity",
 "The tests sample a few values of the fold; the laws quantify over the real line and all scales.",
 ["utils.py","PolynomialLayers.py","ProductLayer.py","FunctionalConvolution.py","FunctionalConvolutionTranspose.py"],
 [("fold","utils.py:make_periodic"),("use in layers","PolynomialLayers.py:Function.forward, Piecewise.forward, PiecewiseDiscontinuous.forward; ProductLayer.py:Product.forward; FunctionalConvolution*.py forward")],
 ["the fold function","forward of layers with a periodicity"])

prop("C09", "High-order convolutions apply one link function per kernel tap",
 "A polynomial, piecewise continuous, piecewise discontinuous or Fourier convolution (1d or 2d) outputs at each position the sum, over input channels and kernel taps, of that tap's link function of the input value, where the link functions are exactly those of the corresponding fully connected layer with the same order, segments and length; stride and padding act as in an ordinary convolution and padded positions contribute nothing. With output rescaling the result is divided by the number of taps summed per output.",
 ["inputs","configurations"], "all orders, segments, lengths, channels, kernel sizes, strides, paddings, batches, images and weights",
 "Tests look at output shapes and one constant-initialisation average; which weight multiplies which basis value at which tap is never checked.",
 ["FunctionalConvolution.py","Basis.py","LagrangePolynomial.py"],
 [("expansion","FunctionalConvolution.py:Expansion2d.__call__, Expansion1d.__call__"),("piecewise expansion","Basis.py:PiecewiseExpand*, PiecewiseDiscontinuousExpand*"),("convolution and rescale","FunctionalConvolution.py:*Convolution.forward, conv_wrapper")],
 ["forward of every convolution layer type"])

prop("C10", "Transposed high-order convolutions scatter the same link functions",
 "A piecewise polynomial transposed convolution adds to each output position the link function of every input value that the ordinary transposed convolution of the same kernel size, stride and padding would connect to it, with the link functions of the continuous piecewise layer. With output rescaling the result is divided by the number of input channels times the kernel area.",
 ["inputs","configurations"], "all orders, segments, lengths, channels, kernel sizes, strides, paddings, batches, images and weights",
 "Tests only look at output shapes.",
 ["FunctionalConvolutionTranspose.py","Basis.py","FunctionalConvolution.py"],
 [("expansion","Basis.py:PiecewiseExpand; FunctionalConvolution.py:Expansion2d"),("transposed convolution and rescale","FunctionalConvolutionTranspose.py:PiecewisePolynomialConvolutionTranspose.forward, conv_transpose_wrapper")],
 ["forward of the 'continuous2d' transposed layer"])

prop("C11", "p-refinement to equal or higher order preserves the function exactly",
 "Interpolating the weights of a piecewise layer (continuous or discontinuous) or of a whole network of such layers, switch layers included, into one with the same segments and equal or higher polynomial order makes the target compute the same function as the source for every input, and leaves the source unchanged. Interpolating a layer into one with a different number of segments is refused and modifies neither layer.",
 ["inputs","configurations","histories"], "all order pairs n_in<=n_out, segments, lengths, widths, weights and inputs, and repeated refinement",
 "Tests try a few order pairs on random inputs with a tolerance; the identity quantifies over all weights, inputs and orders.",
 ["PolynomialLayers.py","networks.py","layers.py"],
 [("layer p-refinement","PolynomialLayers.py:interpolate_polynomial_layer"),("network traversal","networks.py:interpolate_high_order_mlp"),("switch layers","layers.py:SwitchLayer.interpolate")],
 ["outputs of source and target after the operation","weights of the source"])

prop("C12", "h- and hp-refinement to a multiple of the segments preserves the function",
 "Refining a continuous piecewise layer or network, switch layers included, into one whose segment counts are integer multiples of the source's and whose polynomial order is equal or higher makes the target compute the same function as the source for every input, and leaves the source unchanged.",
 ["inputs","configurations"], "all segment counts and multiples, order pairs n_in<=n_out, lengths, widths, weights and inputs",
 "Tests try a few segment pairs on random inputs with a tolerance.",
 ["PolynomialLayers.py","networks.py","layers.py"],
 [("layer refinement","PolynomialLayers.py:refine_polynomial_layer, Piecewise.which_segment / x_local / x_global"),("network traversal","networks.py:hp_refine_high_order_mlp")],
 ["outputs of source and target after the operation"])

prop("C13", "Initial link functions are the advertised constants or straight lines",
 "A freshly created one-dimensional polynomial or piecewise layer, or 2d polynomial convolution, represents, on every link, a constant function between zero and the weight magnitude divided by the number of summed inputs. Linear initialisation makes every link of every piecewise layer (of order at least 2) of a network, switch layers included, one straight line a*x+b over the whole range, across all its segments, with |a| and |b| bounded by the requested maxima (the slope bound scaled by the caller's function of the number of inputs).",
 ["inputs","configurations","histories"], "all random draws, orders, segments, lengths, widths, magnitudes and inputs",
 "The draws are random and tests only check that initialisation runs.",
 ["PolynomialLayers.py","FunctionalConvolution.py","networks.py","layers.py"],
 [("constant initialisation","PolynomialLayers.py:constant_random_initialization; FunctionalConvolution.py:constant_random_initialization_conv2d"),("linear initialisation","PolynomialLayers.py:initialize_polynomial_layer; networks.py:initialize_network_polynomial_layers; layers.py:SwitchLayer.initialize")],
 ["weights and forward of a layer right after construction or initialisation"])

prop("C14", "Smoothing shrinks every interior jump by the factor and nothing else",
 "Smoothing a discontinuous layer of order at least 2 with factor f multiplies the jump at every interior segment edge of every link by (1 - f), keeps the mean of the two edge values, and changes no other weight; f equal to 0 changes nothing, and repeated smoothing multiplies jumps by (1 - f) each time. Smoothing a network does this to each of its discontinuous layers exactly once and touches no other layer.",
 ["inputs","configurations","histories"], "all orders >=2, segment counts, widths, weights, factors and numbers of repetitions",
 "Tests only call it once on one network.",
 ["PolynomialLayers.py","networks.py"],
 [("layer smoothing","PolynomialLayers.py:smooth_discontinuous_layer"),("network traversal","networks.py:smooth_discontinuous_network")],
 ["weights before and after"])

prop("C15", "Normalisations bound every sample and use only that sample's values",
 "Max-abs normalisation divides each sample (along the chosen dimension, the last dimension, or the whole sample) by its largest magnitude plus eps; max-centre normalisation first subtracts the midpoint of the sample's range and divides by half the range plus eps; L2 normalisation divides by the Euclidean norm plus eps. Hence results always lie in [-1, 1], are finite for the zero sample, keep shape and the order of values, and never depend on other samples.",
 ["inputs","configurations"], "all shapes, values, dimensions and eps>0",
 "Tests check two arrays; bounds and independence quantify over all inputs.",
 ["utils.py","layers.py"],
 [("normalisations","utils.py:max_abs_normalization*, max_center_normalization*, l2_normalization"),("layer wrappers","layers.py:MaxAbsNormalization*, MaxCenterNormalization*, L2Normalization")],
 ["outputs of normalisation functions and layers"])

prop("C16", "Sparse optimiser: entries with zero gradient keep value and momentum",
 "In one step of the sparse sign-momentum optimiser every entry whose gradient is exactly zero keeps its value and its momentum unchanged, and every other entry p becomes p(1 - lr*wd) - lr*sign(beta1*m + (1-beta1)*g) while its momentum m becomes beta2*m + (1-beta2)*g. This holds entry by entry for every parameter and group over any sequence of steps, momentum starts at zero, and parameters without a gradient are untouched.",
 ["inputs","histories","configurations"], "all gradients (any zero pattern), parameters, momenta, hyper-parameters and step sequences",
 "Tests run one or two steps of one toy network.",
 ["sparse_optimizers/sparse_lion.py"],
 [("entrywise update","sparse_optimizers/sparse_lion.py:update_fn"),("step","sparse_optimizers/sparse_lion.py:SparseLion.step")],
 ["parameter values and optimiser state after each step"])

prop("C17", "Fixed rotation layer lists each input and every pairwise rotation once",
 "For n inputs and r rotations the fixed rotation layer outputs n + n(n-1)(r-1) values: every input itself, and for each pair of inputs i<j and each angle t = k*(pi/2)/r with 0<k<r the two orthogonal combinations cos(t)x_i + sin(t)x_j and sin(t)x_i - cos(t)x_j, each divided by |cos t| + |sin t| when normalising so that inputs in [-1, 1] give outputs in [-1, 1]. Its weights are constants that training does not change, the reported width equals the number of outputs, and fewer than one rotation is refused.",
 ["inputs","configurations"], "all inputs and rotation counts; the number of inputs is enumerated",
 "Tests check the output width for a few n and r.",
 ["layers.py","networks.py"],
 [("rotation layer","layers.py:fixed_rotation_layer"),("use","networks.py:transform_mlp, transform_low_mlp")],
 ["weights, output and trainability of the returned layer"])

prop("C18", "Attention weights are masked distributions over the right keys and heads",
 "Every attention layer produces, for each sample, head and query, non-negative weights over the keys that sum to one and returns the weighted average of that same sample's and head's projected values. Masked keys get weight zero whenever some key is unmasked, for every head of the masked sample and for no other sample, and no sample influences another sample's result, also when earlier weights are fed back.",
 ["inputs","configurations"], "all batch sizes, head counts, sequence lengths, widths, masks and values (the customizing attention with at least two keys and at least two sample-head pairs)",
 "No test exercises the attention layers at all.",
 ["attentions.py"],
 [("scaled dot product","attentions.py:ScaledDotProductAttention.forward"),("head layout","attentions.py:MultiHeadAttention.forward, MultiHeadLocationAwareAttention.forward, RelativeMultiHeadAttention.forward, CustomizingAttention.forward"),("other scores","attentions.py:DotProductAttention, AdditiveAttention, LocationAwareAttention")],
 ["context and weights returned by the attention layers"])

prop("C19", "Networks are the composition of their configured layers, all weights trainable",
 "A multi-layer network built from a configuration applies exactly the configured layers in order, with the configured widths, orders, segments, periodicity, normalisation and non-linearity between layers (none after the output of a fully connected network) and dropout inactive in evaluation; the residual option adds to each later hidden layer's result the result that the layer just before it in the sequence gives on the same input, and a switch layer multiplies the results of its sub-layers. Every weight that influences the output is reported as a parameter of the network and saved with it.",
 ["configurations","inputs"], "all depths, widths, orders, layer types and options; inputs",
 "Tests construct networks and check output shapes; missing parameters or reordered stages do not change shapes.",
 ["networks.py","layers.py"],
 [("MLPs","networks.py:HighOrderMLP, HighOrderMLPList, LowOrderMLP, HighOrderMultiMLP"),("convolutional networks","networks.py:HighOrderFullyConvolutionalNetwork, HighOrderFullyDeconvolutionalNetwork"),("switch and sum layers","layers.py:SwitchLayer, SumLayer")],
 ["network output compared with its layers applied by hand","parameters() and state_dict()"])

prop("C20", "Tail-focus network concatenates each stage's tail and predicts its sizes",
 "The tail-focus network returns, per sample, the last focus[i] positions of all channels of the input and of each intermediate stage, followed by the whole of the last stage, concatenated in that order. The widths and sizes it predicts for an input length equal the widths of its stages and the sizes of the pieces it returns, for every kernel size, stride and padding.",
 ["inputs","configurations"], "all input lengths, kernel sizes, strides, paddings, channels and focus values no larger than the stage widths",
 "Tests check the total size for one configuration.",
 ["networks.py"],
 [("forward","networks.py:HighOrderTailFocusNetwork.forward"),("size prediction","networks.py:HighOrderTailFocusNetwork.compute_sizes")],
 ["network output and compute_sizes"])

prop("C21", "Variational autoencoder: Gaussian sampling, non-negative KL, correct loss",
 "The autoencoder samples the latent code as mean + exp(logvar/2) * noise with standard normal noise, decodes it with its decoder, and returns reconstruction, input, mean and log-variance. Its loss is the mean squared reconstruction error plus the given weight times the batch mean of the KL divergence to the standard normal, -1/2 * sum(1 + logvar - mean^2 - exp(logvar)), which is never negative and zero exactly for a standard normal; the reported KLD entry is the negative of that mean.",
 ["inputs","configurations"], "all latent sizes, batches, means, log-variances, reconstructions and weights",
 "Tests check that a forward pass has the right shape.",
 ["networks.py"],
 [("sampling","networks.py:VanillaVAE.reparameterize"),("loss","networks.py:VanillaVAE.loss_function"),("composition","networks.py:VanillaVAE.encode / decode / forward")],
 ["latent samples, returned loss entries"])

prop("C22", "Positional encodings: sinusoid pairs and rotated mesh coordinates",
 "The sinusoidal embedding of even size d maps a position t to d/2 sines followed by d/2 cosines of t times geometrically decreasing frequencies from 1 to 1/10000 (frequency 1 when d is 2), and odd sizes are refused. The mesh positions of a width by height grid with r rotations are 2r coordinate meshes, per angle k*(pi/2)/r the axis at that angle and the axis orthogonal to it, each affinely rescaled to span [-m/2, m/2] with m the larger grid dimension, or [-1, 1] when normalised.",
 ["inputs","configurations"], "all even d, positions, grid sizes >= 2 and rotation counts",
 "Tests check shapes of both.",
 ["positional_embeddings.py","utils.py"],
 [("sinusoids","positional_embeddings.py:ClassicSinusoidalEmbedding.forward"),("mesh","utils.py:positions_from_mesh")],
 ["embedding output","list of meshes"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
