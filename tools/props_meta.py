"""Text of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))


D = "high_order_layers_torch/"
NORMAL = ("Abstract interpretation of the layer's constructor and forward pass over a term domain (sizes, segment count, order, input "
          "and weights symbolic), then equality of algebraic normal forms with the reference formula. ")

prop("P01", "Continuous piecewise polynomial layers evaluate the documented function",
     "A continuous piecewise polynomial fully connected layer outputs, for every sample and output, the sum over inputs of a piecewise "
     "polynomial whose segments tile the domain uniformly, which interpolates its weights at the Chebyshev-Lobatto nodes of each segment and "
     "shares the weight on the node between neighbouring segments. Inputs outside the domain use the polynomial of the first or last segment. "
     "This holds for any order, segment count, domain length, feature counts and weights, also when the layer is made through the layer registry.",
     ["inputs", "configurations"], "all inputs, weights, orders n >= 1, segment counts, domain lengths, feature counts and batch sizes",
     "Tests compare shapes and a few handpicked values with length 2; they never vary the domain length and cannot cover all orders and segments.",
     [D + "PolynomialLayers.py", D + "LagrangePolynomial.py", D + "Basis.py"],
     [("segment lookup, weight gather and interpolation", D + "PolynomialLayers.py: Piecewise.forward"),
      ("Lagrange basis on Chebyshev-Lobatto nodes", D + "LagrangePolynomial.py: LagrangeBasis")],
     NORMAL + "Real arithmetic: floating-point rounding is not modelled.")
prop("P02", "Discontinuous piecewise polynomial layers evaluate the documented function",
     "A discontinuous piecewise polynomial fully connected layer outputs, for every sample and output, the sum over inputs of a function that on "
     "each of the uniform segments of the domain is the polynomial interpolating that segment's own weights at its Chebyshev-Lobatto nodes. "
     "No weight is shared between segments, and inputs outside the domain use the first or last segment. "
     "This holds for any order, segment count, domain length, feature counts and weights, also when the layer is made through the layer registry.",
     ["inputs", "configurations"], "all inputs, weights, orders n >= 1, segment counts, domain lengths, feature counts and batch sizes",
     "Tests sample a few points of small layers with length 2.",
     [D + "PolynomialLayers.py", D + "LagrangePolynomial.py", D + "Basis.py"],
     [("segment lookup, weight gather and interpolation", D + "PolynomialLayers.py: PiecewiseDiscontinuous.forward")],
     NORMAL + "Real arithmetic: floating-point rounding is not modelled.")
prop("P03", "Single polynomial and Fourier layers evaluate the documented series",
     "A single polynomial fully connected layer outputs the sum over inputs of the polynomial interpolating each link's weights at the "
     "Chebyshev-Lobatto nodes of the domain. A Fourier layer outputs the sum over inputs of each link's series with components one half, sine and "
     "cosine of increasing harmonics whose fundamental period is the domain length. Both hold for any number of terms, domain length, feature counts and weights.",
     ["inputs", "configurations"], "all inputs, weights, numbers of terms, lengths, feature counts and batch sizes",
     "Tests check shapes and the two-node case only.",
     [D + "PolynomialLayers.py", D + "Basis.py", D + "LagrangePolynomial.py"],
     [("basis evaluation and contraction", D + "Basis.py: BasisFlat.interpolate"), ("Fourier basis", D + "LagrangePolynomial.py: FourierBasis")],
     NORMAL + "Real arithmetic: floating-point rounding is not modelled.")
prop("P04", "Product layers multiply one plus each link's value",
     "Layers that take the product at the neuron output, for every sample and output, the product over inputs of one plus the link's value, minus one. "
     "The plain product layer uses weight times input as the link's value, removes (1 - alpha) times the linear part and adds its bias if it has one; "
     "the product bases do the same with their alpha. The link functions and segments are those of the corresponding sum layers, for any configuration.",
     ["inputs", "configurations"], "all inputs, weights, orders, segments, lengths, alphas, feature counts",
     "Tests only exercise alpha 1 and small shapes.",
     [D + "PolynomialLayers.py", D + "ProductLayer.py", D + "Basis.py"],
     [("product contraction", D + "Basis.py: BasisProd.interpolate, BasisFlatProd.interpolate"), ("product layer", D + "ProductLayer.py: Product.forward")],
     NORMAL + "Real arithmetic: floating-point rounding is not modelled.")
prop("P05", "N-dimensional layers interpolate on tensor products of nodes",
     "N-dimensional polynomial layers evaluate, per input group, the tensor product Lagrange interpolant of their weights on Chebyshev-Lobatto nodes, "
     "in every dimension with that dimension's own order and, for the piecewise layers, its own uniform segments. "
     "Outputs are the sum over input groups, out of range coordinates use the first or last segment in that dimension, for any domain length.",
     ["inputs", "configurations"], "all inputs, weights, orders and segment counts per dimension, lengths, 1 to 5 dimensions",
     "Tests check that nodes reproduce weights in two dimensions with length 2 and equal orders.",
     [D + "PolynomialLayers.py", D + "LagrangePolynomial.py", D + "Basis.py"],
     [("N dimensional basis", D + "LagrangePolynomial.py: LagrangeBasisND, LagrangeBasisPiecewiseND"),
      ("N dimensional layers", D + "PolynomialLayers.py: PolynomialND, PiecewiseND, PiecewiseDiscontinuousND")],
     NORMAL + "The number of dimensions is enumerated (1 to 5), everything else is symbolic.")
prop("P06", "Periodic layers see the mirror image of their input",
     "A layer with periodicity P behaves exactly like the same layer without periodicity applied to the mirror periodic image of its input, the "
     "triangle wave of period 2P that is the identity on [-P/2, P/2]. This holds for piecewise, single polynomial, Fourier, product, convolution and "
     "transposed convolution layers, for every input value however far outside the domain.",
     ["inputs", "configurations"], "all input values, periodicities, layer kinds and layer sizes",
     "Tests check the fold at a handful of points and no layer far outside the domain.",
     [D + "utils.py", D + "PolynomialLayers.py", D + "FunctionalConvolution.py", D + "FunctionalConvolutionTranspose.py", D + "ProductLayer.py"],
     [("fold", D + "utils.py: make_periodic"), ("fold before evaluation", D + "PolynomialLayers.py: Piecewise.forward, Function.forward")],
     NORMAL + "The Fourier convolution takes no periodicity and is not covered.")
prop("P07", "High order convolutions sum a function per kernel tap",
     "One and two dimensional polynomial, piecewise polynomial and Fourier convolutions output, for every sample, output channel and position, the sum over "
     "input channels and kernel taps of that tap's own function of the input value, padded positions contributing zero. The functions have the same "
     "nodes and segments as the corresponding fully connected layers, and stride, padding, dilation, domain length and output rescaling (division by input channels times "
     "kernel taps) have their usual meaning. Layers made through the layer registry behave the same.",
     ["inputs", "configurations"], "all inputs, weights, kernel sizes, strides, paddings, dilations, orders, segments and channel counts",
     "Tests check output shapes of a few small layers.",
     [D + "FunctionalConvolution.py", D + "Basis.py", D + "LagrangePolynomial.py"],
     [("channel expansion", D + "FunctionalConvolution.py: Expansion1d, Expansion2d"), ("expansion bases", D + "Basis.py: BasisExpand, PiecewiseExpand")],
     NORMAL + "A few stride/padding/dilation claims have no common normal form and are compared on ground instances of the two terms.")
prop("P08", "High order transposed convolutions scatter a function per kernel tap",
     "The transposed piecewise polynomial convolution outputs, for every sample, output channel and position, the sum over input channels, kernel taps and "
     "input positions that the tap maps to this position of that tap's own function of the input value. The functions have the nodes and segments of the continuous "
     "piecewise layer; stride, dilation, domain length and output rescaling have their usual meaning, also through the layer registry.",
     ["inputs", "configurations"], "all inputs, weights, kernel sizes, strides, dilations, orders, segments and channel counts",
     "Tests check output shapes of a few small layers.",
     [D + "FunctionalConvolutionTranspose.py", D + "Basis.py"],
     [("expansion then transposed convolution", D + "FunctionalConvolutionTranspose.py: PiecewisePolynomialConvolutionTranspose")],
     NORMAL + "Claims without a common normal form are compared on ground instances of the two terms.")

prop("P09", "p refinement keeps the function of a layer",
     "Interpolating a layer onto another of different order (p refinement) sets the new weights to the old function's values at the new layer's nodes, for single polynomial, continuous and "
     "discontinuous piecewise layers and their product forms, whatever the orders, segment counts, lengths and weights. Going to an equal or higher order therefore leaves the layer's "
     "output unchanged for every input, and the old layer is not modified. The two layers share no weights: changing the new one later leaves the old one as it is.",
     ["inputs", "configurations"], "all weights, orders, segment counts, lengths and feature counts",
     "Tests compare a few random layers at random points with length 2.",
     [D + "PolynomialLayers.py"],
     [("interpolation", D + "PolynomialLayers.py: interpolate_polynomial_layer, Polynomial.interpolate")],
     NORMAL + "Invariance of the function is compared on ground instances of the terms for several pairs of orders.")
prop("P10", "h refinement samples the old function",
     "Refining a continuous piecewise polynomial layer, or its product form, onto one with another number of segments sets every new weight to the old function's value at the new node's "
     "position, so that cutting each segment into equal parts leaves the layer's output unchanged for every input. The old layer is not modified and shares nothing with the new one. "
     "Discontinuous layers are either refined the same way or refused with a ValueError.",
     ["inputs", "configurations"], "all weights, orders, segment counts, lengths and feature counts",
     "Tests compare a few random layers with length 2 and a refinement factor of two or three.",
     [D + "PolynomialLayers.py"],
     [("refinement", D + "PolynomialLayers.py: refine_polynomial_layer, Piecewise.refine")],
     NORMAL + "Invariance of the function is decided for several pairs of segment counts.")
prop("P11", "Initial weights have the documented distribution",
     "A new layer's weights are random with the documented range: weight_magnitude over the number of inputs for fully connected layers with uniform initialization, and with constant_random "
     "initialization all nodes of a link share one such value while different links have independent ones. initialize_polynomial_layer sets every link of a piecewise layer to a "
     "random line within the given slope and offset bounds, sampled at the true node positions. Every weight of every layer is initialised, also through the layer registry.",
     ["configurations"], "all layer kinds, orders, segments, feature counts and magnitudes",
     "Tests cannot observe the range or the independence of random weights for all sizes.",
     [D + "PolynomialLayers.py", D + "ProductLayer.py", D + "FunctionalConvolution.py"],
     [("initialization", D + "PolynomialLayers.py: Function, Piecewise, constant_random_initialization, initialize_polynomial_layer")],
     NORMAL + "The weights are affine terms of one uniform random number; its index set decides which weights share it.")
prop("P12", "Smoothing closes the jumps of a discontinuous layer",
     "smooth_discontinuous_layer with a factor moves the two weights on either side of every boundary between segments towards each other by half the factor times their difference, and changes no "
     "other weight, for any order (also constant segments), segment count and weights. Repeated smoothing converges to a continuous function.",
     ["inputs", "configurations"], "all weights, factors, orders, segment counts and feature counts",
     "The only test smooths one layer with one factor.",
     [D + "PolynomialLayers.py"],
     [("smoothing", D + "PolynomialLayers.py: smooth_discontinuous_layer")],
     NORMAL)
prop("P13", "Normalizations divide by the magnitude of each sample",
     "The max abs normalizations divide by the largest magnitude plus eps, the max center normalizations subtract the midrange and divide by half the range plus eps, the l2 normalization divides by the euclidean "
     "norm plus eps, each along the documented dimensions only (one dimension, the last one, or all but the batch for the nd forms). The lazy layer norm standardises the last dimension. The modules and the "
     "normalization registries do the same as the functions.",
     ["inputs", "configurations"], "all inputs of 1 to 4 dimensions of any size, any eps",
     "Tests use two small two dimensional tensors.",
     [D + "utils.py", D + "layers.py"],
     [("functions", D + "utils.py: max_abs_normalization, max_center_normalization, l2_normalization and variants"), ("modules", D + "layers.py: normalization_layers")],
     NORMAL + "The number of dimensions is enumerated.")
prop("P14", "Fixed rotations produce every rotated axis",
     "fixed_rotation_layer returns a frozen linear layer and its output width, whose outputs are each input once and, for every pair of inputs and every rotation angle, the rotated axis and the axis orthogonal to it, "
     "scaled to stay within the input range when normalize is set. positions_from_mesh returns for every rotation angle the mesh coordinate along that axis and along the orthogonal axis, spanning exactly minus to plus half the larger dimension, or -1 to 1 when normalized. "
     "Fewer than one rotation is refused with a ValueError.",
     ["inputs", "configurations"], "all mesh sizes of at least two, 1 to 6 rotations, 1 to 4 inputs",
     "Tests check the number of outputs and their range for one size.",
     [D + "layers.py", D + "utils.py"],
     [("layer", D + "layers.py: fixed_rotation_layer"), ("mesh", D + "utils.py: positions_from_mesh")],
     NORMAL + "The numbers of rotations and inputs are enumerated.")
prop("P15", "SparseLion updates only weights that received a gradient",
     "Every step of SparseLion changes exactly the weights whose gradient is not zero: they are decayed by one minus learning rate times weight decay and moved by the learning rate against the sign of the beta1 blend of momentum and gradient, "
     "and only their momentum moves by beta2. Weights, momenta and parameters without gradient keep their values through any sequence of steps. Each parameter group uses its own current settings, the closure's loss is returned, and "
     "invalid settings are refused.",
     ["inputs", "histories"], "all gradients including zeros, settings, groups, parameter shapes, sequences of up to three steps",
     "Tests take one step on one tensor without weight decay.",
     [D + "sparse_optimizers/sparse_lion.py"],
     [("update", D + "sparse_optimizers/sparse_lion.py: update_fn, SparseLion.step")],
     NORMAL + "The triton path is not analysed.")
prop("P16", "Attention modules weigh values by the documented scores",
     "Every attention module returns, per sample and head, weights that are the softmax (or normalised sigmoid) of its documented score and the correspondingly weighted sum of that sample's values. Masked items get weight zero, "
     "heads and samples never mix, and the alignment returned by the location aware modules can be fed back as the last alignment.",
     ["inputs", "configurations", "histories"], "all inputs, masks that leave an item, weights, batch sizes, lengths, head counts and dimensions",
     "There are no tests of the attention modules.",
     [D + "attentions.py"],
     [("attention modules", D + "attentions.py")],
     NORMAL + "The relative attention is analysed in evaluation mode (no dropout).")
prop("P17", "Registered parameters are what a module learns, and all of it",
     "The output of every layer, network, normalization and embedding is a function of its input and its registered parameters and buffers only. Every registered trainable parameter takes part in the "
     "output with a gradient, gradients reach the input, nothing in between is detached, and fixed layers (rotations) are not trainable.",
     ["inputs", "configurations"], "all modules of the library, sizes, inputs and weights",
     "Tests train one network and look at the loss; a weight that is unregistered, detached or unused changes neither shapes nor the values tests compare.",
     [D + "PolynomialLayers.py", D + "layers.py", D + "networks.py", D + "FunctionalConvolution.py", D + "positional_embeddings.py"],
     [("layers and networks", D + "layers.py, networks.py")],
     "Dependency analysis on the terms of the abstract interpretation: which parameters an output element reads, and which of them outside detached, rounding or comparison positions. Derivatives that vanish by cancellation are not looked for.")
prop("P18", "Evaluation is pure, deterministic and independent per sample",
     "In evaluation mode, applying a layer, network, normalization or embedding leaves its parameters, its input and earlier results unchanged, gives the same result when repeated, whatever was evaluated in between, and the result for a sample depends on that sample "
     "alone: the same for any batch it is part of, at any position, with a batch of any size.",
     ["inputs", "histories", "configurations"], "all modules of the library, sizes, batch sizes, inputs, weights, repeated calls",
     "Tests call each module once on one random batch.",
     [D + "PolynomialLayers.py", D + "layers.py", D + "networks.py", D + "FunctionalConvolution.py", D + "utils.py"],
     [("forward passes", D + "layers.py, networks.py")],
     NORMAL + "The term of an output element is compared between two calls, two batches and with the inputs and parameters before the call.")
prop("P19", "Layer type names select the documented layer",
     "high_order_fc_layers, high_order_convolution_layers, high_order_convolution_transpose_layers and normalization_layers turn each layer type name into the documented layer, with the given order, segments, features or "
     "channels, kernel, periodicity and rescaling; switch layers are products of independent layers, baseline layers are linear layers (followed by a ReLU for baseline_relu). Any other name is refused with a ValueError.",
     ["configurations", "inputs"], "all names, sizes, inputs and weights",
     "Tests construct layers by name and check shapes; layers of different type have the same shapes.",
     [D + "layers.py"],
     [("factories", D + "layers.py: high_order_fc_layers, high_order_convolution_layers, high_order_convolution_transpose_layers"),
      ("registries", D + "layers.py: fc_layers, convolutional_layers, normalization_layers")],
     NORMAL + "The reference is the documented class with the same weights; what that class computes is decided by P01 to P08 and P13.")
prop("P20", "Multilayer perceptrons compose the documented layers",
     "HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP and LowOrderMLP compute exactly the composition of input layer, hidden layers and output layer, each with its own order, segment count, width and type and the given "
     "periodicity, with a normalization followed by the non linearity after every layer but the last. Residual networks add the input of every hidden layer after the first to its output, HighOrderMultiMLP applies the output layer "
     "to the sum of its replicas, dropout does nothing in evaluation, and mismatching lists are refused.",
     ["configurations", "inputs"], "all widths, orders, segment counts, inputs and weights; zero to three hidden layers, one to three replicas",
     "Tests check output shapes and that training lowers a loss; a layer built with its neighbour's order, a skipped normalization or a wrong residual keep both.",
     [D + "networks.py"],
     [("networks", D + "networks.py: HighOrderMLP, HighOrderMLPList, HighOrderMultiMLP, LowOrderMLP")],
     NORMAL + "The reference is a chain of the documented layers sharing the network's weights; numbers of layers and replicas are enumerated.")
prop("P21", "Convolutional networks compose the documented layers",
     "HighOrderFullyConvolutionalNetwork and HighOrderFullyDeconvolutionalNetwork apply their (transposed) convolutions one after another, layer i with its own type, order, segments, kernel size, stride and channels and the "
     "given padding, periodicity and rescaling, each followed by its normalization; the convolutional network then averages over all positions (or, without pooling, only flattens). A single value given for a list is used for "
     "every layer, output_size and in_channels are the true widths, and fewer than two channel counts are refused.",
     ["configurations", "inputs"], "all channel counts, orders, segment counts, input sizes, inputs and weights; enumerated kernels, strides, paddings and one to three layers",
     "Tests check output shapes of a few networks.",
     [D + "networks.py"],
     [("networks", D + "networks.py: HighOrderFullyConvolutionalNetwork, HighOrderFullyDeconvolutionalNetwork")],
     NORMAL + "The reference is a chain of the documented layers sharing the network's weights.")
prop("P22", "Tail focus networks concatenate the tails of their stages",
     "The output of HighOrderTailFocusNetwork consists, for every sample, of the last focus[i] positions of the input (i = 0) and of the output of each (normalised) convolution but the last, channel by channel, followed by the whole output "
     "of the last stage. compute_sizes predicts the width of every stage and the size of every block for any input size, stride and padding.",
     ["configurations", "inputs"], "all channel counts, orders, segment counts, input sizes, inputs and weights; enumerated kernels, strides, paddings, focus sizes and one to three layers",
     "One test compares the output size for one configuration.",
     [D + "networks.py"],
     [("network", D + "networks.py: HighOrderTailFocusNetwork.forward, compute_sizes")],
     NORMAL + "Size claims with strides are decided on instances of the sizes.")
prop("P23", "The variational autoencoder computes the documented codes and loss",
     "VanillaVAE encodes its input into a mean and a log variance by two linear maps of the encoder's output, draws a code as mean plus exp(log variance / 2) times an independent standard normal number per entry, and decodes it "
     "through the decoder applied to the projected code as a single position. forward returns reconstruction, input, mean and log variance; generate the reconstruction; sample decodes standard normal codes. The loss is the mean squared "
     "error plus M_N times the Kullback-Leibler divergence averaged over the batch.",
     ["inputs", "configurations"], "all sizes, inputs, weights, noise and loss weights",
     "One test runs forward and checks shapes.",
     [D + "networks.py"],
     [("autoencoder", D + "networks.py: VanillaVAE")],
     NORMAL + "Random draws are symbols of their distribution.")
prop("P24", "The training modules optimize the documented losses of the configured network",
     "RegressionNet returns and logs the mean squared error and ClassificationNet the mean cross entropy (and logs the share of correctly classified samples) of the network's output in training, validation and test steps, whether the targets come flat or as a column, under the names "
     "train_, val_ and test_. configure_optimizers hands all parameters, each once, with the configured learning rate to the configured optimizer, and drives it by the configured scheduler (plateau of the minimal train_loss with patience and "
     "factor, exponential with gamma). select_network builds exactly the configured network: high order MLP, high order input layer followed by linear layers with ReLU, convolutional or tail focus network with batch normalization and a final "
     "linear layer. Unknown optimizers and model types are refused with a ValueError.",
     ["configurations", "inputs"], "all widths, orders, segment counts, batches, weights and hyperparameters; zero to two hidden layers",
     "No test runs these modules' steps, optimizers or network selection beyond construction.",
     [D + "modules.py"],
     [("training modules", D + "modules.py: ClassificationNet, RegressionNet"), ("network selection", D + "modules.py: select_network")],
     NORMAL + "The reference network is a chain of the documented layers sharing the network's weights.")
prop("P25", "Positional embeddings are geometric sinusoids or their documented layers",
     "ClassicSinusoidalEmbedding(dim) maps every position x, in a tensor of any shape, to dim numbers along a new last dimension: sin(x f_j) for j < dim/2, then cos(x f_j), with f_j = 10000 to the power -j / max(dim/2 - 1, 1). Odd dimensions are "
     "refused with a ValueError. FourierSeriesEmbedding, PiecewisePolynomialEmbedding and PiecewiseDiscontinuousPolynomialEmbedding are the Fourier, continuous and discontinuous layers with the given order, segments, features, length, periodicity "
     "and weight magnitude.",
     ["configurations", "inputs"], "all dimensions, positions, orders, segment counts and weights",
     "Tests check the shape for one dimension.",
     [D + "positional_embeddings.py"],
     [("embeddings", D + "positional_embeddings.py")],
     NORMAL)
prop("P26", "Operations on whole networks act on every layer and keep the function",
     "interpolate_high_order_mlp(a, b) gives every layer of b the values of the corresponding layer of a at b's nodes, so b of equal or higher order computes the same function as a; hp_refine_high_order_mlp(a, b) does the same for other segment "
     "counts of continuous layers; smooth_discontinuous_network makes every discontinuous layer (and no other) continuous at the segment boundaries by averaging the two sides; initialize_network_polynomial_layers gives every piecewise layer "
     "independent straight lines with slope at most max_slope * scale_slope(the number of inputs of that layer) and offset at most max_offset and leaves other layers alone. The source network stays as it is and shares no weights with the new one. transform_mlp and transform_low_mlp are the "
     "fixed, untrained rotation layer followed by the documented network on its outputs.",
     ["configurations", "inputs"], "all widths, orders, segment counts, weights, slopes and inputs; 0 to 3 hidden layers",
     "Tests interpolate one network of fixed sizes and compare at sample points.",
     [D + "networks.py", D + "layers.py"],
     [("interpolate_high_order_mlp, hp_refine_high_order_mlp, smooth_discontinuous_network, initialize_network_polynomial_layers, transform_mlp, transform_low_mlp", D + "networks.py")],
     NORMAL)
prop("P27", "Modules compute on the device they live on",
     "Every layer, convolution, normalization, embedding, attention, network and the autoencoder, once moved with module.to(device), maps inputs on that device to outputs on that device: no operation mixes tensors of two devices, no result or "
     "parameter ends up elsewhere, and moving it back works as well. Dense polynomial and Fourier layers and multilayer perceptrons of them built with device=... work on that device in the same way. Interpolation, refinement, smoothing and "
     "initialization of layers work on the device of the layers and leave the weights there; autoencoder samples are drawn on the device of the autoencoder.",
     ["configurations", "inputs"], "every module of the library; all feature counts and batch sizes; built on the device, moved there, moved back",
     "The test suite runs on the cpu only, where every device mistake is invisible.",
     [D + "PolynomialLayers.py", D + "LagrangePolynomial.py", D + "Basis.py", D + "FunctionalConvolution.py", D + "layers.py", D + "networks.py", D + "attentions.py", D + "positional_embeddings.py"],
     [("basis functions and layers", D + "LagrangePolynomial.py, PolynomialLayers.py, Basis.py")],
     "Flow analysis of the device of every tensor on top of the abstract interpretation; tensors whose device the analysis does not know never conflict, and zero dimensional cpu tensors, copies and cpu indices are allowed as in the library.")
prop("P28", "Modules compute in the precision of their parameters and inputs",
     "Every layer, convolution, normalization, embedding, attention, network and the autoencoder, converted with module.double(), maps float64 inputs to float64 outputs: no operation mixes precisions where the library refuses it, and no result or "
     "parameter falls back to float32. Interpolation, refinement, smoothing and initialization of double precision layers work and leave double precision weights.",
     ["configurations", "inputs"], "every module of the library; all feature counts and batch sizes",
     "The tests use the default precision.",
     [D + "PolynomialLayers.py", D + "LagrangePolynomial.py", D + "Basis.py", D + "FunctionalConvolution.py", D + "layers.py", D + "networks.py", D + "attentions.py", D + "positional_embeddings.py"],
     [("layers and expansions", D + "PolynomialLayers.py, Basis.py")],
     "Flow analysis of the floating point precision of every tensor (promotion rules of the library) on top of the abstract interpretation; constants such as the nodes are float32 values in either case.")
prop("P29", "Modules do not influence each other and keep no hidden state",
     "Making, using or training one module never changes what another module computes, whatever their configurations: a module computes the same whether it is the first or a later one of its kind in a process. "
     "Separate modules share no parameters. Once parameters change (a training step, a loaded state), the next evaluation uses their new values and nothing computed from the old ones.",
     ["histories", "configurations", "inputs"], "every layer, convolution, normalization, embedding and network; pairs of modules whose configurations differ in any one respect; all sizes, inputs and weights",
     "Tests make one module at a time and never compare it with one made in a fresh process.",
     [D + "PolynomialLayers.py", D + "LagrangePolynomial.py", D + "Basis.py", D + "FunctionalConvolution.py", D + "layers.py", D + "networks.py", D + "utils.py", D + "positional_embeddings.py"],
     [("bases and their tables", D + "LagrangePolynomial.py: LagrangeBasis"), ("forward passes", D + "PolynomialLayers.py, FunctionalConvolution.py, layers.py, networks.py")],
     NORMAL + "The abstract store keeps module globals, class attributes and closures, so a history of two modules is interpreted in one store and its outputs compared with those of a store in which only one of them was made.")
prop("N01", "High orders stay accurate in floating point",
     "Evaluating a polynomial layer of any order on its domain in single precision differs from the exact interpolant by no more than a small multiple of the rounding unit times the largest weight.",
     ["inputs", "configurations"], "all orders, inputs and weights",
     "Tests use tolerances at a few orders.",
     [D + "LagrangePolynomial.py"], [("Lagrange basis", D + "LagrangePolynomial.py")], "")
prop("N02", "Training fits the data",
     "Training a network of the library with the configured optimizer decreases the loss to a level that depends on the network's capacity.",
     ["inputs", "histories"], "all data sets, seeds and training histories",
     "Tests train tiny networks for a few steps.",
     [D + "networks.py"], [("networks", D + "networks.py")], "")
prop("N03", "The cost of a piecewise layer does not depend on its segment count",
     "Time and memory of evaluating a piecewise layer depend on the order and the widths, not on the number of segments beyond storing the weights.",
     ["inputs", "configurations"], "all segment counts and widths",
     "Tests do not measure cost.",
     [D + "Basis.py"], [("piecewise basis", D + "Basis.py")], "")
NOT_APPLICABLE = [
    dict(property="N01", reason="The analysis works over the reals; a bound on rounding errors depends on run-time magnitudes and on the kernels torch selects, which no static argument over this source bounds."),
    dict(property="N02", reason="Depends on the data, the random seed and the dynamics of optimization: run-time quantities that cannot be derived from the source."),
    dict(property="N03", reason="Time and memory are properties of the torch kernels at run time; the source only shows the sequence of calls."),
]
