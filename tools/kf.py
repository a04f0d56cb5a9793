"""writes known-findings.jsonl (run by hand, never by a check)"""
import json, os
F = [
 ("P01", "42649c1", "continuous, discontinuous and expansion segments ignored a domain length other than 2"),
 ("P04", "38e6947", "Product(bias=False) crashed in forward"),
 ("P04", "2e359e0", "product bases added (1 - alpha) times the linear part instead of removing it"),
 ("P04", "1b3b031", "PolynomialProd could not be constructed (no num_basis)"),
 ("P06", "c80914b", "FourierSeries dropped periodicity and other keyword arguments"),
 ("P17", "20dbd53", "discontinuous product layer ignored its device argument"),
 ("P05", "2682821", "N dimensional Lagrange basis had the wrong sign for an odd number of even node counts"),
 ("P05", "8d696f4", "N dimensional polynomial layers crashed for a single n"),
 ("P05", "a07ca62", "PiecewiseND used the same weights for every input and output, failed in one dimension and with uniform initialization"),
 ("P11", "fe97f0d", "the requested initialization never reached the layers"),
 ("P17", "5fb4ab2", "layers inside SwitchLayer and SumLayer were not registered"),
 ("P20", "933eafe", "HighOrderMLPList built only its first layer"),
 ("P20", "f3dcefe", "HighOrderMultiMLP could not be constructed"),
 ("P22", "3a7b469", "TailFocus size computation crashed with default stride or padding"),
 ("P22", "b1c7b31", "TailFocus network left out intermediate tails without normalization"),
 ("P25", "7490eff", "FourierSeriesEmbedding returned None"),
 ("P25", "8a1e95f", "sinusoidal embedding of dimension 2 divided by zero"),
 ("P15", "4674c69", "SparseLion never applied its weight decay"),
 ("P16", "9937f53", "MultiHeadAttention applied the masks of other samples"),
 ("P16", "ef962c5", "multi head location aware attention mixed up heads and positions of the values"),
 ("P16", "74fb308", "CustomizingAttention called its attention without values"),
 ("P14", "9d8413f", "positions_from_mesh's second axis was not orthogonal to the first"),
 ("P07", "97bb3f5", "FourierConvolution1d could not be constructed"),
 ("P07", "16499a6", "1d convolutions rescaled by the square of the kernel size"),
 ("P07", "6474b41", "1d expansions crashed on non contiguous inputs"),
 ("P09", "ed067d0", "p refinement of product layers crashed"),
 ("P12", "7a49bb7", "smoothing of piecewise constant layers crashed or smoothed nothing"),
 ("P24", "342cc68", "plateau scheduler passed an argument that torch removed"),
 ("P24", "474ddce", "select_network read the wrong configuration entries"),
 ("P16", "a786da8", "the alignment returned by CustomizingAttention was head first while last_attn is read batch first, so feeding it back mixed samples"),
 ("P09", "292e616", "p refinement left single polynomial layers untouched"),
 ("P20", "1a8037c", "resnet layers added the previous module applied twice instead of their input"),
 ("P27", "982d26c", "basis functions kept their nodes on the cpu: no polynomial layer worked on another device; N dimensional layers and interpolation failed after moving, the sinusoidal embedding anywhere but on the cpu"),
 ("P28", "f914be6", "piecewise convolutions, interpolation, refinement and the lazy layer norm failed in double precision"),
 ("P24", "faf93ae", "high_order_conv and high_order_tail_focus networks used their channel count as the epsilon of batch normalization"),
]
K = [dict(property="P17", obligation="*", rule="%s.result: every trainable parameter influences the output with a gradient" % c, contains="result",
          what="%s registers a trainable parameter 'result' (torch.empty, uninitialised) that no computation reads: it never gets a gradient" % c)
     for c in ("Polynomial", "PolynomialProd", "FourierSeries", "Polynomial2D", "Polynomial3D")]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl"), "w") as f:
    for p, c, w in F:
        f.write(json.dumps(dict(property=p, status="fixed", commit=c, what=w, entry="fixed: property=%s %s %s" % (p, c, w))) + "\n")
    for k in K:
        f.write(json.dumps(dict(k, status="known")) + "\n")
