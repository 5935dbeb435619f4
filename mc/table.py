"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when a property is added)."""
import json

L = ["nnj/linear.py", "nnj/conv2d.py", "nnj/tanh.py", "nnj/relu.py", "nnj/sigmoid.py", "nnj/sinusoidal.py", "nnj/softplus.py", "nnj/truncexp.py", "nnj/l2norm.py", "nnj/reshape.py", "nnj/flatten.py", "nnj/upsample.py", "nnj/maxpool2d.py"]
C = ["nnj/sequential.py", "nnj/skipconnection.py"]
A = ["nnj/abstract_jacobian.py", "nnj/abstract_diagonal_jacobian.py"]
LL = ["nnj/log_likelihoods.py"]
U = ["nnj/utils.py"]
TESTS = "The existing tests compare products of three fixed random networks among themselves, at one batch of random inputs each"

P = []


def prop(id, title, statement, over, quant, why, files, mech, note, tech):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, tech=tech))


EX = "bounded exhaustive enumeration on the real code against a dense double precision reference model"

prop(
    "C01", "Every layer's Jacobian is the derivative of the layer's own output",
    "For every layer, configuration, weights and batch of inputs, the Jacobian with respect to input (and with respect to weight, for layers that have weights) is the exact matrix of partial derivatives of the layer's output, one matrix per sample, flattened in the order of the output, input and weight vector. Whether the output is passed in or left out makes no difference, and layers without weights report that there is none. At points where the function is not differentiable the convention of torch's automatic differentiation holds.",
    ["inputs", "configurations"], "all layer kinds and configurations, input values including ties and zeros, weights, batch sizes, memory layouts, precisions, with and without the output given",
    TESTS + ", and check layer Jacobians only inside those networks.", L + A, [("jacobian of every layer", "nnj/<layer>.py jacobian"), ("convolution as products with the identity", "nnj/conv2d.py mjp")],
    "every configuration of the layer boxes x input classes x batch; a core of each kind x every set of circumstances within 2 (thorough 3) deviations; every half precision number through every activation; every tie pattern in small windows", EX)
prop(
    "C02", "Forward products of vectors and matrices equal the Jacobian times them",
    "For every layer and network that implements forward propagation, pushing a vector or a matrix with any number of columns forward gives the Jacobian (with respect to input or weight) multiplied by it, for each sample. Networks without weights give nothing with respect to weight.",
    ["inputs", "configurations"], "all layers and networks, all tangents (every basis vector, hence by linearity all), column counts, batches, layouts, precisions",
    TESTS + "; tangents, column counts, memory layouts and precisions are never varied.", L + C + A, [("jvp and jmp", "nnj/*.py jvp, jmp")],
    "all leaf configurations, listed networks x circumstances within 2 (3) deviations, every basis tangent", EX)
prop(
    "C03", "Backward products of vectors and matrices equal them times the Jacobian",
    "For every layer and network, pulling a vector or a matrix with any number of rows back gives it multiplied by the Jacobian with respect to input or weight, for each sample. Networks without weights give nothing with respect to weight.",
    ["inputs", "configurations"], "all layers and networks, all cotangents (every basis vector), row counts, batches, layouts, precisions",
    TESTS + "; cotangents, row counts, layouts and precisions are never varied.", L + C + A, [("vjp and mjp", "nnj/*.py vjp, mjp")],
    "all leaf configurations, listed networks x circumstances within 2 (3) deviations, every basis cotangent", EX)
prop(
    "C04", "Pulling a metric back gives J^T M J in each exact diagonal mode",
    "For every layer and network and every square matrix M over the output (symmetric or not, or only its diagonal), the backward metric product is the transposed Jacobian times M times the Jacobian, or exactly its diagonal when only the diagonal is asked for. With respect to the weights of a container the full result is the list of the per-layer diagonal blocks in weight order, and the diagonal is one vector in weight order.",
    ["inputs", "configurations"], "all layers, networks, matrices (every basis matrix, asymmetric ones), four combinations of diagonal input/output, both targets",
    TESTS + " with one symmetric matrix.", L + C + A, [("jTmjp", "nnj/*.py jTmjp"), ("per-layer blocks", "nnj/sequential.py jTmjp")],
    "all leaf configurations, listed networks x circumstances within 2 (3) deviations, every basis matrix up to 1200 entries", EX)
prop(
    "C05", "Pushing a metric forward gives J M J^T in each exact diagonal mode",
    "For every layer and network that implements forward propagation and every square matrix M over the input or the weights (or only its diagonal), the forward metric product is the Jacobian times M times the transposed Jacobian, or exactly its diagonal when only the diagonal is asked for. With respect to the weights of a container M counts as block diagonal over the layers, given as one matrix, one diagonal or the list of blocks, all with the same result.",
    ["inputs", "configurations"], "all forward-capable layers, networks, matrices (every basis matrix), diagonal modes, block forms",
    TESTS + " with one matrix.", L + C + A, [("jmjTp", "nnj/*.py jmjTp")],
    "all forward-capable leaf configurations, listed networks x circumstances within 2 (3) deviations, every basis matrix", EX)
prop(
    "C06", "Chains and skip connections obey the chain rule for every architecture",
    "For every well typed nesting of layers, chains and skip connections, output, Jacobians and all products are those of the composed function; how the layers are bracketed into nested chains changes nothing but the nesting of block lists. Weight vectors, Jacobian columns and blocks follow the order of the layers whatever their names, with one nested list of blocks per nested container, and a skip connection puts its input in front of the output of what it wraps.",
    ["programs", "inputs"], "all sequences of layers up to a depth, all bracketings, skips anywhere",
    "The existing tests use three fixed architectures; an error that needs a particular neighbour, position or nesting is not seen.", C + L, [("composition of the layers' products", "nnj/sequential.py, nnj/skipconnection.py")],
    "every sequence of up to 3 (4) layers over 9+8 templates, every bracketing, as chain and skip", "exhaustive enumeration of all architectures up to a depth, executed on the real code against a dense reference")
prop(
    "C07", "Leaving out the matrix means the identity, in every product",
    "Whenever no matrix is given to a matrix or metric product, the result is the one for the identity matrix of the right size: the Jacobian itself for the one-sided products, J J^T or J^T J (or the diagonal, or the diagonal approximation) for the metric products. This holds for every layer and network, with respect to input and weight, with any combination of the diagonal options.",
    ["inputs", "configurations"], "all layers and networks x all products x all option combinations",
    "The existing tests never leave the matrix out for most products and layers.", L + C + A, [("None handling in every product", "nnj/*.py")],
    "all leaf configurations, networks, chains up to 2 (3) layers, circumstances within 2 (3) deviations", EX)
prop(
    "C08", "The fast diagonal approximation is layer-wise diagonal propagation",
    "With the fast approximation switched on, the metric products return, for every network, exactly what one gets by carrying only a diagonal through the network, replacing it by the diagonal of the exact product at each elementary layer. In particular it is exact for a single layer and never depends on how layers are bracketed.",
    ["programs", "inputs"], "all architectures up to a depth, layer configurations, diagonals (every basis diagonal), call circumstances",
    "No existing test states what the approximate result should be.", L + C + A, [("diag_backprop paths", "nnj/*.py jTmjp, jmjTp")],
    "all leaf configurations, chains up to 3 (4) layers, skips, every basis diagonal, circumstances within 2 (3) deviations", EX)
prop(
    "C09", "A result depends only on the arguments and current weights, not on history",
    "Whatever was called before on the model, on a model sharing its layers or on an unrelated one (forward passes on other inputs, products, failing calls, weight changes by any means, mode switches, buffers rewritten in place), a product called with given arguments returns the values determined by these arguments and the present weights. Results handed out earlier are not changed by later operations.",
    ["histories"], "all sequences of operations up to a depth, and to closure of the state space where it is finite",
    "The existing tests call each product once on a new model; stale intermediate values need a history.", C + L, [("local intermediate values", "nnj/sequential.py"), ("no caching in layers", "nnj/maxpool2d.py, nnj/conv2d.py")],
    "breadth-first search over fingerprints of the full object state, all pairs (triples) of disturbances followed by every query, pumped histories, on 16 models", "explicit-state model checking of operation histories on real objects")
prop(
    "C10", "Computing never modifies arguments, weights or global state",
    "No forward pass, product, likelihood, weight read or block inversion, whether it succeeds or fails, changes its arguments, the weights, gradients and flags of the model, earlier results, the random number generator or global settings of torch. This holds for every layer, network, option and memory layout.",
    ["inputs", "configurations"], "all calls of the interface x models x circumstances",
    "The existing tests never look at the arguments after a call.", L + C + A + LL + U, [("out-of-place computation under no_grad", "nnj/*.py")],
    "every call x core layers and networks x circumstances within 1 (2) deviations; complete before/after comparison", "exhaustive enumeration of calls with full before/after state comparison")
prop(
    "C11", "Samples of a batch do not influence each other",
    "Row i of every result is the result for sample i (and its tangent) alone: the batch it sits in, its size, order, repetition, or other samples being infinite or not a number make no difference.",
    ["inputs"], "all batches that are words over a set of samples up to a length, with poisoned samples, long batches",
    "The existing tests use one batch size and never compare with single samples.", L + C + A, [("batched einsums", "nnj/*.py")],
    "all words of length 1..4 (5) over three samples plus poisoned ones, all products and modes", "exhaustive enumeration of batches, differential against single-sample runs")
prop(
    "C12", "The weight vector is a faithful, independent view of the weights",
    "Reading the weight vector gives all weights in the order in which Jacobians and products index them, writing one makes the model compute with exactly those values, and reading after writing returns them bit for bit. Vectors handed in or out stay independent: changing one later changes no model, and changing a model changes no vector.",
    ["histories", "inputs"], "all models, coordinates, vector layouts; all histories of reads, writes, reuse of vectors and edits up to a depth",
    "The existing tests do not read or write weights as vectors.", A + L + C, [("get_weight and set_weight", "nnj/abstract_jacobian.py")],
    "every coordinate of every model, all histories of 3 (4) operations against a reference store", "explicit-state model checking of read/write histories against a reference store")
prop(
    "C13", "Forward passes and autograd agree with torch's own layers",
    "Every layer and network computes the same output as the torch network of the same configuration and weights, in training and evaluation mode, and torch's automatic differentiation through it gives the true gradients with respect to input and weights. State dictionaries can be exchanged with the torch network where the structure is the same.",
    ["inputs", "configurations", "programs"], "all layer configurations, chains up to a depth, call circumstances",
    "The existing tests never compare outputs with torch's layers.", L + C, [("forward of every layer", "nnj/*.py forward"), ("custom backward of the truncated exponential", "nnj/truncexp.py")],
    "all leaf configurations, chains up to 3 (4) layers, circumstances within 2 deviations", EX)
prop(
    "C14", "Converting a torch network preserves the function, or is refused",
    "Converting any torch chain (nested at will, possibly already containing library layers) gives a model with the same outputs, weights, options and precision whose products are right for that function, and leaves the original as it was. Layers or options without counterpart are refused rather than replaced by something else.",
    ["programs", "configurations"], "all torch chains up to a depth over an alphabet, all single layers of the boxes, foreign layers",
    "The existing tests do not convert networks.", U, [("convert_to_nnj", "nnj/utils.py")],
    "all chains of up to 3 (4) layers over 11+10 templates, all leaf configurations, 22 foreign layers", "exhaustive enumeration of source networks, compared with torch and the dense reference")
prop(
    "C15", "Likelihood values and gradients are those of the stated distribution",
    "For every model, batch and admissible target, each likelihood returns per sample the log density of the target up to a constant that depends on neither target nor model output, and its gradient is the exact derivative of that value with respect to weights or input. Aggregation sums or averages exactly these per-sample quantities over the batch.",
    ["inputs", "configurations"], "three likelihoods, aggregations, targets of all classes incl. soft ones, vector/matrix/image outputs, batches, precisions",
    "The existing tests do not cover the likelihoods.", LL, [("forward and gradient", "nnj/log_likelihoods.py")],
    "21 networks x likelihoods x aggregations x targets x circumstances within 2 (4) deviations", EX)
prop(
    "C16", "GGN matrices are J^T H J with the exact Hessian of the likelihood",
    "For every model and batch, the generalised Gauss-Newton matrix with respect to weights or input is the transposed Jacobian times the Hessian of the log likelihood with respect to the model output times the Jacobian: its diagonal, its per-layer blocks, or the layer-wise diagonal approximation, as chosen. It does not depend on the target, and aggregation sums or averages it over the batch.",
    ["inputs", "configurations"], "three likelihoods, matrix shapes, propagation modes, aggregations, output shapes, batches, precisions",
    "The existing tests do not cover the likelihoods.", LL + C, [("ggn", "nnj/log_likelihoods.py")],
    "21 networks x likelihoods x shapes x modes x aggregations x circumstances within 2 (4) deviations", EX)
prop(
    "C17", "Block-diagonal inversion returns the inverse of every block",
    "Given a positive definite matrix, a batch of them, or any nesting of lists of them, inversion returns the same structure with each matrix replaced by its inverse in the same precision, and leaves the argument alone. A matrix that is not positive definite gives an error or its true inverse.",
    ["inputs"], "all small integer matrices, list nestings, sizes, scales, batches, precisions, curvature blocks of networks",
    "The existing tests do not invert anything.", U, [("invert_block_diagonal", "nnj/utils.py")],
    "all symmetric integer matrices of size 1..3 in a range, all nestings of up to 4 (5) blocks, sizes up to 40", "exhaustive enumeration of small matrices and nestings, product with the block is the identity")
prop(
    "C18", "Structural edits of a chain take effect everywhere at once",
    "After any sequence of edits of a chain (appending, inserting, replacing, removing, slicing, naming, editing nested chains), its output, weight vector, Jacobians and all products are those of a newly built chain with the present layers. The same holds for networks that contain the edited chain and for chains made from it by slicing.",
    ["histories", "programs"], "all edit histories up to a depth from several chains, with and without calls in between",
    "The existing tests never edit a network.", C, [("layer list and parameter count derived on demand", "nnj/sequential.py")],
    "all histories of up to 2 (3) edits from 6 chains, all positions, products after every edit or only at the end", "explicit-state model checking of edit histories on real objects against a reference list")
prop(
    "C19", "Copies of a model are equivalent and independent",
    "A model copied by deep copy, pickling, saving and loading, through its state dictionary or by conversion of precision, at any moment of its life, gives the same outputs and products as the original had, and from then on neither is affected by weight changes to or use of the other.",
    ["histories"], "all histories of copies, uses and weight changes up to a depth",
    "The existing tests never copy a model.", C + L + LL, [("no bound closures or non-leaf state in layers", "nnj/sequential.py")],
    "all histories of 2-3 (3-4) operations over up to 3 live models, for every kind of layer and network", "explicit-state model checking of copy/use/write histories against a reference")
prop(
    "C20", "Threads sharing a model for read-only calls do not disturb each other",
    "When two threads call a model concurrently without changing its weights (forward passes, Jacobians, products, likelihood derivatives, weight reads, on different inputs), each gets the result it would get alone, under every interleaving.",
    ["schedules"], "all pairs of calls, all interleavings at line granularity up to a preemption bound",
    "The existing tests are single threaded.", C + L, [("no shared scratch state during calls", "nnj/sequential.py, nnj/maxpool2d.py")],
    "all schedules with at most 1 (2) preemptions at every executed line, plus strict alternations, for all pairs of 17 calls on 9 (13) models", "stateless model checking of real threads under a controlled scheduler, preemption bounded")
prop(
    "C21", "A custom layer only needs an output, a Jacobian and a parameter count",
    "For any user-written layer that defines just its output, its Jacobian (dense, or as a diagonal) and its number of parameters, all products in all modes are right, alone and inside chains and skip connections, for square and non-square, parametric and non-parametric layers. The Jacobian the layer hands out is never written to.",
    ["programs", "inputs"], "custom layers of every kind x products x modes x circumstances, all chains with library layers up to a depth",
    "The existing tests contain no custom layer.", A + C, [("default products", "nnj/abstract_jacobian.py, nnj/abstract_diagonal_jacobian.py")],
    "12 custom layers x circumstances within 2 (3) deviations, every basis tangent, all chains up to 2 (3) layers", EX)
prop(
    "C22", "What is not implemented is refused, never answered wrongly",
    "For every configuration a layer can be constructed with, and every product, option combination and selector, the answer is either an error or the correct result for that configuration. Unknown selectors and options are never silently taken for known ones.",
    ["configurations"], "all option boxes of convolution, upsampling, pooling and activations x all products; unknown selectors and options",
    "The existing tests use default options only.", ["nnj/conv2d.py", "nnj/upsample.py", "nnj/maxpool2d.py", "nnj/relu.py", "nnj/softplus.py"] + LL + A, [("guards and NotImplementedError", "nnj/conv2d.py, nnj/upsample.py, nnj/maxpool2d.py")],
    "all configurations within 3 (5) deviations over 9 convolution options, all upsampling modes x scales, pooling options", "exhaustive enumeration of configurations against automatic differentiation of the torch layer")
prop(
    "C23", "Results keep the precision of their input",
    "Every output, product, likelihood quantity, weight vector and inverse has the number type of the input (or weights) it was computed from, whatever torch's default type is, and double precision results are accurate to double precision. This holds also after a model was converted to another precision.",
    ["inputs", "configurations"], "both precisions x both defaults x all layers, chains, options",
    "The existing tests only use the default precision and tolerances that single precision meets.", L + C + A + LL + U, [("tensors created with the dtype of the input", "nnj/*.py")],
    "all leaf configurations, chains up to 2 (3) layers, networks, likelihoods, conversions; tolerance 1e-11 in double precision", EX)
prop(
    "C24", "Extreme inputs and saturated outputs give finite, correct results",
    "For inputs and logits of any size that the precision represents (zero, tiny, saturating, very large), outputs, Jacobians, products, likelihood values, gradients and GGNs are finite and correct whenever the true value is representable (for the normalisation layer: whenever the square of the norm is; for Softplus: below the threshold, whenever torch's own output is).",
    ["inputs"], "all words over a list of extreme and ordinary numbers as inputs and logits, both precisions",
    "The existing tests draw inputs from a standard normal distribution.", ["nnj/tanh.py", "nnj/relu.py", "nnj/sigmoid.py", "nnj/softplus.py", "nnj/sinusoidal.py", "nnj/truncexp.py", "nnj/l2norm.py"] + LL, [("stable formulas", "nnj/log_likelihoods.py, nnj/sigmoid.py, nnj/softplus.py")],
    "all words of length 1..2 (3) over 27 numbers, all words of length 3 over 15 logits x all targets", EX)

prop(
    "C25", "Products are plain values: no autograd history, no gradients, no graph kept",
    "Jacobians, products, likelihood quantities and weight vectors are returned without autograd history, whether or not the input, the given output or the tangent require grad or belong to a graph, and with gradient mode on. No call accumulates a gradient in a parameter or in the input, or stops a parameter from being a leaf that requires grad. The output of the forward pass does have autograd history, and once it is dropped the model keeps nothing of the graph alive, also after products were computed. A result that is the argument itself or a view of it is not meant.",
    ["inputs", "configurations"], "all layers, networks, products and modes x which of input, output and tangent belong to a graph",
    "The existing tests never look at the autograd state of a result.", L + C + A + LL, [("torch.no_grad on every product", "nnj/*.py"), ("local intermediate values", "nnj/sequential.py")],
    "all leaf configurations, chains up to 2 (3) layers, networks and likelihoods x every subset of grad-requiring arguments", "exhaustive enumeration of calls and of graph membership of their arguments on the real code; node lifetime observed by weak references")
prop(
    "C26", "Everything is computed and returned on the device of the input",
    "With the model and all arguments on one device that is not the default one, outputs, Jacobians, products with and without matrix, likelihood quantities, weight vectors and inverted blocks are computed without mixing devices and are returned on that device, in the number type and shape they have on the default device. Writing the weights leaves them there.",
    ["configurations", "inputs"], "all layers, networks, products and modes with and without matrix and output, both precisions",
    "The existing tests run on one device only.", L + C + A + LL + U, [("tensors created with the device of the input", "nnj/*.py")],
    "all leaf configurations, chains up to 2 (3) layers, networks, likelihoods; the device is simulated by torch's FakeTensorMode", "exhaustive enumeration of calls executed on the real code with tensors of a simulated second device")

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None),
        )) + "\n")
json.dump(dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[dict(
        property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p["tech"], level="model_checking", level_note=p["note"],
    ) for p in P],
    not_applicable=[],
), open("MANIFEST.json", "w"), indent=1)
