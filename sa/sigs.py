"""Signatures of the tensor operations the analysis models: parameter names after the receiver, and defaults."""
from .terms import NONE, TRUE, FALSE, const

S = {}
def sig(names, params="", **defaults):
    ps = params.split()
    for n in names.split(): S[n] = (ps, defaults)

Z = const(0)
sig("sum mean prod std var nansum", "dim keepdim dtype", dim=NONE, keepdim=FALSE, dtype=NONE)
sig("max min", "dim keepdim", dim=NONE, keepdim=FALSE)
sig("all any", "dim keepdim", dim=NONE, keepdim=FALSE)
sig("argmax argmin amax amin median", "dim keepdim", dim=NONE, keepdim=FALSE)
sig("logsumexp count_nonzero", "dim keepdim", dim=NONE, keepdim=FALSE)
sig("norm", "p dim keepdim dtype", p=const("fro"), dim=NONE, keepdim=FALSE, dtype=NONE)
sig("normalize", "p dim eps", p=const(2.0), dim=const(1), eps=const(1e-12))
sig("cat stack", "dim", dim=Z)
sig("hstack vstack dstack", "")
sig("transpose swapaxes", "dim0 dim1")
sig("unsqueeze", "dim")
sig("squeeze", "dim", dim=NONE)
sig("flatten", "start_dim end_dim", start_dim=Z, end_dim=const(-1))
sig("clamp clip", "min max", min=NONE, max=NONE)
sig("index_select", "dim index")
sig("gather take_along_dim", "dim index")
sig("cross", "other dim", dim=NONE)
sig("cumsum cumprod", "dim")
sig("sort", "dim descending", dim=const(-1), descending=FALSE)
sig("argsort", "dim descending", dim=const(-1), descending=FALSE)
sig("topk", "k dim largest sorted", dim=const(-1), largest=TRUE, sorted=TRUE)
sig("unique", "sorted return_inverse return_counts dim", sorted=TRUE, return_inverse=FALSE, return_counts=FALSE, dim=NONE)
sig("nonzero", "as_tuple", as_tuple=FALSE)
sig("flip", "dims")
sig("chunk", "chunks dim", dim=Z)
sig("unbind", "dim", dim=Z)
sig("masked_fill", "mask value")
sig("masked_select", "mask")
sig("diagonal", "offset dim1 dim2", offset=Z, dim1=Z, dim2=const(1))
sig("tril triu", "diagonal", diagonal=Z)
sig("round floor ceil abs sqrt rsqrt exp log log2 log10 sin cos tan asin acos atan sinh cosh tanh sigmoid sign reciprocal square relu isnan isinf isfinite neg logical_not bitwise_not trace det inverse pinverse t contiguous float double half long int bool cpu byte short item tolist numpy erf")
sig("atan2 eq ne lt le gt ge minimum maximum fmod remainder", "other")
sig("add sub mul div true_divide floor_divide pow matmul mm bmm mv dot outer ger logical_and logical_or logical_xor bitwise_and bitwise_or", "other")
sig("roll", "shifts dims", dims=NONE)
sig("softmax log_softmax", "dim")
sig("repeat_interleave", "repeats dim", dim=NONE)
sig("where", "x y")
sig("split", "split_size dim", dim=Z)
sig("narrow", "dim start length")
sig("pad", "pad mode value", mode=const("constant"), value=Z)
sig("detach clone", "")
sig("type", "dtype", dtype=NONE)
sig("to", "")
sig("cuda", "device", device=NONE)
sig("type_as view_as expand_as", "other")
sig("addmm", "mat1 mat2")
sig("baddbmm", "batch1 batch2")
sig("lerp", "end weight")
sig("solve", "A")
sig("triangular_solve", "A upper", upper=TRUE)
sig("zeros_like ones_like empty_like rand_like randn_like", "dtype device requires_grad", dtype=NONE, device=NONE, requires_grad=FALSE)
sig("full_like", "fill_value dtype device requires_grad", dtype=NONE, device=NONE, requires_grad=FALSE)
sig("index_fill index_copy index_add", "dim index value")
sig("scatter scatter_add", "dim index src")
sig("index_put", "indices values accumulate", accumulate=FALSE)
sig("element_size storage data_ptr is_floating_point is_contiguous")
sig("copy", "src")
sig("nan_to_num", "nan", nan=const(0.0))

CREATE = {"zeros": "size", "ones": "size", "empty": "size", "rand": "size", "randn": "size", "full": "size fill_value", "eye": "n m", "arange": "start end step", "linspace": "start end steps",
          "tensor": "data", "as_tensor": "data", "randperm": "n", "randint": "low high size"}
CREATE_KW = ("dtype", "device", "requires_grad")
