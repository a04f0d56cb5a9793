# Library classes as seen by the analysis.  Interpreted, never executed.
import torch
import torch.nn.functional as F
import math
from collections import OrderedDict


class Tensor:
    pass


class Module:
    def __init__(self, *args, **kwargs):
        self._parameters = {}
        self._buffers = {}
        self._modules = {}
        self.training = torch._training_()

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)

    def forward(self, *args, **kwargs):
        raise NotImplementedError("forward")

    def register_parameter(self, name, param):
        if param is None:
            self._parameters[name] = None
        else:
            self._parameters[name] = param

    def register_buffer(self, name, tensor, persistent=True):
        self._buffers[name] = tensor

    def add_module(self, name, module):
        self._modules[name] = module

    def register_module(self, name, module):
        self._modules[name] = module

    def named_modules(self, memo=None, prefix="", remove_duplicate=True):
        out = []
        seen = []
        _collect(self, prefix, out, seen)
        return out

    def modules(self):
        return [m for n, m in self.named_modules()]

    def named_children(self):
        return [(n, m) for n, m in self._modules.items() if m is not None]

    def children(self):
        return [m for n, m in self._modules.items() if m is not None]

    def named_parameters(self, prefix="", recurse=True, remove_duplicate=True):
        out = []
        seen = []
        mods = self.named_modules(prefix=prefix) if recurse else [(prefix, self)]
        for n, m in mods:
            for k, p in m._parameters.items():
                if p is not None:
                    if not any([q is p for q in seen]):
                        seen.append(p)
                        out.append(((n + "." + k) if n else k, p))
        return out

    def parameters(self, recurse=True):
        return [p for n, p in self.named_parameters(recurse=recurse)]

    def named_buffers(self, prefix="", recurse=True, remove_duplicate=True):
        out = []
        mods = self.named_modules(prefix=prefix) if recurse else [(prefix, self)]
        for n, m in mods:
            for k, p in m._buffers.items():
                if p is not None:
                    out.append(((n + "." + k) if n else k, p))
        return out

    def buffers(self, recurse=True):
        return [p for n, p in self.named_buffers(recurse=recurse)]

    def state_dict(self, *args, **kwargs):
        d = {}
        for n, p in self.named_parameters():
            d[n] = p.data
        for n, p in self.named_buffers():
            d[n] = p
        return d

    def load_state_dict(self, sd, strict=True):
        for n, p in self.named_parameters():
            p.data.copy_(sd[n])

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, requires_grad=True):
        for p in self.parameters():
            p.requires_grad_(requires_grad)
        return self

    def to(self, *args, **kwargs):
        _move(self, args, kwargs)
        return self

    def cuda(self, *args):
        _move(self, ("cuda",), {})
        return self

    def cpu(self):
        _move(self, ("cpu",), {})
        return self

    def float(self):
        _move(self, (torch.float32,), {})
        return self

    def double(self):
        _move(self, (torch.float64,), {})
        return self

    def type(self, t):
        return self

    def apply(self, fn):
        for m in self.children():
            m.apply(fn)
        fn(self)
        return self

    def zero_grad(self, set_to_none=True):
        return None

    def extra_repr(self):
        return ""

    def get_submodule(self, target):
        m = self
        for p in target.split("."):
            m = m._modules[p]
        return m

    def get_parameter(self, target):
        return dict(self.named_parameters())[target]

    def register_forward_hook(self, *a, **k):
        _unsupported("forward hooks")

    def register_forward_pre_hook(self, *a, **k):
        _unsupported("forward hooks")

    def register_full_backward_hook(self, *a, **k):
        _unsupported("backward hooks")


def _collect(m, prefix, out, seen):
    if any([q is m for q in seen]):
        return
    seen.append(m)
    out.append((prefix, m))
    for k, c in m._modules.items():
        if c is not None:
            _collect(c, (prefix + "." + k) if prefix else k, out, seen)


class LazyModuleMixin:
    pass


class Identity(Module):
    def __init__(self, *args, **kwargs):
        super().__init__()

    def forward(self, input):
        return input


class Sequential(Module):
    def __init__(self, *args):
        super().__init__()
        if len(args) == 1 and isinstance(args[0], dict):
            for k, m in args[0].items():
                self.add_module(k, m)
        else:
            for i, m in enumerate(args):
                if not _is_module(m):
                    raise TypeError("not a Module subclass")
                self.add_module(str(i), m)

    def forward(self, input):
        for m in self._modules.values():
            input = m(input)
        return input

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return list(self._modules.values())

    def __getitem__(self, i):
        vals = list(self._modules.values())
        if isinstance(i, slice):
            return Sequential(*vals[i])
        return vals[i]

    def append(self, m):
        self.add_module(str(len(self._modules)), m)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        if modules is not None:
            self.extend(modules)

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return list(self._modules.values())

    def __getitem__(self, i):
        vals = list(self._modules.values())
        if isinstance(i, slice):
            return ModuleList(vals[i])
        return vals[i]

    def __setitem__(self, i, m):
        if i < 0:
            i = i + len(self._modules)
        self._modules[str(i)] = m

    def append(self, m):
        if not _is_module(m):
            raise TypeError("not a Module subclass")
        self.add_module(str(len(self._modules)), m)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def insert(self, i, m):
        vals = list(self._modules.values())
        vals.insert(i, m)
        for k, v in enumerate(vals):
            self._modules[str(k)] = v


class ModuleDict(Module):
    def __init__(self, modules=None):
        super().__init__()
        if modules is not None:
            self.update(modules)

    def update(self, modules):
        for k, m in dict(modules).items():
            self.add_module(k, m)

    def __getitem__(self, k):
        return self._modules[k]

    def __setitem__(self, k, m):
        self.add_module(k, m)

    def __len__(self):
        return len(self._modules)

    def __contains__(self, k):
        return k in self._modules

    def __iter__(self):
        return list(self._modules.keys())

    def keys(self):
        return self._modules.keys()

    def values(self):
        return self._modules.values()

    def items(self):
        return self._modules.items()


class ParameterList(Module):
    def __init__(self, values=None):
        super().__init__()
        self._n = 0
        if values is not None:
            for v in values:
                self.append(v)

    def append(self, p):
        if not _is_param(p):
            p = torch.nn.Parameter(p)
        self._parameters[str(len(self._parameters))] = p
        return self

    def __len__(self):
        return len(self._parameters)

    def __iter__(self):
        return list(self._parameters.values())

    def __getitem__(self, i):
        return list(self._parameters.values())[i]


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = torch.nn.Parameter(_uninit(out_features, in_features, device=device))
        if bias:
            self.bias = torch.nn.Parameter(_uninit(out_features, device=device))
        else:
            self.register_parameter("bias", None)

    def reset_parameters(self):
        return None

    def forward(self, input):
        return F.linear(input, self.weight, self.bias)


class LazyLinear(Module):
    def __init__(self, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = 0
        self.out_features = out_features
        self._use_bias = bias
        self._ready = False

    def forward(self, input):
        if not self._ready:
            self._ready = True
            self.in_features = input.shape[-1]
            self.weight = torch.nn.Parameter(_uninit(self.out_features, self.in_features, device="?"))
            if self._use_bias:
                self.bias = torch.nn.Parameter(_uninit(self.out_features, device="?"))
            else:
                self.register_parameter("bias", None)
        return F.linear(input, self.weight, self.bias)


class Bilinear(Module):
    def __init__(self, *a, **k):
        _unsupported("Bilinear")


def _tup(v, n):
    if isinstance(v, (tuple, list)):
        return tuple(v)
    return (v,) * n


class _Conv(Module):
    def __init__(self, nd, transposed, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, output_padding, device=None):
        super().__init__()
        if isinstance(groups, int) and groups <= 0:
            raise ValueError("groups must be a positive integer")
        self.in_channels = in_channels
        self.out_channels = out_channels
        self.kernel_size = _tup(kernel_size, nd)
        self.stride = _tup(stride, nd)
        self.padding = padding if isinstance(padding, str) else _tup(padding, nd)
        self.dilation = _tup(dilation, nd)
        self.groups = groups
        self.padding_mode = padding_mode
        self.output_padding = _tup(output_padding, nd)
        if in_channels % groups != 0:
            raise ValueError("in_channels must be divisible by groups")
        if out_channels % groups != 0:
            raise ValueError("out_channels must be divisible by groups")
        if transposed:
            self.weight = torch.nn.Parameter(_uninit(in_channels, out_channels // groups, *self.kernel_size, device=device))
        else:
            self.weight = torch.nn.Parameter(_uninit(out_channels, in_channels // groups, *self.kernel_size, device=device))
        if bias:
            self.bias = torch.nn.Parameter(_uninit(out_channels, device=device))
        else:
            self.register_parameter("bias", None)

    def reset_parameters(self):
        return None


class Conv1d(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__(1, False, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, 0, device)

    def forward(self, input):
        if self.padding_mode != "zeros":
            _unsupported("padding mode")
        return F.conv1d(input, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups)


class Conv2d(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__(2, False, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, 0, device)

    def forward(self, input):
        if self.padding_mode != "zeros":
            _unsupported("padding mode")
        return F.conv2d(input, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups)


class Conv3d(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__(3, False, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, 0, device)

    def forward(self, input):
        return F.conv3d(input, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups)


class ConvTranspose1d(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode="zeros", device=None, dtype=None):
        super().__init__(1, True, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, output_padding, device)

    def forward(self, input, output_size=None):
        return F.conv_transpose1d(input, self.weight, self.bias, self.stride, self.padding, self.output_padding, self.groups, self.dilation)


class ConvTranspose2d(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode="zeros", device=None, dtype=None):
        super().__init__(2, True, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, output_padding, device)

    def forward(self, input, output_size=None):
        return F.conv_transpose2d(input, self.weight, self.bias, self.stride, self.padding, self.output_padding, self.groups, self.dilation)


class ConvTranspose3d(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode="zeros", device=None, dtype=None):
        super().__init__(3, True, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, output_padding, device)

    def forward(self, input, output_size=None):
        return F.conv_transpose3d(input, self.weight, self.bias, self.stride, self.padding, self.output_padding, self.groups, self.dilation)


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        super().__init__()
        self.p = p

    def forward(self, input):
        return F.dropout(input, self.p, self.training)


class Dropout2d(Dropout):
    pass


class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()

    def forward(self, input):
        return F.relu(input)


class LeakyReLU(Module):
    def __init__(self, negative_slope=0.01, inplace=False):
        super().__init__()
        self.negative_slope = negative_slope

    def forward(self, input):
        return F.leaky_relu(input, self.negative_slope)


class ELU(Module):
    def __init__(self, alpha=1.0, inplace=False):
        super().__init__()
        self.alpha = alpha

    def forward(self, input):
        return F.elu(input, self.alpha)


class GELU(Module):
    def __init__(self, approximate="none"):
        super().__init__()

    def forward(self, input):
        return F.gelu(input)


class SiLU(Module):
    def __init__(self, inplace=False):
        super().__init__()

    def forward(self, input):
        return F.silu(input)


class Tanh(Module):
    def forward(self, input):
        return torch.tanh(input)


class Sigmoid(Module):
    def forward(self, input):
        return torch.sigmoid(input)


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.dim = dim

    def forward(self, input):
        return F.softmax(input, dim=self.dim)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.start_dim = start_dim
        self.end_dim = end_dim

    def forward(self, input):
        return input.flatten(self.start_dim, self.end_dim)


class Unflatten(Module):
    def __init__(self, dim, unflattened_size):
        super().__init__()
        self.dim = dim
        self.unflattened_size = unflattened_size

    def forward(self, input):
        return input.unflatten(self.dim, self.unflattened_size)


class AdaptiveAvgPool1d(Module):
    def __init__(self, output_size):
        super().__init__()
        self.output_size = output_size

    def forward(self, input):
        return F.adaptive_avg_pool1d(input, self.output_size)


class AdaptiveAvgPool2d(Module):
    def __init__(self, output_size):
        super().__init__()
        self.output_size = output_size

    def forward(self, input):
        return F.adaptive_avg_pool2d(input, self.output_size)


class AdaptiveAvgPool3d(Module):
    def __init__(self, output_size):
        super().__init__()
        self.output_size = output_size

    def forward(self, input):
        return F.adaptive_avg_pool3d(input, self.output_size)


class MaxPool1d(Module):
    def __init__(self, kernel_size, stride=None, padding=0):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride
        self.padding = padding

    def forward(self, input):
        return F.max_pool1d(input, self.kernel_size, self.stride, self.padding)


class MaxPool2d(Module):
    def __init__(self, kernel_size, stride=None, padding=0):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride
        self.padding = padding

    def forward(self, input):
        return F.max_pool2d(input, self.kernel_size, self.stride, self.padding)


class AvgPool1d(Module):
    def __init__(self, kernel_size, stride=None, padding=0):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride
        self.padding = padding

    def forward(self, input):
        return F.avg_pool1d(input, self.kernel_size, self.stride, self.padding)


class AvgPool2d(Module):
    def __init__(self, kernel_size, stride=None, padding=0):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride
        self.padding = padding

    def forward(self, input):
        return F.avg_pool2d(input, self.kernel_size, self.stride, self.padding)


class Upsample(Module):
    def __init__(self, size=None, scale_factor=None, mode="nearest", align_corners=None):
        super().__init__()
        self.size = size
        self.scale_factor = scale_factor
        self.mode = mode

    def forward(self, input):
        return F.interpolate(input, self.size, self.scale_factor, self.mode)


class _BatchNorm(Module):
    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, device=None, dtype=None):
        super().__init__()
        self.num_features = num_features
        self.eps = eps
        self.momentum = momentum
        self.affine = affine
        self.track_running_stats = track_running_stats
        if num_features:
            self._make(num_features, device)

    def _make(self, n, device="?"):
        if self.affine:
            self.weight = torch.nn.Parameter(torch.ones(n, device=device))
            self.bias = torch.nn.Parameter(torch.zeros(n, device=device))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)
        if self.track_running_stats:
            self.register_buffer("running_mean", torch.zeros(n, device=device))
            self.register_buffer("running_var", torch.ones(n, device=device))
        else:
            self.register_buffer("running_mean", None)
            self.register_buffer("running_var", None)

    def forward(self, input):
        if not self.num_features:
            self.num_features = input.shape[1]
            self._make(self.num_features)
        return F.batch_norm(input, self.running_mean, self.running_var, self.weight, self.bias,
                            self.training or not self.track_running_stats, self.momentum, self.eps)


class BatchNorm1d(_BatchNorm):
    def forward(self, input):
        if input.dim() != 2 and input.dim() != 3:
            raise ValueError("expected 2D or 3D input")
        return super().forward(input)


class BatchNorm2d(_BatchNorm):
    def forward(self, input):
        if input.dim() != 4:
            raise ValueError("expected 4D input")
        return super().forward(input)


class BatchNorm3d(_BatchNorm):
    pass


class LazyBatchNorm1d(BatchNorm1d):
    def __init__(self, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, device=None, dtype=None):
        super().__init__(0, eps, momentum, affine, track_running_stats)


class LazyBatchNorm2d(BatchNorm2d):
    def __init__(self, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, device=None, dtype=None):
        super().__init__(0, eps, momentum, affine, track_running_stats)


class LazyBatchNorm3d(BatchNorm3d):
    def __init__(self, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, device=None, dtype=None):
        super().__init__(0, eps, momentum, affine, track_running_stats)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True, bias=True, device=None, dtype=None):
        super().__init__()
        self.normalized_shape = tuple(normalized_shape) if isinstance(normalized_shape, (tuple, list)) else (normalized_shape,)
        self.eps = eps
        self.elementwise_affine = elementwise_affine
        if elementwise_affine:
            self.weight = torch.nn.Parameter(torch.ones(*self.normalized_shape, device=device))
            if bias:
                self.bias = torch.nn.Parameter(torch.zeros(*self.normalized_shape, device=device))
            else:
                self.register_parameter("bias", None)
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def reset_parameters(self):
        return None

    def forward(self, input):
        return F.layer_norm(input, self.normalized_shape, self.weight, self.bias, self.eps)


class Embedding(Module):
    def __init__(self, num_embeddings, embedding_dim, *args, **kwargs):
        super().__init__()
        self.num_embeddings = num_embeddings
        self.embedding_dim = embedding_dim
        self.weight = torch.nn.Parameter(_uninit(num_embeddings, embedding_dim))

    def forward(self, input):
        return F.embedding(input, self.weight)


class MSELoss(Module):
    def __init__(self, size_average=None, reduce=None, reduction="mean"):
        super().__init__()
        self.reduction = reduction

    def forward(self, input, target):
        return F.mse_loss(input, target, reduction=self.reduction)


class L1Loss(Module):
    def __init__(self, size_average=None, reduce=None, reduction="mean"):
        super().__init__()
        self.reduction = reduction

    def forward(self, input, target):
        return F.l1_loss(input, target, reduction=self.reduction)


class CrossEntropyLoss(Module):
    def __init__(self, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0):
        super().__init__()
        self.weight = weight
        self.ignore_index = ignore_index
        self.reduction = reduction
        self.label_smoothing = label_smoothing

    def forward(self, input, target):
        return F.cross_entropy(input, target, weight=self.weight, ignore_index=self.ignore_index, reduction=self.reduction,
                               label_smoothing=self.label_smoothing)


class Optimizer:
    def __init__(self, params, defaults):
        self.defaults = defaults
        self.state = _State()
        self.param_groups = []
        params = list(params)
        if len(params) == 0:
            raise ValueError("optimizer got an empty parameter list")
        if not isinstance(params[0], dict):
            params = [{"params": params}]
        for g in params:
            self.add_param_group(g)

    def add_param_group(self, group):
        g = dict(group)
        ps = g["params"]
        if _is_tensor(ps):
            ps = [ps]
        g["params"] = list(ps)
        for k, v in self.defaults.items():
            if k not in g:
                g[k] = v
        self.param_groups.append(g)

    def zero_grad(self, set_to_none=True):
        for g in self.param_groups:
            for p in g["params"]:
                p.grad = None

    def state_dict(self):
        return {"state": self.state, "param_groups": self.param_groups}


class _State:
    def __init__(self):
        self._k = []
        self._v = []

    def __getitem__(self, p):
        for k, v in zip(self._k, self._v):
            if k is p:
                return v
        d = {}
        self._k.append(p)
        self._v.append(d)
        return d

    def __setitem__(self, p, d):
        for i in range(len(self._k)):
            if self._k[i] is p:
                self._v[i] = d
                return
        self._k.append(p)
        self._v.append(d)

    def __contains__(self, p):
        for k in self._k:
            if k is p:
                return True
        return False

    def __len__(self):
        return len(self._k)


class _LibOptimizer(Optimizer):
    def __init__(self, params, lr=1e-3, **kwargs):
        d = dict(kwargs)
        d["lr"] = lr
        super().__init__(params, d)


class Adam(_LibOptimizer):
    pass


class AdamW(_LibOptimizer):
    pass


class SGD(_LibOptimizer):
    pass


class LBFGS(_LibOptimizer):
    pass


class RMSprop(_LibOptimizer):
    pass


class Lion(_LibOptimizer):
    pass


class ReduceLROnPlateau:
    def __init__(self, optimizer, mode="min", factor=0.1, patience=10, threshold=1e-4, threshold_mode="rel", cooldown=0, min_lr=0, eps=1e-8):
        self.optimizer = optimizer
        self.mode = mode
        self.factor = factor
        self.patience = patience
        self.threshold = threshold
        self.min_lr = min_lr


class CosineAnnealingLR:
    def __init__(self, optimizer, T_max, eta_min=0.0, last_epoch=-1):
        self.optimizer = optimizer


class StepLR:
    def __init__(self, optimizer, step_size, gamma=0.1, last_epoch=-1):
        self.optimizer = optimizer
        self.step_size = step_size
        self.gamma = gamma


class ExponentialLR:
    def __init__(self, optimizer, gamma, last_epoch=-1):
        self.optimizer = optimizer
        self.gamma = gamma


class Namespace:
    pass


class LightningModule(Module):
    device = "cpu"

    def __init__(self, *args, **kwargs):
        super().__init__()
        self.logged = []

    def log(self, name, value, **kwargs):
        self.logged.append((name, value))

    def log_dict(self, d, **kwargs):
        for k, v in d.items():
            self.logged.append((k, v))

    def save_hyperparameters(self, *args, **kwargs):
        return None

    def print(self, *args, **kwargs):
        return None


class Accuracy(Module):
    def __init__(self, *args, **kwargs):
        super().__init__()
        self.options = kwargs

    def forward(self, preds, target):
        return _unsupported("Accuracy metric")
