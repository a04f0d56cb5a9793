# behaviour preserving edits, in groups
f = "Basis.py"
edit("A", f, '''        mat = []
        for j in range(self.n):
            basis_j = self.basis(x, j)
            mat.append(basis_j)

        return torch.stack(mat)
''', '''        return torch.stack([self.basis(x, k) for k in range(self.n)], dim=0)
''')
OLD_SEG = '''        id_min = (((x + self._half) / self._length) * self._segments).long()
        device = x.device
        id_min = torch.where(
            id_min <= self._segments - 1,
            id_min,
            torch.tensor(self._segments - 1, device=device),
        )
        id_min = torch.where(id_min >= 0, id_min, torch.tensor(0, device=device))
        id_max = id_min + 1
'''
edit("A", f, OLD_SEG, '''        device = x.device
        id_min = self._segment(x)
        id_max = id_min + 1
''', 3)
edit("A", f, '''    def _eta(self, index: Tensor) -> Tensor:
        """
        Arg:
            - index is the segment index
        """
        eta = index / float(self._segments)
        return eta * self._length - self._half
''', '''    def _segment(self, x: Tensor) -> Tensor:
        position = (x + self._half) * (self._segments / self._length)
        return position.floor().clamp(min=0, max=self._segments - 1).long()

    def _eta(self, index: Tensor) -> Tensor:
        return self._length * (index / self._segments) - self._half
''', 3)
edit("A", f, '''    def _eta(self, index: int):
        """
        Arg:
            - index is the segment index
        """
        eta = index / float(self._segments)
        return eta * self._length - self._half
''', '''    def _segment(self, x: Tensor) -> Tensor:
        position = (x + self._half) / self._length * self._segments
        return torch.clamp(position.to(torch.int64), 0, self._segments - 1)

    def _eta(self, index: int):
        return index * self._length / self._segments - self._half
''')
edit("A", f, '''        mat_trans[windex, wrange.view(-1)] = out.flatten()
''', '''        mat_trans.scatter_(1, wrange, out.reshape(-1, self._n))
''', 4)
edit("A", f, '''        out_sum = torch.einsum("ijk,lki->jl", basis, w)

        return out_sum


# class''', '''        batch = x.shape[0]
        flat = basis.permute(1, 2, 0).reshape(batch, -1)
        return flat @ w.reshape(w.shape[0], -1).T


# class''')
edit("A", f, '''        out_sum = torch.einsum("ijk,jkli->jl", mat, w)

        return out_sum
''', '''        weighted = mat.permute(1, 2, 0).unsqueeze(2) * w
        return weighted.sum(dim=(1, 3))
''')
edit("A", f, '''        assemble = torch.einsum("ijk,lki->jlk", basis, w)
        this_sum = torch.sum(assemble, dim=2)

        assemble = assemble + 1

        # Compute sum and product at output
        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum

        return out_prod
''', '''        terms = torch.einsum("ijk,lki->jlk", basis, w)
        linear = (1 - self.alpha) * terms.sum(-1)
        return (terms + 1).prod(-1) - (1 + linear)
''')
f = "LagrangePolynomial.py"
edit("A", f, '''        denom = torch.ones((self.n, self.n), dtype=torch.float32)
        for j in range(self.n):
            for m in range(self.n):
                if m != j:
                    denom[j, m] = self.X[j] - self.X[m]
        return denom
''', '''        difference = self.X.unsqueeze(1) - self.X.unsqueeze(0)
        return difference + torch.eye(self.n, dtype=torch.float32)
''')
edit("A", f, '''        if j == 0:
            return 0.5 + 0.0 * x

        i = (j + 1) // 2
        if j % 2 == 0:
            ans = torch.cos(2.0 * math.pi * i * x / self.length)
        else:
            ans = torch.sin(2.0 * math.pi * i * x / self.length)
        return ans
''', '''        if j > 0:
            angle = x * (2.0 * math.pi * ((j + 1) // 2) / self.length)
            return torch.sin(angle) if j % 2 else torch.cos(angle)
        return torch.zeros_like(x) * x + 0.5
''')
edit("A", f, '''        b = torch.where(
            torch.arange(self.n, device=device) != j,
            x_diff / self.denominators[j].to(device),
            torch.tensor(1.0, device=device),
        )
        ans = torch.prod(b, dim=-1)
        return ans
''', '''        ratio = x_diff / self.denominators[j].to(device)
        other = torch.arange(self.n, device=device) == j
        return ratio.masked_fill(other, 1.0).prod(-1)
''')
# ---- B: the same functions in other ways, dense layers
f = "LagrangePolynomial.py"
edit("B", f, '''        x_diff = x.unsqueeze(-1) - self.X.to(device)  # Ensure broadcasting
        b = torch.where(
            torch.arange(self.n, device=device) != j,
            x_diff / self.denominators[j].to(device),
            torch.tensor(1.0, device=device),
        )
        ans = torch.prod(b, dim=-1)
        return ans
''', '''        ans = torch.ones_like(x)
        for m in range(self.n):
            if m == j:
                continue
            ans = ans * (x - self.X[m].to(device)) / self.denominators[j, m].to(device)
        return ans
''')
edit("B", f, '''    if n == 1:
        return torch.tensor([0.0])

    return -torch.cos(torch.pi * torch.arange(n) / (n - 1))
''', '''    if n > 1:
        step = math.pi / (n - 1)
        return torch.cos(torch.arange(n) * step).neg()
    return torch.zeros(1)
''')
edit("B", f, '''        b_list = []
        device = x.device
''', '''        product = None
        device = x.device
''')
edit("B", f, '''            b_list.append(torch.prod(b, dim=-1))  # [num_basis, batch, inputs]

        return torch.prod(torch.stack(b_list), dim=0)  # [num_basis, batch, inputs]
''', '''            along = torch.prod(b, dim=-1)
            product = along if product is None else product * along

        return product
''')
edit("B", f, '''        ranges = [torch.arange(ni) for ni in self.n]
        meshgrid = torch.stack(torch.meshgrid(ranges, indexing="ij"))
        return meshgrid.reshape(self.dimensions, -1).T.long().to(self.device)
''', '''        ranges = [torch.arange(ni) for ni in self.n]
        grids = torch.meshgrid(*ranges, indexing="ij")
        return torch.stack([g.flatten() for g in grids], dim=-1).to(self.device)
''')
f = "PolynomialLayers.py"
SEG = '''        id_min = (
            (((x + self._half) / self._length) * self._segments)
            .long()
            .clamp(0, self._segments - 1)
        )
'''
edit("B", f, '''        # get the segment index
''' + SEG + '''        id_max = id_min + 1

        # determine which weights are active
        wid_min = (id_min * (self._n - 1)).long()

        # Fill in the ranges
        wrange = (
            wid_min.unsqueeze(-1) + torch.arange(self._n, device=x.device)
        ).flatten()
        windex = (
            torch.div(
                torch.arange(wrange.numel(), device=x.device),
                self._n,
                rounding_mode="floor",
            )
            % self.in_features
        )

        w = (
            self.w[:, windex, wrange]
            .view(self.out_features, -1, self.in_features, self._n)
            .permute(1, 2, 0, 3)
        )

        # get the range of x in this segment
        x_min = self._eta(id_min)
        x_max = self._eta(id_max)

        # rescale to -1 to +1
        x_in = self._length * ((x - x_min) / (x_max - x_min)) - self._half

        result = self._poly.interpolate(x_in, w)
        return result
''', '''        u = (x + self._half) / self._length * self._segments
        segment = u.clamp(0, self._segments - 1).long()
        x_in = self.x_local(x, segment)
        w = self._active_weights(segment * (self._n - 1))
        return self._poly.interpolate(x_in, w)

    def _active_weights(self, first):
        nodes = first.unsqueeze(-1) + torch.arange(self._n, device=first.device)
        feature = torch.arange(self.in_features, device=first.device).view(1, -1, 1)
        return self.w[:, feature, nodes].permute(1, 2, 0, 3)
''')
edit("B", f, '''        wrange = (
            wid_min.unsqueeze(-1) + torch.arange(self._n, device=x.device)
        ).flatten()
        windex = (
            torch.div(
                torch.arange(wrange.numel(), device=x.device),
                self._n,
                rounding_mode="floor",
            )
            % self.in_features
        )

        w = (
            self.w[:, windex, wrange]
            .view(self.out_features, -1, self.in_features, self._n)
            .permute(1, 2, 0, 3)
        )

        x_min = self._eta(id_min)
        x_max = self._eta(id_max)

        x_in = self._length * ((x - x_min) / (x_max - x_min)) - self._half

        return self._poly.interpolate(x_in, w)
''', '''        per_segment = self.w.reshape(self.out_features, self.in_features, self._segments, self._n)
        feature = torch.arange(self.in_features, device=x.device).expand(x.shape[0], -1)
        w = per_segment[:, feature, id_min].permute(1, 2, 0, 3)

        width = self._length / self._segments
        x_in = self._length * (x - self._eta(id_min)) / width - self._half

        return self._poly.interpolate(x_in, w)
''')
edit("B", f, '''        for dim in range(self.dimensions):
            flat_indices += segment_indices[..., dim] * math.prod(
                self.segments[dim + 1 :]
            )
''', '''        for dim, count in enumerate(self.segments):
            flat_indices = flat_indices * count + segment_indices[..., dim]
''')
edit("B", f, '''        left = layer.w[:, :, (n - 1) : -1 : n]
        right = layer.w[:, :, n::n]
        diff = left - right
        layer.w[:, :, (n - 1) : -1 : n] = left - 0.5 * factor * diff
        layer.w[:, :, n::n] = right + 0.5 * factor * diff
''', '''        w = layer.w
        before = w.clone()
        for edge in range(n, w.shape[2], n):
            gap = (before[:, :, edge - 1] - before[:, :, edge]) * (factor / 2)
            w[:, :, edge - 1] -= gap
            w[:, :, edge] += gap
''')
edit("B", f, '''    random_values = (
        torch.rand(out_features, in_features, device=device)
        * weight_magnitude
        / in_features
    )

    # Expand the random values to match the third dimension
    with torch.no_grad():
        w.copy_(random_values.unsqueeze(2).expand(-1, -1, w.size(2)))
''', '''    scale = weight_magnitude / in_features
    constants = scale * torch.rand(out_features, in_features, 1, device=device)
    with torch.no_grad():
        w[:] = constants
''')
edit("B", f, '''                    w = w_in[
                        inputs,
                        outputs,
                        i * (n_in + offset) : (i + 1) * (n_in + offset) + end,
                    ].reshape(1, 1, 1, -1)
                    w_b = poly_in.interpolate(x_out, w)
                    w_out[
                        inputs,
                        outputs,
                        i * (n_out + offset) : (i + 1) * (n_out + offset) + end,
                    ] = w_b.flatten()
''', '''                    start_in = i * (n_in + offset)
                    start_out = i * (n_out + offset)
                    w = w_in[inputs, outputs, start_in : start_in + n_in]
                    w_b = poly_in.interpolate(x_out, w.view(1, 1, 1, n_in))
                    w_out[inputs, outputs, start_out : start_out + n_out] = w_b[:, 0]
''')
f = "utils.py"
edit("B", f, '''    xp = x + 0.5 * periodicity
    xp = torch.remainder(xp, 2 * periodicity)  # always positive
    xp = torch.where(xp > periodicity, 2 * periodicity - xp, xp)
    xp = xp - 0.5 * periodicity
    return xp
''', '''    half = periodicity / 2
    wrapped = (x + half) % (2 * periodicity)
    folded = torch.minimum(wrapped, 2 * periodicity - wrapped)
    return folded - half
''')
edit("B", f, '''    return torch.max(x.abs(), dim=dim, keepdim=True)[0]
''', '''    return x.abs().amax(dim=dim, keepdim=True)
''')
edit("B", f, '''    max_x = torch.max(x, dim=len(x.shape) - 1, keepdim=True)[0]
    min_x = torch.min(x, dim=len(x.shape) - 1, keepdim=True)[0]

    midrange = 0.5 * (max_x + min_x)
    mag = max_x - midrange

    centered = x - midrange
    return centered / (mag + eps)
''', '''    return max_center_normalization(x, eps, dim=x.dim() - 1)
''')
edit("B", f, '''    max_x = torch.max(x, dim=dim, keepdim=True)[0]
    min_x = torch.min(x, dim=dim, keepdim=True)[0]

    midrange = 0.5 * (max_x + min_x)
    mag = max_x - midrange

    centered = x - midrange
    return centered / (mag + eps)
''', '''    high = x.max(dim, keepdim=True).values
    low = x.min(dim, keepdim=True).values
    return (x - (high + low) / 2) / ((high - low) / 2 + eps)
''')
edit("B", f, '''    return x / (x.norm(2, 1, keepdim=True) + eps)
''', '''    length = x.pow(2).sum(dim=1, keepdim=True).sqrt()
    return x / (length + eps)
''')
edit("B", "ProductLayer.py", '''        assemble = torch.einsum("ij,kj->ijk", x, self.weight)
        this_sum = torch.sum(assemble, dim=1)
        assemble = assemble + 1.0
        assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
        assemble = assemble - 1
        if self.bias is not None:
            assemble = assemble + self.bias

        return assemble
''', '''        terms = x.unsqueeze(1) * self.weight.unsqueeze(0)
        result = (1.0 + terms).prod(dim=2) - 1.0 - (1.0 - self.alpha) * F.linear(x, self.weight)
        return result if self.bias is None else result + self.bias
''')
edit("B", "ProductLayer.py", '''import torch
from torch import Tensor
''', '''import torch
import torch.nn.functional as F
from torch import Tensor
''')
# ---- C: layers, networks, modules
f = "layers.py"
edit("C", f, '''        x_all = [layer(x) for layer in self._layer_list]
        return torch.add(*x_all)
''', '''        total = self._layer_list[0](x)
        for layer in self._layer_list[1:]:
            total = total + layer(x)
        return total
''')
edit("C", f, '''        outputs = [layer(x) for layer in self._layers]

        final = outputs[0]
        for i in range(1, len(outputs)):
            final *= outputs[i]

        if self._normalization is not None:
            final = self._normalization(final)

        return final
''', '''        first, *others = self._layers
        final = first(x)
        for layer in others:
            final = final * layer(x)
        return final if self._normalization is None else self._normalization(final)
''')
edit("C", f, '''    if layer_type in fc_layers.keys():
        return fc_layers[layer_type](**kwargs)

    raise ValueError(
        f"Fully connected layer type {layer_type} not recognized.  Must be one of {list(fc_layers.keys())}"
    )
''', '''    return _lookup(fc_layers, layer_type, "Fully connected")(**kwargs)


def _lookup(registry, layer_type, kind):
    try:
        return registry[layer_type]
    except KeyError:
        raise ValueError(
            f"{kind} layer type {layer_type} not recognized.  Must be one of {list(registry)}"
        ) from None
''')
edit("C", f, '''    combos = []
    for i in range(n):
        reg = [0] * n
        reg[i] = 1.0
        combos.append(reg)
''', '''    combos = []
    for i in range(n):
        combos.append([1.0 if k == i else 0 for k in range(n)])
''')
edit("C", f, '''                temp = [0] * n

                theta''', '''                temp = [0.0 for _ in range(n)]

                theta''')
edit("C", f, '''    output_width = n + n * (n - 1) * (rotations - 1)
    layer = torch.nn.Linear(n, output_width, bias=False)
    weights = torch.tensor(combos)
    layer.weight = torch.nn.Parameter(weights, requires_grad=False)
    return layer, output_width
''', '''    output_width = len(combos)
    layer = nn.Linear(n, output_width, bias=False)
    with torch.no_grad():
        layer.weight.copy_(torch.tensor(combos))
    layer.weight.requires_grad_(False)
    return layer, output_width
''')
f = "networks.py"
edit("C", f, '''        layer_list = []

        input_layer = Linear(in_features=in_width, out_features=hidden_width, bias=True)
        layer_list.append(input_layer)
        for i in range(hidden_layers):
            if normalization is not None:
                layer_list.append(normalization())
            if non_linearity is not None:
                layer_list.append(non_linearity)

            hidden_layer = Linear(
                in_features=hidden_width, out_features=hidden_width, bias=True
            )
            layer_list.append(hidden_layer)

        if normalization is not None:
            layer_list.append(normalization())
        if non_linearity is not None:
            layer_list.append(non_linearity)

        output_layer = Linear(
            in_features=hidden_width, out_features=out_width, bias=True
        )
        layer_list.append(output_layer)
        self.model = nn.Sequential(*layer_list)
''', '''        widths = [in_width] + [hidden_width] * (hidden_layers + 1) + [out_width]
        modules = []
        for index, (w_in, w_out) in enumerate(zip(widths[:-1], widths[1:])):
            if index > 0:
                modules.extend(self._between(normalization, non_linearity))
            modules.append(Linear(w_in, w_out))
        self.model = nn.Sequential(*modules)

    @staticmethod
    def _between(normalization, non_linearity):
        result = []
        if normalization is not None:
            result.append(normalization())
        if non_linearity is not None:
            result.append(non_linearity)
        return result
''')
edit("C", f, '''        out = self.model_in(x)
        middle = 0
        for model in self.replica_list:
            middle += model(out)

        return self.model_out(middle)
''', '''        hidden = self.model_in(x)
        replicas = torch.stack([replica(hidden) for replica in self.replica_list])
        return self.model_out(replicas.sum(dim=0))
''')
edit("C", f, '''        if avg_pool is not None:
            self.model = nn.Sequential(*layer_list, avg_pool, nn.Flatten())
        else:
            self.model = nn.Sequential(*layer_list, nn.Flatten())
''', '''        if avg_pool is not None:
            layer_list.append(avg_pool)
        layer_list.append(nn.Flatten())
        self.model = nn.Sequential(*layer_list)
''')
edit("C", f, '''        early = [x[:, :, -self.focus[0] :].flatten(1)]
        count = 1
        for name in self.layer_list:
            x = self.layer_dict[name](x)  # Assuming it only does this move once!
            if name in self.tail_list and count < len(self.focus):
                tail = x[:, :, -self.focus[count] :].flatten(1)
                early.append(tail)
                count += 1

        # We actually want the entire final x.  This means
        # an arbitrary amount of information is sent in the
        # last level of context.
        early.append(x.flatten(1))

        result = torch.cat(early, dim=1)
        return result
''', '''        stages = [x]
        for name in self.layer_list:
            x = getattr(self, name)(x)
            if name in self.tail_list:
                stages.append(x)

        def tail(stage, length):
            return stage.narrow(2, stage.shape[2] - length, length).reshape(stage.shape[0], -1)

        parts = [tail(stage, length) for stage, length in zip(stages, self.focus)]
        return torch.cat(parts + [x.reshape(x.shape[0], -1)], dim=1)
''')
edit("C", f, '''        std = torch.exp(0.5 * logvar)
        eps = torch.randn_like(std)
        return eps * std + mu
''', '''        std = (logvar / 2).exp()
        noise = torch.randn(std.shape, device=std.device, dtype=std.dtype)
        return torch.addcmul(mu, noise, std)
''')
edit("C", f, '''        kld_loss = torch.mean(
            -0.5 * torch.sum(1 + log_var - mu**2 - log_var.exp(), dim=1), dim=0
        )
''', '''        divergence = (mu.square() + log_var.exp() - 1 - log_var).sum(dim=1) / 2
        kld_loss = divergence.mean()
''')
edit("C", f, '''        recons = args[0]
        input = args[1]
        mu = args[2]
        log_var = args[3]
''', '''        recons, input, mu, log_var = args[:4]
''')
f = "modules.py"
edit("C", f, '''        diff = torch.argmax(y_hat, dim=1) - y.flatten()
        accuracy = torch.where(diff == 0, 1, 0).sum() / len(diff)
''', '''        correct = y_hat.argmax(dim=1) == y.flatten()
        accuracy = correct.float().mean()
''')
edit("C", f, '''        if self.cfg.optimizer.name == "adam" :
            optimizer = optim.Adam(
                params=self.parameters(),
                lr=self.cfg.optimizer.lr,
            )
        elif self.cfg.optimizer.name == "lion":
            optimizer = Lion(
                params=self.parameters(),
                lr=self.cfg.optimizer.lr,
            )
        else:
            raise ValueError(f"Optimizer {self.cfg.optimizer.name} not recognized")
''', '''        settings = self.cfg.optimizer
        known = {"adam": optim.Adam, "lion": Lion}
        if settings.name not in known:
            raise ValueError(f"Optimizer {settings.name} not recognized")
        optimizer = known[settings.name](self.parameters(), lr=settings.lr)
''')
f = "positional_embeddings.py"
edit("C", f, '''        emb = math.log(10000) / max(half_dim - 1, 1)
        emb = torch.exp(torch.arange(half_dim, device=x.device) * -emb)
        emb = x.unsqueeze(-1) * emb.unsqueeze(0)
        emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
        return emb
''', '''        rate = math.log(10000) / max(half_dim - 1, 1)
        frequency = (-rate * torch.arange(half_dim, device=x.device)).exp()
        angle = x[..., None] * frequency
        return torch.cat([torch.sin(angle), torch.cos(angle)], dim=-1)
''')
f = "FunctionalConvolution.py"
edit("C", f, '''        res = res.permute(1, 3, 4, 2, 0)
        res = torch.reshape(
            res, [res.shape[0], res.shape[1], res.shape[2], res.shape[3] * res.shape[4]]
        )
        res = res.permute(0, 3, 1, 2)
        return res
''', '''        return res.permute(1, 2, 0, 3, 4).flatten(1, 2)
''')
edit("C", f, '''        res = res.permute(1, 3, 2, 0)
        res = torch.reshape(
            res, [res.shape[0], res.shape[1], res.shape[2] * res.shape[3]]
        )
        res = res.permute(0, 2, 1)  # batches, basis_size*channels, width
        return res
''', '''        basis_size, batches, channels, width = res.shape
        return res.permute(1, 2, 0, 3).reshape(batches, channels * basis_size, width)
''')
edit("C", f, '''    def forward(self, x: Tensor) -> Tensor:
        periodicity = self.periodicity
        if periodicity is not None:
            x = make_periodic(x, periodicity)
        x = self.poly(x)
        out = self.conv(x)
        return out * self._rescale
''', '''    def forward(self, x: Tensor) -> Tensor:
        if self.periodicity is not None:
            x = make_periodic(x, self.periodicity)
        return self._rescale * self.conv(self.poly(x))
''', 3)
f = "attentions.py"
edit("C", f, '''        score = torch.bmm(query, key.transpose(1, 2)) / self.sqrt_dim

        if mask is not None:
            score.masked_fill_(mask.view(score.size()), -float("Inf"))

        attn = F.softmax(score, -1)
''', '''        score = torch.matmul(query / self.sqrt_dim, key.transpose(-2, -1))

        if mask is not None:
            score = score.masked_fill(mask.view(score.shape), float("-inf"))

        attn = score.softmax(dim=-1)
''')
# ---- D: base classes, dispatch tables, comprehensions, other torch spellings
f = "Basis.py"
edit("D", f, OLD_SEG, '''        device = x.device
        last = self._segments - 1
        id_min = torch.clamp(((x + self._half) / self._length * self._segments).long(), min=0, max=last)
        id_max = 1 + id_min
''', 3)
edit("D", f, '''        # rescale to -1 to +1
        x_in = self._length * ((x - x_min) / (x_max - x_min)) - self._half
''', '''        x_in = self._local(x, x_min, x_max)
''', 4)
edit("D", f, '''class BasisExpand:
''', '''class _Local:
    """shared by the piecewise expansions"""

    def _local(self, x: Tensor, left: Tensor, right: Tensor) -> Tensor:
        fraction = (x - left) / (right - left)
        return (fraction - 0.5) * self._length


def _all_basis(basis, x, n):
    """[n, *x.shape]"""
    return torch.stack(list(map(lambda j: basis(x, j), range(n))))


class BasisExpand:
''')
for c in ("PiecewiseExpand", "PiecewiseExpand1d", "PiecewiseDiscontinuousExpand", "PiecewiseDiscontinuousExpand1d"):
    edit("D", f, "class %s:\n" % c, "class %s(_Local):\n" % c)
edit("D", f, '''        mat = []
        for j in range(self.n):
            basis_j = self.basis(x, j)
            mat.append(basis_j)

        return torch.stack(mat)
''', '''        return _all_basis(self.basis, x, self.n)
''')
edit("D", f, '''        mat = []
        for j in range(self.n):
            basis_j = self.basis(x, j)
            mat.append(basis_j)
        mat = torch.stack(mat)
''', '''        mat = _all_basis(self.basis, x, self.n)
''', 2)
edit("D", f, '''        wrange = wid_min_flat.unsqueeze(-1) + torch.arange(self._n, device=device).view(
            -1
        )

        # This needs to be
        windex = torch.div(torch.arange(wrange.numel()), self._n, rounding_mode="floor")
''', '''        wrange = wid_min_flat[:, None] + torch.arange(self._n, device=device)[None, :]

        windex = torch.arange(wrange.shape[0]).repeat_interleave(self._n)
''', 3)
edit("D", f, '''        mat = torch.zeros(
            x.shape[0],
            x.shape[1],
            x.shape[2],
            self._variables,
            device=device,
            dtype=x.dtype,
        )
''', '''        mat = x.new_zeros((*x.shape, self._variables))
''', 2)
edit("D", f, '''        mat = mat_trans.reshape(mat.shape[0], mat.shape[1], mat.shape[2], mat.shape[3])

        mat = mat.permute(3, 0, 1, 2)

        return mat
''', '''        return mat_trans.view(mat.shape).permute(3, 0, 1, 2)
''', 2)
edit("D", f, '''        out_sum = torch.einsum("ijk,jkli->jl", mat, w)

        return out_sum
''', '''        per_link = (mat.movedim(0, -1).unsqueeze(-2) * w).sum(-1)
        return per_link.sum(1)
''')
edit("D", f, '''        out_prod = torch.prod(assemble, dim=2) - 1 - (1 - self.alpha) * this_sum

        return out_prod
''', '''        out_prod = assemble.prod(dim=2) - 1
        if self.alpha != 1:
            out_prod = out_prod - (1 - self.alpha) * this_sum

        return out_prod
''', 2)
f = "LagrangePolynomial.py"
edit("D", f, '''        device = x.device
        x_diff = x.unsqueeze(-1) - self.X.to(device)  # Ensure broadcasting
        b = torch.where(
            torch.arange(self.n, device=device) != j,
            x_diff / self.denominators[j].to(device),
            torch.tensor(1.0, device=device),
        )
        ans = torch.prod(b, dim=-1)
        return ans
''', '''        nodes = self.X.to(x.device)
        keep = [m for m in range(self.n) if m != j]
        factors = [(x - nodes[m]) / (nodes[j] - nodes[m]) for m in keep]
        result = factors[0]
        for factor in factors[1:]:
            result = result * factor
        return result
''')
edit("D", f, '''        for j in range(self.n):
            for m in range(self.n):
                if m != j:
                    denom[j, m] = self.X[j] - self.X[m]
        return denom
''', '''        off_diagonal = ~torch.eye(self.n, dtype=torch.bool)
        difference = self.X[:, None] - self.X[None, :]
        return torch.where(off_diagonal, difference, denom)
''')
edit("D", f, '''        i = (j + 1) // 2
        if j % 2 == 0:
            ans = torch.cos(2.0 * math.pi * i * x / self.length)
        else:
            ans = torch.sin(2.0 * math.pi * i * x / self.length)
        return ans
''', '''        harmonic, odd = divmod(j, 2)
        fn = (torch.cos, torch.sin)[odd]
        return fn(2.0 * math.pi * (harmonic + odd) * x / self.length)
''')
edit("D", f, '''    if n == 1:
        return LagrangeBasis1(length=length)
    else:
        return LagrangeBasis(n, length=length)
''', '''    return LagrangeBasis1(length=length) if n == 1 else LagrangeBasis(n, length=length)
''')
f = "utils.py"
edit("D", f, '''    return torch.max(x.abs(), dim=dim, keepdim=True)[0]
''', '''    return x.abs().amax(dim=dim, keepdim=True)
''')
edit("D", f, '''    max_x = torch.max(x, dim=dim, keepdim=True)[0]
    min_x = torch.min(x, dim=dim, keepdim=True)[0]

    midrange = 0.5 * (max_x + min_x)
    mag = max_x - midrange

    centered = x - midrange
    return centered / (mag + eps)
''', '''    low, high = x.aminmax(dim=dim, keepdim=True)
    midrange = torch.lerp(low, high, 0.5)
    half_range = 0.5 * (high - low)
    return torch.div(x - midrange, half_range + eps)
''')
edit("D", f, '''    max_x = torch.max(x, dim=len(x.shape) - 1, keepdim=True)[0]
    min_x = torch.min(x, dim=len(x.shape) - 1, keepdim=True)[0]

    midrange = 0.5 * (max_x + min_x)
    mag = max_x - midrange

    centered = x - midrange
    return centered / (mag + eps)
''', '''    return max_center_normalization(x, eps=eps, dim=x.dim() - 1)
''')
edit("D", f, '''    xp = x + 0.5 * periodicity
    xp = torch.remainder(xp, 2 * periodicity)  # always positive
    xp = torch.where(xp > periodicity, 2 * periodicity - xp, xp)
    xp = xp - 0.5 * periodicity
    return xp
''', '''    folded = (x - 0.5 * periodicity) % (2 * periodicity)
    return (folded - periodicity).abs() - 0.5 * periodicity
''')
edit("D", f, '''    return x / (x.norm(2, 1, keepdim=True) + eps)
''', '''    length = torch.linalg.vector_norm(x, ord=2, dim=1, keepdim=True)
    return x / (length + eps)
''')
f = "layers.py"
edit("D", f, '''        final = outputs[0]
        for i in range(1, len(outputs)):
            final *= outputs[i]
''', '''        final = functools.reduce(torch.mul, outputs)
''')
edit("D", f, "import math\n\nimport torch.nn as nn\n", "import functools\nimport math\n\nimport torch.nn as nn\n")
edit("D", f, '''    if layer_type in fc_layers.keys():
        return fc_layers[layer_type](**kwargs)

    raise ValueError(
        f"Fully connected layer type {layer_type} not recognized.  Must be one of {list(fc_layers.keys())}"
    )
''', '''    return _lookup("Fully connected", fc_layers, layer_type)(**kwargs)
''')
edit("D", f, '''    if layer_type in convolutional_layers.keys():
        return convolutional_layers[layer_type](**kwargs)

    raise ValueError(
        f"Convolutional layer type {layer_type} not recognized.  Must be one of {list(convolutional_layers.keys())}"
    )
''', '''    return _lookup("Convolutional", convolutional_layers, layer_type)(**kwargs)


def _lookup(kind: str, table: dict, layer_type: str):
    try:
        return table[layer_type]
    except KeyError:
        raise ValueError(
            f"{kind} layer type {layer_type} not recognized.  Must be one of {list(table)}"
        ) from None
''')
edit("D", f, '''                # Add the line and the line orthogonal
                temp[i] += rot_x / norm_val
                temp[j] += rot_y / norm_val

                combos.append(temp)

                other = [0] * n
                other[i] += rot_y / norm_val
                other[j] += -rot_x / norm_val

                combos.append(other)
''', '''                temp[i], temp[j] = rot_x / norm_val, rot_y / norm_val
                other = [0] * n
                other[i], other[j] = rot_y / norm_val, -(rot_x / norm_val)
                combos.extend([temp, other])
''')
f = "ProductLayer.py"
edit("D", f, '''        assemble = torch.einsum("ij,kj->ijk", x, self.weight)
        this_sum = torch.sum(assemble, dim=1)
        assemble = assemble + 1.0
        assemble = torch.prod(assemble, dim=1) - (1 - self.alpha) * this_sum
        assemble = assemble - 1
        if self.bias is not None:
            assemble = assemble + self.bias

        return assemble''', '''        links = x.unsqueeze(1) * self.weight
        out = (links + 1.0).prod(dim=-1) - 1
        out = out + (self.alpha - 1) * torch.nn.functional.linear(x, self.weight)
        return out if self.bias is None else out + self.bias''')
f = "positional_embeddings.py"
edit("D", f, '''        half_dim = self.dim // 2
        emb = math.log(10000) / max(half_dim - 1, 1)
        emb = torch.exp(torch.arange(half_dim, device=x.device) * -emb)
        emb = x.unsqueeze(-1) * emb.unsqueeze(0)
        emb = torch.cat((emb.sin(), emb.cos()), dim=-1)
        return emb
''', '''        count = self.dim // 2
        exponent = -torch.arange(count, device=x.device) / max(count - 1, 1)
        angles = x[..., None] * 10000.0**exponent
        return torch.cat([torch.sin(angles), torch.cos(angles)], -1)
''')

# ---- E: operations on layers vectorised, closures and partials in networks, attention spelled differently, cached bases
f = "PolynomialLayers.py"
edit("E", f, '''        for inputs in range(w_in.shape[0]):
            for outputs in range(w_in.shape[1]):
                for i in range(segments_in):
                    w = w_in[
                        inputs,
                        outputs,
                        i * (n_in + offset) : (i + 1) * (n_in + offset) + end,
                    ].reshape(1, 1, 1, -1)
                    w_b = poly_in.interpolate(x_out, w)
                    w_out[
                        inputs,
                        outputs,
                        i * (n_out + offset) : (i + 1) * (n_out + offset) + end,
                    ] = w_b.flatten()
''', '''        basis = torch.stack([poly_in.basis(x_out.flatten(), k) for k in range(n_in)])
        for i in range(segments_in):
            start_in, start_out = i * (n_in + offset), i * (n_out + offset)
            stop_in = start_in + n_in + offset + end
            stop_out = start_out + n_out + offset + end
            w_out[:, :, start_out:stop_out] = w_in[:, :, start_in:stop_in] @ basis.to(w_in)
''')
edit("E", f, '''                    for index, i in enumerate(index_in):
                        x = torch.tensor([[x_local_in[index, 0]]], device=device)
                        w = (
                            w_in[
                                inputs,
                                outputs,
                                i * (n_in - 1) : (i + 1) * (n_in - 1) + 1,
                            ]
                            .reshape(1, 1, 1, -1)
                            .to(device)
                        )
                        w_b = poly_in.interpolate(x, w)
                        w_out[inputs, outputs, j * (n_out - 1) + index] = w_b.flatten()
''', '''                    for index in range(n_out):
                        segment = int(index_in[index, 0])
                        start = segment * (n_in - 1)
                        values = w_in[inputs, outputs, start : start + n_in].to(device)
                        w_out[inputs, outputs, j * (n_out - 1) + index] = poly_in.interpolate(
                            x_local_in[index].view(1, 1), values.view(1, 1, 1, n_in)
                        )[0, 0]
''')
edit("E", f, '''        left = layer.w[:, :, (n - 1) : -1 : n]
        right = layer.w[:, :, n::n]
        diff = left - right
        layer.w[:, :, (n - 1) : -1 : n] = left - 0.5 * factor * diff
        layer.w[:, :, n::n] = right + 0.5 * factor * diff
''', '''        before = layer.w.clone()
        for i in range(1, layer._segments):
            step = 0.5 * factor * (before[:, :, i * n - 1] - before[:, :, i * n])
            layer.w[:, :, i * n - 1] -= step
            layer.w[:, :, i * n] += step
''')
edit("E", f, '''                for j in range(segments_in):
                    # compute x in the global space
                    x_global = layer_in.x_global(x_in, j)

                    y_global = a * x_global + b

                    w_in[
                        inputs,
                        outputs,
                        j * nodes_per_segment : (j + 1) * nodes_per_segment
                        + upper_limit,
                    ] = y_global.flatten()''', '''                j = 0
                while j < segments_in:
                    start = j * nodes_per_segment
                    line = torch.add(b, layer_in.x_global(x_in, j), alpha=a) if False else layer_in.x_global(x_in, j).mul(a).add(b)
                    w_in[inputs, outputs, start : start + nodes_per_segment + upper_limit] = line[:, 0]
                    j += 1''')
edit("E", f, '''        self.n = [n] * self.dimensions if isinstance(n, int) else n
        self.segments = (
            [segments] * self.dimensions if isinstance(segments, int) else segments
        )
''', '''        def per_dimension(v):
            if isinstance(v, int):
                return [v for _ in range(self.dimensions)]
            return v

        self.n, self.segments = per_dimension(n), per_dimension(segments)
''')
edit("E", f, '''        id_min = (
            (((x + self._half) / self._length) * self._segments)
            .long()
            .clamp(0, self._segments - 1)
        )
        id_max = id_min + 1

        wid_min = (id_min * self._n).long()
        wid_max = (id_max * self._n).long()

        wrange = (
            wid_min.unsqueeze(-1) + torch.arange(self._n, device=x.device)
        ).flatten()
        windex = (
            torch.div(
                torch.arange(wrange.numel(), device=x.device),
                self._n,
                rounding_mode="floor",
            )
            % self.in_features
        )

        w = (
            self.w[:, windex, wrange]
            .view(self.out_features, -1, self.in_features, self._n)
            .permute(1, 2, 0, 3)
        )

        x_min = self._eta(id_min)
        x_max = self._eta(id_max)

        x_in = self._length * ((x - x_min) / (x_max - x_min)) - self._half

        return self._poly.interpolate(x_in, w)
''', '''        index = torch.clamp(torch.div(x + self._half, self._length).mul(self._segments).long(), min=0, max=self._segments - 1)
        blocks = self.w.view(self.out_features, self.in_features, self._segments, self._n)
        feature = torch.arange(self.in_features, device=x.device).expand_as(index)
        w = blocks[:, feature, index].permute(1, 2, 0, 3)
        return self._poly.interpolate(self.x_local(x, index), w)
''')
f = "LagrangePolynomial.py"
edit("E", f, '''def get_lagrange_basis(n: int, length: float = 2.0):
''', '''@functools.lru_cache(maxsize=None)
def get_lagrange_basis(n: int, length: float = 2.0):
''')
edit("E", f, "import math\n", "import functools\nimport math\n")
f = "networks.py"
edit("E", f, '''        self.input_layer = high_order_fc_layers(
            layer_type=layer_type_in or layer_type,
            n=n_in,
            in_features=in_width,
            out_features=hidden_width,
            segments=in_segments,
            rescale_output=rescale_output,
            scale=scale,
            periodicity=periodicity,
            device=device,
            initialize=initialization,
        )
        layer_list.append(self.input_layer)
        for i in range(hidden_layers):
            if normalization is not None:
                layer_list.append(normalization())
            if non_linearity is not None:
                layer_list.append(non_linearity)

            # This applies dropout on the input layer, do you want that!
            if dropout > 0:
                layer_list.append(self.dropout_layer)

            hidden_layer = high_order_fc_layers(
                layer_type=layer_type,
                n=n_hidden,
                in_features=hidden_width,
                out_features=hidden_width,
                segments=hidden_segments,
                rescale_output=rescale_output,
                scale=scale,
                periodicity=periodicity,
                device=device,
                initialize=initialization,
            )

            # This will add the result of the previous layer after normalization
            if resnet is True and i > 0:
                hidden_layer = SumLayer(layer_list=[hidden_layer, nn.Identity()])

            layer_list.append(hidden_layer)

        if normalization is not None:
            layer_list.append(normalization())
        if non_linearity is not None:
            layer_list.append(non_linearity)

        if dropout > 0:
            layer_list.append(self.dropout_layer)

        self.output_layer = high_order_fc_layers(
            layer_type=layer_type,
            n=n_out,
            in_features=hidden_width,
            out_features=out_width,
            segments=out_segments,
            rescale_output=rescale_output,
            scale=scale,
            periodicity=periodicity,
            device=device,
            initialize=initialization,
        )
        layer_list.append(self.output_layer)
        self.model = nn.Sequential(*layer_list)
''', '''        common = dict(
            rescale_output=rescale_output,
            scale=scale,
            periodicity=periodicity,
            device=device,
            initialize=initialization,
        )
        make = partial(high_order_fc_layers, **common)

        def between():
            candidates = (
                normalization() if normalization is not None else None,
                non_linearity,
                self.dropout_layer if dropout > 0 else None,
            )
            return [c for c in candidates if c is not None]

        self.input_layer = make(
            layer_type=layer_type_in or layer_type, n=n_in, in_features=in_width, out_features=hidden_width, segments=in_segments
        )
        layer_list += [self.input_layer]
        for i in range(hidden_layers):
            layer_list.extend(between())
            hidden = make(layer_type=layer_type, n=n_hidden, in_features=hidden_width, out_features=hidden_width, segments=hidden_segments)
            layer_list.append(SumLayer(layer_list=[hidden, nn.Identity()]) if resnet is True and i > 0 else hidden)

        self.output_layer = make(layer_type=layer_type, n=n_out, in_features=hidden_width, out_features=out_width, segments=out_segments)
        self.model = nn.Sequential(*layer_list, *between(), self.output_layer)
''')
edit("E", f, "import math\n", "import math\nfrom functools import partial\n")
edit("E", f, '''    layers = [
        module for module in network.modules() if not isinstance(module, nn.Sequential)
    ]

    for layer in layers:
        if isinstance(layer, (PiecewisePolynomial, PiecewiseDiscontinuous)):
            inputs = layer.in_features
''', '''    for layer in network.modules():
        if isinstance(layer, nn.Sequential):
            continue
        if isinstance(layer, (PiecewisePolynomial, PiecewiseDiscontinuous)):
            inputs = layer.in_features
''')
f = "attentions.py"
edit("E", f, '''        query = (
            self.query_proj(query)
            .view(batch_size, -1, self.num_heads, self.dim)
            .permute(0, 2, 1, 3)
        )
        value = (
            self.value_proj(value)
            .view(batch_size, -1, self.num_heads, self.dim)
            .permute(0, 2, 1, 3)
        )
        query = query.contiguous().view(-1, 1, self.dim)
        value = value.contiguous().view(-1, seq_len, self.dim)

        score = self.score_proj(
            torch.tanh(value + query + loc_energy + self.bias)
        ).squeeze(2)
        attn = F.softmax(score, dim=1)
''', '''        query = self._heads(self.query_proj(query), batch_size).reshape(-1, 1, self.dim)
        value = self._heads(self.value_proj(value), batch_size).reshape(-1, seq_len, self.dim)

        energy = torch.tanh(self.bias + loc_energy + query + value)
        attn = self.score_proj(energy)[..., 0].softmax(dim=-1)
''')
edit("E", f, '''        batch_size, seq_len = value.size(0), value.size(1)

        if last_attn is None:
            last_attn = value.new_zeros(batch_size, self.num_heads, seq_len)
''', '''        batch_size, seq_len = value.shape[:2]

        if last_attn is None:
            last_attn = torch.zeros(batch_size, self.num_heads, seq_len, device=value.device, dtype=value.dtype)
''')
edit("E", f, '''    def __init__(self, d_model: int = 512, num_heads: int = 8):
        super(MultiHeadAttention, self).__init__()
''', '''    def __init__(self, d_model: int = 512, num_heads: int = 8):
        super().__init__()
''')
edit("E", f, '''        self.score_proj = nn.Linear(self.dim, 1, bias=True)
        self.bias = nn.Parameter(torch.rand(self.dim).uniform_(-0.1, 0.1))

''', '''        self.score_proj = nn.Linear(self.dim, 1, bias=True)
        self.bias = nn.Parameter(torch.rand(self.dim).uniform_(-0.1, 0.1))

    def _heads(self, x: Tensor, batch_size: int) -> Tensor:
        return x.reshape(batch_size, -1, self.num_heads, self.dim).transpose(1, 2)

''')
edit("E", f, '''        query = self.query_proj(query).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxQ_LENxNxD
        key = self.key_proj(key).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxK_LENxNxD
        value = self.value_proj(value).view(
            batch_size, -1, self.num_heads, self.d_head
        )  # BxV_LENxNxD

        query = (
            query.permute(2, 0, 1, 3)
            .contiguous()
            .view(batch_size * self.num_heads, -1, self.d_head)
        )  # BNxQ_LENxD
        key = (
            key.permute(2, 0, 1, 3)
            .contiguous()
            .view(batch_size * self.num_heads, -1, self.d_head)
        )  # BNxK_LENxD
        value = (
            value.permute(2, 0, 1, 3)
            .contiguous()
            .view(batch_size * self.num_heads, -1, self.d_head)
        )  # BNxV_LENxD
''', '''        def heads(proj, t):
            t = proj(t).unflatten(-1, (self.num_heads, self.d_head))
            return torch.cat(t.unbind(2), dim=0)

        query, key, value = (
            heads(p, t) for p, t in zip((self.query_proj, self.key_proj, self.value_proj), (query, key, value))
        )
''')
edit("E", f, '''            score = torch.sigmoid(score)
            attn = torch.div(score, score.sum(dim=-1).unsqueeze(dim=-1))
''', '''            attn = F.normalize(score.sigmoid(), p=1.0, dim=-1) if False else score.sigmoid() / score.sigmoid().sum(-1, True)
''')
f = "FunctionalConvolution.py"
edit("E", f, '''        res = res.permute(1, 3, 2, 0)
        res = torch.reshape(
            res, [res.shape[0], res.shape[1], res.shape[2] * res.shape[3]]
        )
        res = res.permute(0, 2, 1)  # batches, basis_size*channels, width
        return res
''', '''        return torch.movedim(res, 0, 2).flatten(start_dim=1, end_dim=2)
''')
edit("E", f, '''        self._total_in = in_channels * math.prod(self.conv.kernel_size)
        self._rescale = 1.0
        if rescale_output is True:
            self._rescale = 1.0 / self._total_in
''', '''        self._total_in = in_channels * math.prod(self.conv.kernel_size)
        self._rescale = _factor(rescale_output, self._total_in)
''', 4)
edit("E", f, '''# TODO: Pretty sure this doesn't need to be an nn.Module
''', '''def _factor(rescale, total):
    return 1.0 / total if rescale is True else 1.0


# TODO: Pretty sure this doesn't need to be an nn.Module
''')
edit("E", f, '''        periodicity = self.periodicity
        if periodicity is not None:
            x = make_periodic(x, periodicity)
        x = self.poly(x)
        out = self.conv(x)
        return out * self._rescale
''', '''        folded = x if self.periodicity is None else make_periodic(x, self.periodicity)
        return self.conv(self.poly(folded)).mul(self._rescale)
''', 3)
