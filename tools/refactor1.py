V = [
('r-C01-lookup', 'C01', [('core/containers/data_dict.py', '''        v = self._dict[keys[0]]
        for k in keys[1:]:
            v = v[k]
        return v''', '''        out = self._dict
        for name in keys:
            out = out[name]
        return out''')]),
('r-C01-helper', 'C01', [('core/containers/data_dict.py', '''        keys = DataDict.__split_key(key)
        assert len(keys) > 0, f'empty key {key}'

        v = self._dict
        for k in keys[:-1]:
            v = v[k]
        del v[keys[-1]]
''', '''        parent, last = self.__locate(key)
        del parent[last]

    def __locate(self, key):
        *parents, last = DataDict.__split_key(key)
        node = self._dict
        for k in parents:
            node = node[k]
        return node, last
''')]),
('r-C01-while', 'C01', [('core/containers/data_dict.py', '''        v = self._dict[keys[0]]
        for k in keys[1:]:
            v = v[k]
        return v''', '''        v, i = self._dict[keys[0]], 1
        while i < len(keys):
            v = v[keys[i]]
            i += 1
        return v''')]),
('r-C01-split', 'C01', [('core/containers/data_dict.py', "return tuple(k for k in key.split('/') if len(k) > 0)", '''names = []
        for k in key.split('/'):
            if k:
                names.append(k)
        return tuple(names)''')]),
('r-C01-union', 'C01', [('core/containers/data_dict.py', '''        out = self.copy()
        out |= other
        return out''', '''        assert isinstance(other, Mapping)
        merged = dict(self._dict)
        merged.update(other.items())
        return DataDict(merged)''')]),
('r-C01-tupledel', 'C01', [('core/containers/data_dict.py', '''            return tuple(self[_key] for _key in key)

        if''', '''            vals = []
            for _key in key:
                vals.append(self[_key])
            return tuple(vals)

        if''')]),
('r-C02-loop', 'C02', [('core/containers/data_table.py', '''        self._data = OrderedDict({
            k: np.array(v, copy=copy) for k, v in data.items()
        })''', '''        self._data = OrderedDict()
        for k, v in data.items():
            self._data[k] = np.array(v, copy=copy)''')]),
('r-C02-concat', 'C02', [('core/containers/data_table.py', '''        all_tables = [self] + list(other)
        return DataTable({
            k: np.concatenate([t[k] for t in all_tables])
            for k in self.keys()
        })''', '''        out = {}
        for k, v in self.items():
            parts = [v]
            for t in other:
                parts.append(t[k])
            out[k] = np.concatenate(parts, axis=0)
        return DataTable(out)''')]),
('r-C02-set', 'C02', [('core/containers/data_table.py', '''        if not isinstance(key, tuple):
            _data[key] = np.array(val)
            return

        assert len(key) == len(val), (
            f'Lengths of keys and values'
            f' are not equal ({len(key)} and {len(val)})')
        for _key, _val in zip(key, val):
            _data[_key] = np.array(_val)''', '''        if isinstance(key, tuple):
            assert len(key) == len(val), 'Lengths of keys and values are not equal'
            for i, _key in enumerate(key):
                _data[_key] = np.array(val[i], copy=True)
        else:
            _data[key] = np.array(val, copy=True)''')]),
('r-C02-subcol', 'C02', [('core/containers/data_table.py', '''        return DataTable({
            k: self[k] for k in keys
        }, copy=copy)''', '''        cols = dict(zip(keys, (self._data[k] for k in keys)))
        return DataTable(cols, copy=copy)''')]),
('r-C08-2d', 'C08', [('stats/reduction.py', '''        y = []
        for i, _x in enumerate(x):
            _w = None if weight is None else weight[i]
            _m = None if mask is None else mask[i]
            y.append(self._impl_1d(_x, _w, _m))
        return np.array(y)''', '''        n = len(x)
        ws = [None] * n if weight is None else weight
        ms = [None] * n if mask is None else mask
        return np.array([self._impl_1d(*row) for row in zip(x, ws, ms)])''')]),
('r-C08-sum', 'C08', [('stats/reduction.py', '''        if weight is None:
            w_tot = mask
        else:
            w_tot = weight if mask is None else weight * mask

        if w_tot is not None:
            x = x * w_tot

        out = x.sum(-1)
        return np.asarray(out)''', '''        if weight is not None:
            x = x * weight
        if mask is not None:
            x = np.where(mask, x, 0)
        return np.asarray(np.sum(x, axis=-1))''')]),
('r-C08-mean', 'C08', [('stats/reduction.py', '''        sel_empty = x_count < 1
        w_sum[sel_empty] = 1.
        out = np.asarray(xw_sum / w_sum)
        out[sel_empty] = self.empty_fill

        return out''', '''        is_empty = x_count == 0
        w_sum = np.where(is_empty, 1., w_sum)
        return np.asarray(np.where(is_empty, self.empty_fill, xw_sum / w_sum))''')]),
('r-C08-quant', 'C08', [('stats/reduction.py', '''        if self.sort:
            idx = np.argsort(x)
            x, weight = x[idx], weight[idx]
        cdf = np.cumsum(weight)
        qs = np.interp(self.ps, cdf, x)
        return np.asarray(qs)''', '''        order = np.argsort(x) if self.sort else np.arange(len(x))
        cdf = weight[order].cumsum()
        return np.asarray(np.interp(self.ps, cdf, x[order]))''')]),
('r-C08-err', 'C08', [('stats/reduction.py', '''            x_lo, x_med, x_hi = out
            out = x_med, x_med - x_lo, x_hi - x_med

        return np.stack(out, axis=-1)''', '''            lo, med, hi = out[0], out[1], out[2]
            out = [med, med - lo, hi - med]

        return np.stack(out, -1)''')]),
('r-C12-signed', 'C12', [('field/cubic_box/smoothing.py', '''        for i0 in range(N):
            ki[0] = np.float64(i0 - N if i0 > Nd2 else i0)
            for i1 in range(N):
                ki[1] = np.float64(i1 - N if i1 > Nd2 else i1)
                for i2 in range(Nd2p1):
                    ki[2] = np.float64(i2)
                    w = sm''', '''        freqs = np.empty(N, dtype=np.float64)
        for i in range(N):
            if i <= Nd2:
                freqs[i] = i
            else:
                freqs[i] = i - N
        for i0 in range(N):
            ki[0] = freqs[i0]
            for i1 in range(N):
                ki[1] = freqs[i1]
                for i2 in range(Nd2p1):
                    ki[2] = float(i2)
                    w = sm''')]),
('r-C12-order', 'C12', [('field/cubic_box/smoothing.py', '''        for i0 in range(N):
            ki[0] = np.float64(i0 - N if i0 > Nd2 else i0)
            for i1 in range(N):
                ki[1] = np.float64(i1 - N if i1 > Nd2 else i1)
                for i2 in range(Nd2p1):
                    ki[2] = np.float64(i2)
                    w = sm''', '''        for i2 in range(Nd2p1):
            ki[2] = np.float64(i2)
            for i1 in range(N):
                ki[1] = np.float64(i1 - N if i1 > Nd2 else i1)
                for i0 in range(N):
                    ki[0] = np.float64(i0 - N if i0 > Nd2 else i0)
                    w = sm''')]),
('r-C12-window', 'C12,C13', [('field/cubic_box/smoothing.py', '''        scale = self.scale
        ki_sq = np.sum(ki*ki)
        return np.exp(scale * ki_sq)''', '''        k_sq = ki[0]**2 + ki[1]**2 + ki[2]**2
        return np.exp(self.scale * k_sq)''')]),
('r-C12-tophat', 'C12', [('field/cubic_box/smoothing.py', 'return 3.0 * (np.sin(kr) - kr * np.cos(kr)) / kr**3', '''kr_sq = kr * kr
        return 3.0 * (np.sin(kr) / kr - np.cos(kr)) / kr_sq''')]),
('r-C12-inplace', 'C12', [('field/cubic_box/smoothing.py', '''                    data_sm_k[i0, i1, i2] = data_k[i0, i1, i2] * w
        return data_sm_k''', '''                    data_sm_k[i0, i1, i2] *= w
        return data_sm_k'''), ('field/cubic_box/smoothing.py', 'data_sm_k = np.empty_like(data_k)', 'data_sm_k = data_k.copy()')]),
('r-C13-sym', 'C13', [('field/cubic_box/gravity.py', '''                T_x[..., i, j] = Tij_x
                if i != j:
                    T_x[..., j, i] = Tij_x''', '''                T_x[..., i, j] = Tij_x
                T_x[..., j, i] = Tij_x''')]),
('r-C13-helper', 'C13', [('field/cubic_box/gravity.py', '''        for i in range(3):
            for j in range(i+1):
                Tij_k = self._find_tidal_ij(phi_k, i, j, mesh)
                Tij_x = fft.backward(Tij_k)
                T_x[..., i, j] = Tij_x
                if i != j:
                    T_x[..., j, i] = Tij_x
''', '''        pairs = [(i, j) for i in range(3) for j in range(i, 3)]
        for i, j in pairs:
            t = fft.backward(self._find_tidal_ij(phi_k, i, j, mesh))
            for a, b in {(i, j), (j, i)}:
                T_x[:, :, :, a, b] = t
''')]),
('r-C13-fold', 'C13', [('field/cubic_box/gravity.py', '''                    _delta_k = delta_k[i0, i1, i2]
                    _delta_sm_k = _delta_k * w_S * w_sm
                    _phi_k = _delta_sm_k * w_G

                    delta_sm_k[i0, i1, i2] = _delta_sm_k
                    phi_k[i0, i1, i2] = _phi_k''', '''                    delta_sm_k[i0, i1, i2] = w_sm * w_S * delta_k[i0, i1, i2]
                    phi_k[i0, i1, i2] = w_G * delta_sm_k[i0, i1, i2]''')]),
('r-C13-empty', 'C13', [('field/cubic_box/gravity.py', 'Tij_k = phi_k.copy()', 'Tij_k = np.zeros_like(phi_k)')]),
('r-C14-count', 'C14', [('field/cubic_box/cosmic_web.py', 'n_lams = np.count_nonzero(lam > lam_th, axis=-1)', 'n_lams = (lam > lam_th).sum(axis=-1)')]),
('r-C14-gridpts', 'C14', [('field/cubic_box/cosmic_web.py', '''        idx_1d = np.arange(n)
        idx_3d = np.meshgrid(idx_1d, idx_1d, idx_1d, indexing='ij')
        idx_3d = [idx[sel] for idx in idx_3d]

        n_sel = idx_3d[0].size
        x = np.empty((n_sel, 3), dtype=np.float32)
        for i in range(3):
            x[:, i] = idx_3d[i] * h

        return x''', '''        return (np.argwhere(sel) * h).astype(np.float32)''')]),
('r-C14-frac', 'C14', [('field/cubic_box/cosmic_web.py', 'return self.is_void.sum() / self.n_lams.size', 'return np.count_nonzero(self.is_void) / self.is_void.size')]),
('r-C14-lam', 'C14', [('field/cubic_box/cosmic_web.py', '''            lam_out[i] = lam[i0, i1, i2]''', '''            for a in range(3):
                lam_out[i, a] = lam[i0, i1, i2, a]''')]),
('r-C15-flat', 'C15', [('field/neighbor/kd_mesh.py', '''        for i, x in enumerate(xs):
            xi_f = self.x2xi_f(x)
            xi_fs[i] = xi_f''', '''        for i in range(len(xs)):
            xi_fs[i] = self.x2xi_f(xs[i])''')]),
('r-C15-firsts', 'C15', [('field/neighbor/kd_mesh.py', '''    b = 0
    for i_f in range(n_tot):
        e = b
        while e < n_xs:
            if xi_fs[e] > i_f:
                break
            e += 1
        cell_firsts[i_f+1] = e
        b = e''', '''    e = 0
    for i_f in range(n_tot):
        while e < n_xs and xi_fs[e] <= i_f:
            e += 1
        cell_firsts[i_f+1] = e''')]),
('r-C15-count', 'C15', [('field/neighbor/kd_mesh.py', '''    b = 0
    for i_f in range(n_tot):
        e = b
        while e < n_xs:
            if xi_fs[e] > i_f:
                break
            e += 1
        cell_firsts[i_f+1] = e
        b = e''', '''    for i in range(n_xs):
        cell_firsts[xi_fs[i]+1] += 1
    for i_f in range(n_tot):
        cell_firsts[i_f+1] += cell_firsts[i_f]''')]),
('r-C15-search', 'C15', [('field/neighbor/kd_mesh.py', '''        for i0 in range(lb0, ub0):
            i0_p = i0 % n
            for i1 in range(lb1, ub1):
                i1_p = i1 % n
                for i2 in range(lb2, ub2):
                    i2_p = i2 % n
                    i_f = (i0_p * n + i1_p) * n + i2_p''', '''        for i0 in range(lb0, ub0):
            for i1 in range(lb1, ub1):
                row = ((i0 % n) * n + i1 % n) * n
                for i2 in range(lb2, ub2):
                    i_f = row + i2 % n''')]),
('r-C16-min', 'C16', [('field/neighbor/kd_tree.py', '''        l_half = 0.5 * l_box
        dx = x2 - x1
        dx[dx > l_half] -= l_box
        dx[dx < -l_half] += l_box
        return''', '''        dx = np.abs(x2 - x1)
        dx = np.minimum(dx, l_box - dx)
        return''')]),
('r-C16-where', 'C16', [('field/neighbor/kd_tree.py', '''        dx[dx > l_half] -= l_box
        dx[dx < -l_half] += l_box
''', '''        dx = np.where(dx > l_half, dx - l_box, dx)
        dx = np.where(dx < -l_half, dx + l_box, dx)
''')]),
('r-C17-order', 'C17', [('stats/regression.py', '''        mask = None if max_dx is None else ds < max_dx
        y = y_tr[ids]
        w = None if w_tr is None else w_tr[ids]
        if kernel is not None:
            w_k = m_kernel.predefined.create(kernel)[1](ds)
            w = w_k if w is None else w * w_k
''', '''        w = None
        if kernel is not None:
            _, kernel_fn = m_kernel.predefined.create(kernel)
            w = kernel_fn(ds)
        if w_tr is not None:
            w = w_tr[ids] if w is None else w_tr[ids] * w
        y = y_tr[ids]
        mask = ds < max_dx if max_dx is not None else None
''')]),
('r-C17-loop', 'C17', [('stats/regression.py', '''        y_preds = []
        for d, id in zip(ds, ids):
            y = y_tr[id]
            w = None if w_tr is None else w_tr[id]
            if kernel is not None:
                w_k = kernel(d)
                w = w_k if w is None else w * w_k
            y_pred = tuple(c(y, w) for c in r_calls)
            y_preds.append(y_pred)
        y_preds = [
            np.array([y_pred[i] for y_pred in y_preds])
            for i in range(n_rs)
        ]''', '''        cols = [[] for _ in range(n_rs)]
        for d, id in zip(ds, ids):
            y = y_tr[id]
            w = None if w_tr is None else w_tr[id]
            if kernel is not None:
                w_k = kernel(d)
                w = w_k if w is None else w * w_k
            for col, c in zip(cols, r_calls):
                col.append(c(y, w))
        y_preds = [np.array(col) for col in cols]''')]),
('r-C17-frac', 'C17', [('stats/regression.py', 'frac = w_masked / w.clip(1.0e-10)', 'frac = w_masked / np.maximum(w, 1.0e-10)')]),
('r-C18-hist', 'C18', [('stats/density_estimation.py', '''        is_out = np.zeros(n_x, dtype=bool)
        for id, n_loc in zip(ids, n_locs):
            is_out |= (id < 0) | (id >= n_loc-1)
''', '''        is_in = np.ones(n_x, dtype=bool)
        for id, n_loc in zip(ids, n_locs):
            is_in &= (id >= 0) & (id < n_loc-1)
        is_out = ~is_in
''')]),
('r-C18-local', 'C18', [('stats/density_estimation.py', '''            w = w_tr[id]
            if kernel is not None:
                w_k = kernel(d)
                n_w = w_k.size
                if n_w > 0:
                    w_k *= n_w / w_k.sum()
                w = w * w_k
            h_preds.append(w.sum() / vol)''', '''            w = w_tr[id]
            if kernel is not None and len(id) > 0:
                w_k = kernel(d)
                w = w * (w_k * (len(w_k) / w_k.sum()))
            h_preds.append(np.sum(w) / vol)''')]),
('r-C18-knn', 'C18', [('stats/density_estimation.py', '''        r_max: np.ndarray = ds.max(1)
        w = self._weight[ids]

        if max_dx is not None:
            mask = ds < max_dx
            r_max.clip(max=max_dx, out=r_max)
        else:
            mask = np.ones_like(ds, dtype=bool)
''', '''        w = self._weight[ids]
        r_max = ds.max(axis=1)
        mask = np.ones(ds.shape, dtype=bool)
        if max_dx is not None:
            mask = ds < max_dx
            r_max = np.minimum(r_max, max_dx)
''')]),
('r-C18-ball', 'C18', [('stats/kernel.py', '''        if n_dims == 0:
            vol = 1.0
        elif n_dims == 1:
            vol = 2.0 * radius
        else:
            vol_next = Tophat._ball_volume(n_dims-2, radius)
            vol = 2 * np.pi / n_dims * radius * radius * vol_next
        return vol''', '''        vol, d = (1.0, 0) if n_dims % 2 == 0 else (2.0 * radius, 1)
        while d < n_dims:
            d += 2
            vol = 2 * np.pi / d * radius**2 * vol
        return vol''')]),
('r-C18-fit', 'C18', [('stats/density_estimation.py', '''        self._weight = weight
        self._n_dims = x.shape[1]

        return self

    def __call__(self, x: np.ndarray, max_dx''', '''        self._n_dims = x.shape[-1]
        self._weight = np.array(weight, dtype=float)
        return self

    def __call__(self, x: np.ndarray, max_dx''')]),
('r-C19-loop', 'C19', [('stats/sampling.py', '''            ids = None
            for k, v in dset.items():
                if ids is None:
                    n = len(v)
                    re_n = min(n, max_n)
                    ids = rng.choice(n, size=re_n)
                dset_out[k] = v[ids]''', '''            ids = None
            for k in dset.keys():
                v = dset[k]
                if ids is None:
                    ids = rng.choice(len(v), size=min(len(v), max_n))
                dset_out[k] = v[ids]''')]),
('r-C19-noise', 'C19', [('stats/sampling.py', '''        if in_lg:
            out = x * 10**dx
        else:
            out = x + dx

        if n_repeats == 1:
            out = out[0]

        return out''', '''        noisy = x * 10.0**dx if in_lg else dx + x
        return noisy[0] if n_repeats == 1 else noisy''')]),
('r-C19-summ', 'C19', [('stats/sampling.py', '''            mean, sd = Stack.mean_and_sd(vals)
            dset_out |= {
                f'{key}': mean, f'{key}_sd': sd,
            }''', '''            dset_out[key], dset_out[f'{key}_sd'] = Stack.mean_and_sd(vals)''')]),
('r-C20-std', 'C20', [('stats/preprocessing.py', 'sd.clip(sd_lb, out=sd)', 'sd = np.maximum(sd, sd_lb)')]),
('r-C20-prob', 'C20', [('stats/prob_dist.py', '''        args = np.argsort(xs)
        xs_sorted = xs[args]
        n_xs = len(xs)''', '''        xs_sorted = np.sort(xs)
        n_xs = len(xs_sorted)'''), ('stats/prob_dist.py', 'np.arange(n_xs, dtype=float) / (n_xs-1.0)', 'np.linspace(0., 1., n_xs)')]),
('r-C21', 'C21,C22', [('astro/cosmology/flat_lambda_cdm_nr.py', '''        zp1 = z + 1.0
        return self.omega_l0 + self.omega_m0 * zp1**3''', '''        a = 1.0 / (1.0 + z)
        return self.omega_m0 / (a * a * a) + self.omega_l0''')]),
('r-C21-m2r', 'C21', [('astro/cosmology/flat_lambda_cdm_nr.py', '''        vol = mass / rho_mean_0
        r3 = vol / (4.0/3.0 * np.pi)
        return r3**(1.0/3.0)''', '''        return (3.0 * mass / (4.0 * np.pi * rho_mean_0))**(1.0/3.0)''')]),
('r-C21-cbrt', 'C21', [('astro/cosmology/flat_lambda_cdm_nr.py', '''        return r3**(1.0/3.0)''', '''        return np.cbrt(r3)''')]),
('r-C30-cache', 'C30', [('core/abc.py', '''        c = self.cache
        if key in c:
            out = c[key]
        else:
            out = fallback()
            c[key] = out

        return out''', '''        try:
            return self.cache[key]
        except KeyError:
            pass
        value = self.cache[key] = fallback()
        return value''')]),
('r-C30-multi', 'C30', [('core/abc.py', '''        if key not in self.cache:
            self.cache[key] = {}

        c = self.cache[key]
        if subkey in c:
            out = c[subkey]
        else:
            out = fallback()
            c[subkey] = out

        return out''', '''        c = self.cache.setdefault(key, {})
        if subkey not in c:
            c[subkey] = fallback()
        return c[subkey]''')]),
('r-C30-param', 'C30', [('astro/cosmology/param.py', '''        for i, p in enumerate(self._params):
            p.set_value(values[i])''', '''        for p, v in zip(self._params, values):
            p.set_value(v)''')]),
('r-C25-dump', 'C25', [('io/h5/named_objs.py', '''            if isinstance(v, Mapping):
                self.create_group(k, flag=flag).dump(v, flag=flag)
            else:
                dsets.create(k, v, flag=flag)''', '''            if not isinstance(v, Mapping):
                dsets.create(k, v, flag=flag)
                continue
            sub = self.create_group(k, flag=flag)
            sub.dump(v, flag=flag)''')]),
('r-C25-load', 'C25', [('io/h5/named_objs.py', '''        out = {}
        for k, v in self.items():
            if isinstance(v, Group):
                v_ld = v.load()
            elif isinstance(v, Dataset):
                v_ld = v[()]
            else:
                raise TypeError(f'Unknown value type {type(v)} for key {k}')
            out[k] = v_ld
        return DataDict(out)''', '''        out = DataDict()
        for k in self.keys():
            v = self[k]
            if isinstance(v, Dataset):
                out[k] = v[()]
            elif isinstance(v, Group):
                out[k] = v.load()
            else:
                raise TypeError(f'Unknown value type {type(v)} for key {k}')
        return out''')]),
('r-C25-dest', 'C25', [('io/h5/named_objs.py', '''            ks = [k for k in key.split('/') if len(k) > 0]
            if len(ks) == 0:    # e.g., key = '/'
                f.dump(data, flag=dump_flag)
                return
            g = f
            for k in ks[:-1]:''', '''            ks = [k for k in key.split('/') if k]
            if not ks:    # e.g., key = '/'
                f.dump(data, flag=dump_flag)
                return
            *parents, last = ks
            g = f
            for k in parents:'''), ('io/h5/named_objs.py', '''                g.create_group(ks[-1], flag=g_flag).dump(data, flag=dump_flag)
            else:
                g.datasets.create(ks[-1], data, flag=dump_flag)''', '''                g.create_group(last, flag=g_flag).dump(data, flag=dump_flag)
            else:
                g.datasets.create(last, data, flag=dump_flag)''')]),
('r-C25-check', 'C25', [('io/h5/utils.py', '''        for k, v in data_dict.items():
            if not Self.is_supported_key(k):
                return False, f'key {k}'    
            if isinstance(v, Mapping):
                res, hint = Self.is_data_dict_supported(v)
                if not res:
                    return False, f'{hint} for key {k}'
            elif not Self.is_supported_data(v):
                return False, f'value {v} for key {k}'
        return True, None''', '''        for k, v in data_dict.items():
            hint = Self._find_problem(k, v)
            if hint is not None:
                return False, hint
        return True, None

    @staticmethod
    def _find_problem(k, v):
        if not Utils.is_supported_key(k):
            return f'key {k}'
        if not isinstance(v, Mapping):
            return None if Utils.is_supported_data(v) else f'value {v} for key {k}'
        res, hint = Utils.is_data_dict_supported(v)
        return None if res else f'{hint} for key {k}\'''')]),
('r-C26-create', 'C26,C25', [('io/h5/named_objs.py', '''        if key in self._raw.keys():
            if flag == 'x':
                raise ValueError(f'Redundant key {key}')
            val: h5py.Dataset = self._raw[key]
            if not isinstance(val, h5py.Dataset):
                raise ValueError(f'key {key} does not refer to a dataset')
            val[...] = data
        else:
            val = self._raw.create_dataset(key, data=data)

        return Dataset(val)''', '''        if key not in self._raw:
            return Dataset(self._raw.create_dataset(key, data=data))
        if flag == 'x':
            raise ValueError(f'Redundant key {key}')
        val = self._raw[key]
        if not isinstance(val, h5py.Dataset):
            raise ValueError(f'key {key} does not refer to a dataset')
        val[...] = data
        return Dataset(val)''')]),
('r-C26-attr', 'C26', [('io/h5/named_objs.py', '''        if key in self:
            if flag == 'x':
                raise ValueError(f'Redundant key {key}')
            self._raw.modify(key, data)
        else:
            self._raw.create(key, data=data)''', '''        exists = key in self._raw
        if exists and flag == 'x':
            raise ValueError(f'Redundant key {key}')
        if exists:
            self._raw.modify(key, data)
        else:
            self._raw.create(key, data)''')]),
('r-C26-group', 'C26,C25', [('io/h5/named_objs.py', '''            val = self._raw[key]
            if not isinstance(val, h5py.Group):
                raise ValueError(f'key {key} does not refer to a group')
            val = Group(val)
        else:
            val = Group(self._raw.create_group(key))

        return val''', '''            raw = self._raw[key]
            if isinstance(raw, h5py.Group):
                return Group(raw)
            raise ValueError(f'key {key} does not refer to a group')

        return Group(self._raw.create_group(key))''')]),
('r-C27-sect', 'C27', [('io/binary/fortran.py', '''        n1 = self.load_rec(np.int32)
        data = self.load_rec(dtype, n=n)
        n2 = self.load_rec(np.int32)
        assert n1 == n2
        return data''', '''        head = self.load_rec(np.int32)
        data = self.load_rec(dtype, n)
        tail = self.load_rec(np.int32)
        assert head == tail, f'{head} != {tail}'
        return data''')]),
('r-C27-rec', 'C27', [('io/binary/fortran.py', '''        if n is None:
            return self.load_rec(dtype, n=1)[0]
        return np.fromfile(self._file, dtype=dtype, count=n)''', '''        count = 1 if n is None else n
        data = np.fromfile(self._file, dtype=dtype, count=count)
        return data[0] if n is None else data''')]),
('r-C27-yaml', 'C27', [('io/yaml.py', '''        for k in keys:
            if k in data:
                d[k] = data[k]''', '''        d.update({k: data[k] for k in keys if k in data})''')]),
('r-C27-yaml2', 'C27', [('io/yaml.py', '''        d = DataDict()
        self.__try_parse(keys, d, data)
        for k in self.nested_nodes:
            data = data[k]
            self.__try_parse(keys, d, data)''', '''        layers = [data]
        for k in self.nested_nodes:
            data = data[k]
            layers.append(data)
        d = DataDict()
        for layer in layers:
            self.__try_parse(keys, d, layer)''')]),
]
