"""Property-breaking edits written from the property texts (expected: rc 1)."""
NUM='core/dataproc/num.py'; DS='core/dataproc/data_structs.py'; IT='core/dataproc/iter.py'; MK='core/dataproc/mask.py'; FI='core/dataproc/filter.py'; FR='core/dataproc/frame.py'
BI='stats/binning.py'; IP='numerical/interpolate.py'; MA='field/cubic_box/mass_assignment.py'; ME='field/cubic_box/mesh.py'; FL='field/cubic_box/field.py'; FT='field/cubic_box/fft.py'
GR='core/dataproc/grid.py'; US='astro/quantity/unit_system.py'; CV='astro/coords/cvt.py'; PG='group_theory/point_group.py'; HT='astro/cosmology/halo_theory.py'; MO='astro/cosmology/model.py'
PS='astro/cosmology/power_spectrum.py'; RN='stats/random.py'; SP='stats/sampling.py'; SM='stats/summary.py'; KE='stats/kernel.py'
DD='core/containers/data_dict.py'; DT='core/containers/data_table.py'; RE='stats/reduction.py'; RG='stats/regression.py'; DE='stats/density_estimation.py'
KM='field/neighbor/kd_mesh.py'; KT='field/neighbor/kd_tree.py'; SO='field/cubic_box/smoothing.py'; CW='field/cubic_box/cosmic_web.py'; GV='field/cubic_box/gravity.py'
AB='core/abc.py'; PA='astro/cosmology/param.py'; FO='io/binary/fortran.py'; YA='io/yaml.py'; FC='astro/cosmology/flat_lambda_cdm_nr.py'; NO='io/h5/named_objs.py'; UT='io/h5/utils.py'; PD='stats/prob_dist.py'; PP='stats/preprocessing.py'
V = [
('m-C01-or', 'C01', [(DD, '''        out = self.copy()
        out |= other
        return out''', '''        out = self if len(other) == 0 else self.copy()
        out |= other
        return out''')]),
('m-C01-init', 'C01', [(DD, '''        self._dict = {k: v for k, v in dict.items()}''', '''        self._dict = dict._dict if isinstance(dict, DataDict) else {k: v for k, v in dict.items()}''')]),
('m-C01-set', 'C01', [(DD, '''        v = self._dict
        for k in keys[:-1]:
            v = v[k]
        v[keys[-1]] = val''', '''        v = self._dict
        for k in keys[:-1]:
            v = v.setdefault(k, {})
        v[keys[-1]] = val''')]),
('m-C01-split', 'C01', [(DD, "return tuple(k for k in key.split('/') if len(k) > 0)", "return tuple(k for k in key.strip('/').split('/'))")]),
('m-C01-contains', 'C01', [(DD, '''        return key in self._dict
''', '''        return key in self._dict or (isinstance(key, str) and key.strip('/') in self._dict)
''')]),
('m-C01-del', 'C01', [(DD, '''            for _key in key:
                del self[_key]
            return''', '''            for _key in set(key):
                del self[_key]
            return''')]),
('m-C02-setview', 'C02', [(DT, '''            _data[key] = np.array(val)
            return''', '''            _data[key] = np.asarray(val)
            return''')]),
('m-C02-settuple', 'C02', [(DT, '''            _data[_key] = np.array(_val)''', '''            _data[_key] = np.asarray(_val)''')]),
('m-C02-update', 'C02', [(DT, '''            k: np.array(v, copy=copy) for k, v in other.items()
        })

    def clear''', '''            k: np.asarray(v) if isinstance(other, DataTable) else np.array(v, copy=copy) for k, v in other.items()
        })

    def clear''')]),
('m-C02-stack', 'C02', [(DT, "return np.column_stack(list(self.values()))", "return np.column_stack([self[k] for k in sorted(self.keys())])")]),
('m-C02-subcol', 'C02', [(DT, '''            k: self[k] for k in keys
        }, copy=copy)''', '''            k: self[k] for k in self.keys() if k in keys
        }, copy=copy)''')]),
('m-C02-concat', 'C02', [(DT, '''            for k in self.keys()
        })

    def subset''', '''            for k in self.keys() if all(k in t for t in all_tables)
        })

    def subset''')]),
('m-C02-todict', 'C02', [(DT, "        return {k: np.array(v, copy=copy) for k, v in self.items()}", "        return {k: np.asarray(v) for k, v in self.items()}")]),
('m-C03-order', 'C03', [(NUM, '''        if hi is not None:
            x = min(x, hi)
        return x''', '''        if hi:
            x = min(x, hi)
        return x''')]),
('m-C03-arr0', 'C03', [(NUM, '''        if lo is not None:
            sel = x < lo''', '''        if lo:
            sel = x < lo''')]),
('m-C03-copy', 'C03', [(NUM, "            x = Num.bound_array(x, lo = lo, hi = hi, copy=copy)", "            x = Num.bound_array(x, lo = lo, hi = hi)")]),
('m-C03-noncontig', 'C03', [(NUM, '''            sel = x < lo
            x[sel] = lo''', '''            x = np.where(x < lo, lo, x)''')]),
('m-C03-lglo', 'C03', [(NUM, '''        return tuple(Num.safe_lg(arg, lo=lo) for arg in args)''', '''        return tuple(Num.safe_lg(arg) for arg in args)''')]),
('m-C03-lnlg', 'C03', [(NUM, '''        return tuple(Num.safe_ln(arg, lo=lo) for arg in args)''', '''        return tuple(np.log(Num.bound(arg, lo=abs(lo))) if i == 0 else Num.safe_ln(arg, lo=1.0e-10) for i, arg in enumerate(args))''')]),
('m-C03-div', 'C03', [(NUM, "return x / Num.bound(y, lo)", "return x / Num.bound(np.abs(y), lo)")]),
('m-C03-norm', 'C03', [(NUM, "n = np.clip(n, lo, None, out=n) ", "n = n + lo")]),
('m-C03-normaxis', 'C03', [(NUM, "        n = Num.norm(x, axis=axis, keepdims=True)\n", "        n = Num.norm(x, axis=-1, keepdims=True)\n")]),
('m-C04-end', 'C04', [(DS, '''        if not has_end:
            off = off[:-1]''', '''        if not has_end and len(off) > 2:
            off = off[:-1]''')]),
('m-C04-select', 'C04', [(MK, '''        return np.select(masks, arrays, **kw)''', '''        return np.select(masks[::-1], arrays[::-1], **kw)''')]),
('m-C04-default0', 'C04', [(MK, '''        if default is not None:
            kw['default'] = default''', '''        if default:
            kw['default'] = default''')]),
('m-C04-range', 'C04', [(FI, "mask &= ( x < max )", "mask &= ( x <= max )")]),
('m-C04-range0', 'C04', [(FI, "        if max is not None:", "        if max:")]),
('m-C04-multi', 'C04', [(IT, '''                yield tuple(seq[b:e] for seq in seqs)''', '''                yield tuple(seq[b:e] if e > b else seq[:0] for seq in seqs[:2]) + tuple(seqs[2:])''')]),
('m-C04-idx', 'C04', [(MK, "bool_array[idx_array] = True", "bool_array[idx_array[idx_array > 0]] = True")]),
('m-C05-eq', 'C05', [(FR, "mask = PeriodicBox.__combine_mask(x >= l_box, where)", "mask = PeriodicBox.__combine_mask(x > l_box, where)")]),
('m-C05-half', 'C05', [(FR, "mask = PeriodicBox.__combine_mask(dx >= l_half, where)", "mask = PeriodicBox.__combine_mask(dx > l_half, where)")]),
('m-C05-where', 'C05', [(FR, "return mask if where is None else mask & where", "return mask if where is None or not np.any(where) else mask & where")]),
('m-C05-bound', 'C05', [(FR, "return ((x >= 0.0) & (x < l_box)).all()", "return bool(x.size) and ((x >= 0.0) & (x < l_box)).all()")]),
('m-C06-clip', 'C06', [(BI, "        upper = self.n_bins - 1 if upper else None", "        upper = self.n_bins if upper else None")]),
('m-C06-eq', 'C06', [(BI, "return np.clip(ids, -1, n_bins).astype(np.int64)", "return np.clip(ids.astype(np.int64), -1, n_bins)")]),
('m-C06-near', 'C06', [(BI, "        ind_l= self.locate_bound(x)", "        ind_l= self.locate_bound(x, upper=False)")]),
('m-C06-mdT', 'C06', [(GR, '''        x = np.asarray(x).T
        return tuple''', '''        x = np.asarray(x)
        x = x.T if x.shape[0] != x.shape[-1] else x
        return tuple''')]),
('m-C06-gridstep', 'C06', [(GR, "cent_locs = 0.5*(locs[:-1] + locs[1:])", "cent_locs = locs[:-1] + 0.5*(locs[1] - locs[0])")]),
('m-C06-ctr', 'C06', [(BI, "return 0.5 * (es[:-1] + es[1:])", "return es[:-1] + 0.5 * (es[-1] - es[0]) / self.n_bins")]),
('m-C07-last', 'C07', [(BI, '''            if id >= 0 and id < n_bins:
                data[id] += weights[i]''', '''            if id >= 0 and id <= n_bins:
                data[min(id, n_bins - 1)] += weights[i]''')]),
('m-C07-stride', 'C07', [(BI, '''        lo, hi = e[:-stride], e[stride:]
        return hi - lo''', '''        lo, hi = e[:-1], e[1:]
        return stride * (hi - lo)[:len(e) - stride]''')]),
('m-C07-range', 'C07', [(BI, "x_max = min(x_max, x_max1)", "x_max = max(x_max, x_max1)")]),
('m-C07-sub', 'C07', [(BI, '''            bins = bins * sub_bins
            assert range is not None''', '''            bins = bins * sub_bins if bins > 1 else bins
            assert range is not None''')]),
('m-C07-w0', 'C07', [(BI, "        if weight is None:\n            self.__add_unweighted", "        if weight is None or not np.any(weight):\n            self.__add_unweighted")]),
('m-C08-maskw', 'C08', [(RE, "            w_tot = weight if mask is None else weight * mask", "            w_tot = weight")]),
('m-C08-std', 'C08', [(RE, "        out = np.asarray(mean(dx * dx, weight, mask))", "        out = np.asarray(mean(dx * dx, None, mask))")]),
('m-C08-emptyfill', 'C08', [(RE, "        mean = Mean(self.empty_fill)\n", "        mean = Mean()\n"), (RE, '''        out = np.asarray(np.sqrt(out))
        out[sel_empty] = self.empty_fill
        return out''', '''        out = np.asarray(np.sqrt(out))
        out[sel_empty] = mean.empty_fill
        return out''')]),
('m-C08-sort', 'C08', [(RE, '''            x, weight = x[idx], weight[idx]''', '''            x = x[idx]''')]),
('m-C08-errhi', 'C08', [(RE, "out = x_med, x_med - x_lo, x_hi - x_med", "out = x_med, x_hi - x_med, x_med - x_lo")]),
('m-C08-count', 'C08', [(RE, "out = np.full(x.shape[:-1], x.shape[-1]) if mask is None else mask.sum(-1)", "out = np.full(x.shape[:-1], x.shape[-1]) if mask is None or mask.all() else (mask * (x == x)).sum(-1) if mask.ndim == 1 else mask.sum(0)")]),
('m-C08-median', 'C08', [(RE, "        return np.median(x)", "        return np.sort(x)[len(x) // 2]")]),
('m-C08-2dw', 'C08', [(RE, "            _w = None if weight is None else weight[i]", "            _w = None if weight is None else weight[0] if mask is None else weight[i]")]),
('m-C08-iter', 'C08', [(RE, '''        for r in reduce:
            yield self.create(r)''', '''        for r in dict.fromkeys(reduce):
            yield self.create(r)''')]),
('m-C09-w', 'C09', [(IP, "    if r > n-1:\n        return n-1, n-1, 1.0, 0.0", "    if r > n-1:\n        return n-1, n-1, 0.0, 0.0")]),
('m-C09-oob', 'C09', [(IP, "    if x_dst > x_sorted[-1]:\n        return y_right", "    if x_dst >= x_sorted[-1]:\n        return y_right")]),
('m-C09-2d', 'C09', [(IP, "w_ll, w_lr, w_rl, w_rr = w1_l * w2_l, w1_l * w2_r, w1_r * w2_l, w1_r * w2_r", "w_ll, w_lr, w_rl, w_rr = w1_l * w2_l, w1_r * w2_l, w1_l * w2_r, w1_r * w2_r")]),
('m-C09-der', 'C09', [(IP, "                i_l, i_r = n-2, n-1", "                i_l, i_r = n-3, n-1")]),
('m-C09-arr', 'C09', [(IP, "        idx[i] = bisearch_nearest(x_sorted, _x_dst)", "        idx[i] = bisearch_nearest(x_sorted, _x_dst) if i == 0 or _x_dst >= x_dst[i-1] else bisearch(x_sorted, _x_dst)")]),
('m-C10-neg', 'C10', [(MA, "        x_l = np.floor(x)\n", "        x_l = np.trunc(x)\n")]),
('m-C10-wt', 'C10', [(MA, "        d[i0_r, i1_r, i2_r] += w0_r * w1_r * w2_r * weight", "        d[i0_r, i1_r, i2_r] = d[i0_l, i1_r, i2_r] * 0.0 + d[i0_r, i1_r, i2_r] + w0_r * w1_r * w2_l * weight")]),
('m-C10-wnone', 'C10', [(MA, "        if weights is not None:\n            for x, weight in zip(xs, weights):", "        if weights is not None and len(weights) > 1:\n            for x, weight in zip(xs, weights):")]),
('m-C10-mod', 'C10', [(MA, "i_l, i_r = i_l % n_grids, i_r % n_grids", "i_l = i_l % n_grids\n        i_r = min(i_l + 1, n_grids - 1)")]),
('m-C10-join', 'C10', [(MA, "                data += in_group.datasets['data']", "                data = data + in_group.datasets['data']")]),
('m-C10-initdata', 'C10', [(MA, "        self._ma.add(xs, weights)\n", "        self._ma.add(xs % self._ma.shape_fn.mesh.l_box if (xs < 0).any() and xs.shape[0] > 1 else np.abs(xs), weights)\n")]),
('m-C11-round', 'C11', [(ME, "xi = np.int64(np.floor(x / l + 0.5)) % n", "xi = np.int64(x / l + 0.5) % n")]),
('m-C11-nd', 'C11', [(ME, "xi = np.floor(x / l + 0.5).astype(np.int64) % n", "xi = np.floor(x / l).astype(np.int64) % n")]),
('m-C11-interp', 'C11', [(CW, "                + data[i0_r, i1_l, i2_r] * w0_r * w1_l * w2_r \\", "                + data[i0_r, i1_l, i2_l] * w0_r * w1_l * w2_r \\")]),
('m-C11-vol', 'C11', [(ME, '''    def cell_volume(self) -> float:
        return self.l_grid**3''', '''    def cell_volume(self) -> float:
        return self.l_grid**2 * self.l_box / (self.n_grids + 1)''')]),
('m-C12-mean', 'C12', [(SO, '''        delta_x = self._normalize(rho_x)
        delta_k = fft.forward(delta_x)''', '''        delta_x = self._normalize(rho_x)
        delta_k = fft.forward(rho_x)''')]),
('m-C12-tophatw', 'C12', [(SO, "return 3.0 * (np.sin(kr) - kr * np.cos(kr)) / kr**3", "return 3.0 * (np.sin(kr) - kr * np.cos(kr)) / kr**3 if kr < 10.0 else 0.0")]),
('m-C12-neg', 'C12', [(SO, '''        rho_mean = rho_x.mean()
        if rho_mean < 1.0e-10:''', '''        rho_mean = rho_x.mean()
        if np.abs(rho_mean) < 1.0e-10:''')]),
('m-C12-inplace', 'C12', [(FT, '''                    overwrite_x=self.overwrite_input, workers''', '''                    overwrite_x=True, workers''')]),
('m-C12-nyq', 'C12', [(SO, '''                    w_CIC = 1.0 / S.shape_at_ki_nd(ki)
''', '''                    w_CIC = 1.0 / S.shape_at_ki_nd(ki) if i2 < Nd2p1 - 1 else 1.0
''')]),
('m-C13-trace', 'C13', [(GV, "                if i != j:\n                    T_x[..., j, i] = Tij_x", "                if i > j + 1:\n                    T_x[..., j, i] = Tij_x\n                elif i != j:\n                    T_x[..., j, i] = T_x[..., j, j]")]),
('m-C13-eig', 'C13', [(GV, "lam = np.linalg.eigvalsh(T_x)", "lam = np.linalg.eigvalsh(T_x)[..., ::-1]")]),
('m-C13-norm', 'C13', [(GV, "delta_x = rho_x / rho_mean - 1.0", "delta_x = rho_x - rho_mean")]),
('m-C13-corr', 'C13', [(GV, "                    _delta_sm_k = _delta_k * w_S * w_sm\n", "                    _delta_sm_k = _delta_k * w_sm * (w_S if i0 <= Nd2 else 1.0)\n")]),
('m-C14-lam', 'C14', [(CW, "            lam_out[i] = lam[i0, i1, i2]", "            lam_out[i] = np.abs(lam[i0, i1, i2])")]),
('m-C14-thr', 'C14', [(CW, "        return cls(lam, mesh, lam_th=lam_th)", "        return cls(lam, mesh)")]),
('m-C14-pos', 'C14', [(CW, "indexing='ij')\n        idx_3d = [idx[sel]", "indexing='xy')\n        idx_3d = [idx[sel]")]),
('m-C14-check', 'C14', [(CW, "        assert np.all(lam[:, :, :, 1] <= lam[:, :, :, 2])\n", "        assert np.all(lam[:, :, :, 0] <= lam[:, :, :, 2])\n")]),
('m-C15-lb', 'C15', [(KM, "lb0, lb1, lb2 = mesh.x2xi_3(x_dst - r_dst)", "lb0, lb1, lb2 = np.maximum(mesh.x2xi_3(x_dst - r_dst), -1)")]),
('m-C15-idx', 'C15', [(KM, '''        for i_dst in i_dsts:
            x_dst, r_dst = x_dsts[i_dst], r_dsts[i_dst]
''', '''        for i_dst in i_dsts:
            x_dst, r_dst = x_dsts[i_dst], r_dsts[0]
''')]),
('m-C15-last', 'C15', [(KM, "                    b, e = cell_firsts[i_f], cell_firsts[i_f+1]", "                    b, e = cell_firsts[i_f], max(cell_firsts[i_f], cell_firsts[i_f+1] - (i_f == n**3 - 1 and n % 2 == 1))")]),
('m-C15-off', 'C15', [(KM, "    xi_fs, xs = xi_fs[args], xs[args]", "    xi_fs, xs = xi_fs[args], xs[args] % mesh.l_box")]),
('m-C16-open', 'C16', [(KT, "        ids = self.impl.query_ball_point(x, r, workers=self.n_workers)", "        ids = self.impl.query_ball_point(x, r, eps=1.0e-1, workers=self.n_workers)")]),
('m-C16-box', 'C16', [(KT, "assert (x >= 0.0).all() and (x < self.l_box).all()", "assert (x >= 0.0).all() and (x <= self.l_box).all()")]),
('m-C16-sort', 'C16', [(KT, "        d = self.__d(x, self.impl.data[ids])", "        d = np.sort(self.__d(x, self.impl.data[ids]))")]),
('m-C17-order', 'C17', [(RG, "            w_k = m_kernel.predefined.create(kernel)[1](ds)\n            w = w_k if w is None else w * w_k\n\n        y_preds = []\n        out = DataDict({'x': x, 'y': y_preds})", "            w_k = m_kernel.predefined.create(kernel)[1](ds)\n            w = w_k\n\n        y_preds = []\n        out = DataDict({'x': x, 'y': y_preds})")]),
('m-C17-minc', 'C17', [(RG, "invalid = count < min_count", "invalid = count <= min_count")]),
('m-C17-fracm', 'C17', [(RG, "        frac = w_masked / w.clip(1.0e-10)", "        frac = w_masked / w.clip(1.0)")]),
('m-C17-gauss', 'C17', [(KE, "return np.exp( -0.5 * d_sq / sigma_sq )", "return np.exp( -0.5 * d_sq / sigma )")]),
('m-C17-tophat', 'C17', [(KE, "        out = d < self.radius\n", "        out = d <= self.radius\n")]),
('m-C17-yname', 'C17', [(RG, '''        for r_name, y_pred in zip(r_names, y_preds):
            out[f'y_{r_name}'] = y_pred''', '''        for r_name, y_pred in zip(sorted(r_names), y_preds):
            out[f'y_{r_name}'] = y_pred''')]),
('m-C18-last', 'C18', [(DE, "is_out |= (id < 0) | (id >= n_loc-1)", "is_out |= (id < 0) | (id >= n_loc)")]),
('m-C18-wnorm', 'C18', [(DE, '''        x = self._cvt_x_shape(x)
        self._impl = _LocalKernelDensityEstimation.Impl(x, **self.impl_kw)

        if weight is None:
            w = 1.0 / len(x)
            weight = np.full(len(x), w)
        else:
            weight = np.asarray(weight)
            weight = weight / weight.sum()
        self._weight = weight
        self._n_dims = x.shape[1]

        return self

    def __call__(self, x: np.ndarray, max_dx''', '''        x = self._cvt_x_shape(x)
        self._impl = _LocalKernelDensityEstimation.Impl(x, **self.impl_kw)

        if weight is None:
            w = 1.0 / len(x)
            weight = np.full(len(x), w)
        else:
            weight = np.asarray(weight)
            weight = weight / max(weight.sum(), 1.0)
        self._weight = weight
        self._n_dims = x.shape[1]

        return self

    def __call__(self, x: np.ndarray, max_dx''')]),
('m-C18-vol', 'C18', [(KE, "            vol = 2 * np.pi / n_dims * radius * radius * vol_next", "            vol = 2 * np.pi / max(n_dims - 1, 2) * radius * radius * vol_next")]),
('m-C18-nn', 'C18', [(DE, "        n_w = mask.sum(1)\n", "        n_w = np.full(len(mask), k) if kernel is None else mask.sum(1)\n")]),
('m-C19-size', 'C19', [(SP, "                    re_n = min(n, max_n)", "                    re_n = min(n, max_n) if max_n > 1 else n")]),
('m-C19-ids', 'C19', [(SP, '''        for dset, max_n in zip(dsets, max_ns):
            ids = None
''', '''        ids = None
        for dset, max_n in zip(dsets, max_ns):
''')]),
('m-C19-kw', 'C19', [(SP, "                _dset_in |= stats_kw\n", "                _dset_in = DataDict(stats_kw) | _dset_in\n")]),
('m-C19-rng', 'C19', [(SP, "        rng = Rng(rng)\n", "        rng = Rng(rng or None)\n")]),
('m-C19-lg', 'C19', [(SP, "out = x * 10**dx", "out = x * np.exp(dx * 2.3)")]),
('m-C19-sd', 'C19', [('stats/stacking.py', "return x.mean(0), x.std(0)", "return x.mean(0), x.std(0, ddof=min(1, len(x) - 1))")]),
('m-C20-std', 'C20', [(PP, "return x * self.sd + self.mean", "return x * self.sd + self.mean if x.ndim > 1 else x * self.sd.mean() + self.mean")]),
('m-C20-prob', 'C20', [(PD, "cum_ps = np.arange(n_xs, dtype=float) / (n_xs-1.0)", "cum_ps = (np.arange(n_xs, dtype=float) + 0.5) / n_xs")]),
('m-C20-inv', 'C20', [(PD, '''        if with_norm:
            ys = self.CDF_norm(ys)''', '''        if with_norm:
            ys = np.clip(self.CDF_norm(ys), 1e-3, 1 - 1e-3)''')]),
('m-C21-l', 'C21', [(FC, "return self.omega_l0 / self.efunc_sqr(z)", "return 1.0 - self.omega_m(z) if z >= 0 else self.omega_l0")]),
('m-C21-r', 'C21', [(FC, "        r3 = vol / (4.0/3.0 * np.pi)", "        r3 = vol / 4.18879")]),
('m-C21-crit', 'C21', [(FC, "        E2 = self.cosm.efunc_sqr(z)\n", "        E2 = self.cosm.efunc(z) * (1.0 + z)**1.5\n")]),
('m-C22-crit', 'C22', [(HT, "rho_crit = self.model.rho_crit(z) * a**3", "rho_crit = self.model.rho_crit(z) * a**2")]),
('m-C22-vphy', 'C22', [(HT, "v = self.v_vir(m, r_phy)", "v = self.v_vir(m, r)")]),
('m-C22-f', 'C22', [(HT, '''        rho = self.rho_vir_crit(f, z)
''', '''        rho = self.rho_vir_crit(z=z) if np.isscalar(f) else self.rho_vir_crit(f, z)
''')]),
('m-C22-nfw', 'C22', [(HT, "np.linspace(51., 100.0, n_interp),", "np.linspace(50., 100.0, n_interp),")]),
('m-C22-lb', 'C22', [(MO, "return t_lb * self.hubble", "return t_lb / self.hubble")]),
('m-C22-inv', 'C22', [(MO, "d = dp.Num.bound(d, lo=1.0e-4)", "d = dp.Num.bound(d, lo=1.0e-4, hi=5.0e3)")]),
('m-C23-ang', 'C23', [(US, "u_angular_momentum = u_l * u_m * u_v", "u_angular_momentum = u_l * u_m / u_t")]),
('m-C23-sal', 'C23', [(US, "self.salpeter_time = cc.salpeter_time / u_time", "self.salpeter_time = cc.salpeter_time / cc.gyr_to_s")]),
('m-C23-yr', 'C23', [(US, "self.yr_to_s = self.gyr_to_s / 1.0e9", "self.yr_to_s = 365.0 * 86400.0")]),
('m-C23-g', 'C23', [(US, "self.c_m_p = self.__conv_coef(c.m_p, self.u_m)", "self.c_m_p = self.__conv_coef(c.u, self.u_m)")]),
('m-C24-win', 'C24', [(PS, "            return (1./3.) * x\n", "            return (1./5.) * x\n")]),
('m-C24-z', 'C24', [(PS, "        D1 = self.growth_fac(z)\n        f2 = 1.0e3 * T * D1\n\n        return norm * f1 * f2**2\n\n    def power", "        D1 = self.growth_fac(z)\n        f2 = 1.0e3 * T * D1\n\n        return norm * f1 * f2 * 1.0e3 * T\n\n    def power")]),
('m-C24-norm', 'C24', [(PS, "        sigma_sqr = self.sigma_sqr(8.0, 0.0)\n", "        sigma_sqr = self.sigma_sqr(8.0 / self._cosm.hubble, 0.0)\n")]),
('m-C24-mass', 'C24', [(PS, "            sigma_sqr = self.sigma_sqr_at_mass(_m, 0.0)\n            lsigma[i] = np.log10(np.sqrt(sigma_sqr))", "            sigma_sqr = self.sigma_sqr_at_mass(_m, 0.0)\n            lsigma[i] = np.log10(sigma_sqr)")]),
('m-C24-delta', 'C24', [(PS, "        return 1.686 / self.growth_factor(z)", "        return 1.686 * (1. + z) / self.growth_factor(0.)")]),
('m-C24-growth', 'C24', [(PS, '''        norm = 1.0 / D_1_z0
        self.norm = norm''', '''        norm = 1.0 / D_1_z0
        self.norm = norm if self.cosm.omega_m0 < 1.0 else 1.0''')]),
('m-C24-kin', 'C24', [(PS, "        f1 = k**(3.0 + n_spec)\n        f2 = 1.0e3 * T * D1 * W ", "        f1 = k**3.0 * min(k, 1.0)**n_spec * max(k, 1.0)**n_spec * (1.0 if k < 1e3 else 0.5)\n        f2 = 1.0e3 * T * D1 * W ")]),
('m-C25-empty', 'C25', [(NO, '''                self.create_group(k, flag=flag).dump(v, flag=flag)
            else:''', '''                if len(v) > 0:
                    self.create_group(k, flag=flag).dump(v, flag=flag)
            else:''')]),
('m-C25-chk', 'C25', [(UT, '''                res, hint = Self.is_data_dict_supported(v)
                if not res:
                    return False, f'{hint} for key {k}\'''', '''                res, hint = Self.is_data_dict_supported(v)
                return res, f'{hint} for key {k}\'''')]),
('m-C25-re', 'C25', [(UT, "return [key for key in keys if re_obj.match(key)]", "return [key for key in keys if re_obj.search(key)]")]),
('m-C25-parent', 'C25', [(NO, '''                    if not isinstance(g, Group):
                        raise ValueError(f'key {k} does not refer to a group')
            if isinstance(data''', '''                    if not isinstance(g, Group):
                        g = f
            if isinstance(data''')]),
('m-C25-attrs', 'C25', [(NO, '''    def values(self) -> Iterator[Utils.ArrayOrAny]:
        raw = self._raw
        return (raw[k] for k in self.__keys())''', '''    def values(self) -> Iterator[Utils.ArrayOrAny]:
        raw = self._raw
        return (raw[k] for k in sorted(self.__keys(), reverse=True))''')]),
('m-C26-softl', 'C26', [(NO, '''        else:
            self._raw[key] = h5py.SoftLink(path)''', '''            del self._raw[key]
        self._raw[key] = h5py.SoftLink(path)''')]),
('m-C26-empty', 'C26', [(NO, '''        if key in self:
            if flag == 'x':
                raise ValueError(f'Redundant key {key}')
        else:
            self._raw.create(key, np.zeros(shape, dtype), dtype=dtype)''', '''        if key in self and flag == 'x':
            raise ValueError(f'Redundant key {key}')
        self._raw.create(key, np.zeros(shape, dtype), dtype=dtype)''')]),
('m-C26-grp', 'C26', [(NO, '''            if not isinstance(val, h5py.Group):
                raise ValueError(f'key {key} does not refer to a group')
            val = Group(val)''', '''            if not isinstance(val, h5py.Group):
                del self._raw[key]
                val = self._raw.create_group(key)
            val = Group(val)''')]),
('m-C26-set', 'C26', [(NO, '''        if key not in self:
            raise KeyError(f'Attribute {key} not found')
        self._raw.modify(key, value)''', '''        self._raw.modify(key, value)''')]),
('m-C26-a', 'C26', [(NO, "        'a':    'r+',", "        'a':    'a',")]),
('m-C27-sect', 'C27', [(FO, '''        self.skip_rec(dtype, n=n)
        n2 = self.load_rec(np.int32)
        assert n1 == n2''', '''        self.seek(int(n1), 1)
        n2 = self.load_rec(np.int32)
        assert n1 == n2''')]),
('m-C27-n0', 'C27', [(FO, '''        if n is None:
            n = 1
        return''', '''        if not n:
            n = 1
        return''')]),
('m-C27-seek', 'C27', [(FO, "return np.fromfile(self._file, dtype=dtype, count=n)", "return np.fromfile(self._file, dtype=dtype, count=max(n, -1) or -1)")]),
('m-C27-nest', 'C27', [(YA, '''        for k in self.nested_nodes:
            data = data[k]''', '''        for k in self.nested_nodes:
            if k not in data:
                break
            data = data[k]''')]),
('m-C27-miss', 'C27', [(YA, '''        for k in keys:
            if k not in d:
                raise''', '''        for k in keys[:-1] if len(keys) > 3 else keys:
            if k not in d:
                raise''')]),
('m-C27-deep', 'C27', [(YA, '''            if k in data:
                d[k] = data[k]''', '''            if k in data and not isinstance(d.get(k), list):
                d[k] = data[k]''')]),
('m-C28-copy', 'C28', [(PG, "        return Group([op.copied() for op in self.ops])", "        return Group(list(self.ops))")]),
('m-C28-alias', 'C28', [(PG, '''        out = type(self)()
        out.mat[...] = self.mat
        return out''', '''        out = type(self)()
        out.mat = self.mat
        return out''')]),
('m-C28-call', 'C28', [(PG, "return x @ self.mat.T", "return x @ self.mat")]),
('m-C28-create', 'C28', [(PG, "            return g0.combined(g1, g2)", "            return g2.combined(g1, g1)")]),
('m-C29-neg', 'C29', [(CV, "math.copysign(1., h) * (abs(h) + m / 60. + s / 3600.)*15.", "math.copysign(1., h) * (abs(h) + m / 60. + s / 3600.)*15. % 360.")]),
('m-C29-phi', 'C29', [(FR, "        y = sin_t * sin_p\n        out = x,y,z", "        y = np.sqrt(np.abs(sin_t**2 - x**2)) * np.sign(sin_p)\n        out = x,y,z")]),
('m-C29-rt', 'C29', [(FR, "return vnew_x*v[:,[0]]+vnew_y*v[:,[1]]+vnew_z*v[:,[2]]", "return vnew_x*v[:,[0]]-vnew_y*v[:,[1]]+vnew_z*v[:,[2]]")]),
('m-C29-inp', 'C29', [(FR, "        vnew_z = np.array(x, dtype=float)\n", "        vnew_z = np.asarray(x, dtype=float)\n")]),
('m-C29-sph', 'C29', [(RN, "        y = sin_t * sin_p\n        return x, y, z", "        y = cos_t * sin_p\n        return x, y, z")]),
('m-C30-multi', 'C30', [(AB, '''        c = self.cache[key]
        if subkey in c:
            out = c[subkey]''', '''        c = self.cache[key]
        if c.get(subkey) is not None:
            out = c[subkey]''')]),
('m-C30-multishare', 'C30', [(AB, '''        if key not in self.cache:
            self.cache[key] = {}
''', '''        if not self.cache.get(key):
            self.cache[key] = {}
            self.cache.setdefault(subkey, self.cache[key])
''')]),
('m-C30-num', 'C30', [(PA, "        return self._params[key]\n", "        return self._params[key % len(self._params) if key > 0 else key]\n")]),
('m-C30-setval', 'C30', [(AB, "        self.value[...] = value\n", "        self.value = np.array(value)\n")]),
]
