NUM='core/dataproc/num.py'; DS='core/dataproc/data_structs.py'; IT='core/dataproc/iter.py'; MK='core/dataproc/mask.py'; FI='core/dataproc/filter.py'; FR='core/dataproc/frame.py'
BI='stats/binning.py'; IP='numerical/interpolate.py'; MA='field/cubic_box/mass_assignment.py'; ME='field/cubic_box/mesh.py'; FL='field/cubic_box/field.py'; FT='field/cubic_box/fft.py'
GR='core/dataproc/grid.py'; US='astro/quantity/unit_system.py'; CV='astro/coords/cvt.py'; PG='group_theory/point_group.py'; HT='astro/cosmology/halo_theory.py'; MO='astro/cosmology/model.py'
PS='astro/cosmology/power_spectrum.py'; RN='stats/random.py'; SP='stats/sampling.py'; SM='stats/summary.py'; KE='stats/kernel.py'
V = [
# ---- C03
('s-C03-where', 'C03', [(NUM, '''        if lo is not None:
            sel = x < lo
            x[sel] = lo
        if hi is not None:
            sel = x > hi
            x[sel] = hi
        return x
    
    @staticmethod
    def safe_div''', '''        if lo is not None:
            x[x < lo] = lo
        if hi is not None:
            x[x > hi] = hi
        return x
    
    @staticmethod
    def safe_div''')]),
('s-C03-putmask', 'C03', [(NUM, '''            sel = x < lo
            x[sel] = lo''', '''            np.putmask(x, x < lo, lo)''')]),
('s-C03-copyto', 'C03', [(NUM, '''            sel = x < lo
            x[sel] = lo''', '''            np.copyto(x, lo, where=x < lo)''')]),
('s-C03-early', 'C03,C08', [(NUM, '''        if np.isscalar(x):
            x = Num.bound_scalar(x, lo = lo, hi = hi)
        else:
            x = Num.bound_array(x, lo = lo, hi = hi, copy=copy)
        return x
''', '''        if not np.isscalar(x):
            return Num.bound_array(x, lo, hi, copy)
        return Num.bound_scalar(x, lo, hi)
''')]),
('s-C03-ternary', 'C03', [(NUM, '''            x = max(x, lo)''', '''            x = lo if x < lo else x'''), (NUM, '''            x = min(x, hi)''', '''            if x > hi:
                x = hi''')]),
('s-C03-lg', 'C03', [(NUM, '''        if len(args) == 1:
            x = Num.bound(args[0], lo)
            return Num.lg(x)
        return tuple(Num.safe_lg(arg, lo=lo) for arg in args)''', '''        bounded = [Num.bound(arg, lo) for arg in args]
        return Num.lg(*bounded)''')]),
('s-C03-lg2', 'C03', [(NUM, '''        if len(args) == 1:
            return np.log10(args[0])
        return tuple(np.log10(arg) for arg in args)''', '''        out = tuple(map(np.log10, args))
        if len(out) == 1:
            return out[0]
        return out''')]),
('s-C03-norm', 'C03', [(NUM, '''        n = np.clip(n, lo, None, out=n) 
        if inplace:
            x /= n
        else:
            x = x / n
        return x''', '''        n = np.maximum(n, lo)
        if not inplace:
            return x / n
        x /= n
        return x''')]),
('s-C03-norm2', 'C03', [(NUM, "        n = Num.norm(x, axis=axis, keepdims=True)\n", "        n = np.sqrt((x * x).sum(axis=axis, keepdims=True))\n")]),
('s-C03-div', 'C03', [(NUM, '''        return x / Num.bound(y, lo)''', '''        y = Num.bound(y, lo=lo)
        return np.divide(x, y)''')]),
# ---- C04
('s-C04-off', 'C04,C15', [(DS, '''        off = np.concatenate(( (0,), np.cumsum(count) ))
        if not has_end:
            off = off[:-1]
        return off''', '''        off = np.concatenate([(0,), np.cumsum(count)])
        return off if has_end else off[:-1]''')]),
('s-C04-off2', 'C04', [(DS, '''        off = np.concatenate(( (0,), np.cumsum(count) ))
''', '''        count = np.asarray(count)
        off = np.zeros(len(count) + 1, dtype=np.int64)
        np.cumsum(count, out=off[1:])
''')]),
('s-C04-off3', 'C04', [(DS, '''        off = np.concatenate(( (0,), np.cumsum(count) ))
''', '''        count = np.asarray(count)
        off = np.zeros(len(count) + 1, dtype=int)
        off[1:] = np.cumsum(count)
''')]),
('s-C04-pairs', 'C04', [(DS, '''        return np.stack((off[:-1], off[1:]), axis=-1)''', '''        return np.column_stack((off[:-1], off[1:]))''')]),
('s-C04-pairs2', 'C04', [(DS, '''        return np.stack((off[:-1], off[1:]), axis=-1)''', '''        first, last = off[:-1], off[1:]
        return np.stack([first, last], axis=1)''')]),
('s-C04-ranges', 'C04', [(IT, '''            e = b + int(size)
            yield b, e
            b = e''', '''            n = int(size)
            yield b, b + n
            b += n''')]),
('s-C04-slices', 'C04', [(IT, '''        ranges = Chunks.ranges_by_sizes(sizes)
        assert len(seqs) > 0
        if len(seqs) == 1:
            seq = seqs[0]
            for b, e in ranges:
                yield seq[b:e]
        else:
            for b, e in ranges:
                yield tuple(seq[b:e] for seq in seqs)''', '''        assert len(seqs) > 0
        for b, e in Chunks.ranges_by_sizes(sizes):
            parts = tuple(seq[b:e] for seq in seqs)
            yield parts[0] if len(parts) == 1 else parts''')]),
('s-C04-flatnz', 'C04', [(MK, "return bool_array.nonzero()[0]", "return np.flatnonzero(bool_array)")]),
('s-C04-where', 'C04', [(MK, "return bool_array.nonzero()[0]", "return np.where(bool_array)[0]")]),
('s-C04-full', 'C04', [(MK, "bool_array = np.zeros(n, dtype=bool)", "bool_array = np.full(n, False)")]),
('s-C04-dict', 'C04', [(MK, '''        out_d = type(d)()
        for k, v in d.items():
            out_d[k] = Mask.on_array(mask, v, copy=copy)
        return out_d''', '''        out = type(d)()
        for name in d:
            out[name] = Mask.on_array(mask, d[name], copy)
        return out''')]),
('s-C04-arrs', 'C04', [(MK, '''        out = Mask.on_array(mask, a, copy=copy)
        
        if len(other_a) == 0:
            return out
        
        return (out,) + tuple(Mask.on_array(mask, _a, copy=copy) 
                              for _a in other_a)''', '''        if not other_a:
            return Mask.on_array(mask, a, copy=copy)
        return tuple(Mask.on_array(mask, x, copy=copy) for x in (a, *other_a))''')]),
('s-C04-zip', 'C04', [(MK, '''        kw = {}
        if default is not None:
            kw['default'] = default
        return np.select(masks, arrays, **kw)''', '''        if default is None:
            return np.select(masks, arrays)
        return np.select(masks, arrays, default=default)''')]),
('s-C04-range', 'C04', [(FI, '''        mask = np.ones_like(x, dtype=bool)
        if min is not None:
            mask &= ( x >= min )
        if max is not None:
            mask &= ( x < max )
''', '''        mask = np.ones(x.shape, dtype=bool)
        if max is not None:
            mask = mask & (x < max)
        if min is not None:
            mask = mask & (x >= min)
''')]),
('s-C04-comb', 'C04', [(DS, '''        out = {}
        for d in dicts:
            if d is not None:
                out.update(d)
        out.update(items)
        return out''', '''        out = {}
        for d in dicts:
            if d is None:
                continue
            for key, value in d.items():
                out[key] = value
        return {**out, **items}''')]),
# ---- C05
('s-C05-where', 'C05', [(FR, '''        mask = PeriodicBox.__combine_mask(x < 0.0, where)
        x[mask] += l_box
            
        mask = PeriodicBox.__combine_mask(x >= l_box, where)
        x[mask] -= l_box
            
        return x
    
    @staticmethod
    def shift_to''', '''        low = PeriodicBox.__combine_mask(x < 0.0, where)
        x[low] = x[low] + l_box

        high = PeriodicBox.__combine_mask(x >= l_box, where)
        x[high] = x[high] - l_box
        return x
    
    @staticmethod
    def shift_to''')]),
('s-C05-helper', 'C05', [(FR, '''        l_half = .5 * l_box
        dx = x - x_ref
            
        mask = PeriodicBox.__combine_mask(dx < -l_half, where)
        x[mask] += l_box
            
        mask = PeriodicBox.__combine_mask(dx >= l_half, where)
        x[mask] -= l_box
            
        return x
''', '''        l_half = .5 * l_box
        dx = x - x_ref
        PeriodicBox._add_where(x, dx < -l_half, where, l_box)
        PeriodicBox._add_where(x, dx >= l_half, where, -l_box)
        return x

    @staticmethod
    def _add_where(x, mask, where, shift):
        if where is not None:
            mask = mask & where
        x[mask] += shift
''')]),
('s-C05-bound', 'C05', [(FR, '''        if where is not None:
            x = x[where]
            
        return ((x >= 0.0) & (x < l_box)).all()''', '''        if where is not None:
            x = x[where]
        inside = np.logical_and(x >= 0.0, x < l_box)
        return np.all(inside)''')]),
('s-C05-order', 'C05', [(FR, '''        dx = x - x_ref
            
        mask = PeriodicBox.__combine_mask(dx < -l_half, where)
        x[mask] += l_box
            
        mask = PeriodicBox.__combine_mask(dx >= l_half, where)
        x[mask] -= l_box
''', '''        dx = x - x_ref

        mask = PeriodicBox.__combine_mask(dx >= l_half, where)
        x[mask] -= l_box

        mask = PeriodicBox.__combine_mask(dx < -l_half, where)
        x[mask] += l_box
''')]),
# ---- C06
('s-C06-digit', 'C06', [(BI, "return np.searchsorted(x_edges, x, side='right') - 1", "return np.digitize(x, x_edges) - 1")]),
('s-C06-method', 'C06', [(BI, "return np.searchsorted(x_edges, x, side='right') - 1", "return x_edges.searchsorted(x, side='right') - 1")]),
('s-C06-bound', 'C06', [(BI, '''        lower = 0 if lower else None
        upper = self.n_bins - 1 if upper else None
        ind = np.clip(ind, lower, upper)
        return ind''', '''        if lower:
            ind = np.maximum(ind, 0)
        if upper:
            ind = np.minimum(ind, self.n_bins - 1)
        return ind''')]),
('s-C06-near', 'C06', [(BI, '''        ind_r = ind_l + 1
        e = self.x_edges
        x_l, x_r = e[ind_l], e[ind_r]
        d_l, d_r = x - x_l, x_r - x
        return np.where(d_l < d_r, ind_l, ind_r)''', '''        edges = self.x_edges
        to_left = x - edges[ind_l]
        to_right = edges[ind_l + 1] - x
        return ind_l + (to_left >= to_right)''')]),
('s-C06-near2', 'C06', [(BI, '''        d_l, d_r = x - x_l, x_r - x
        return np.where(d_l < d_r, ind_l, ind_r)''', '''        return np.where(x_r - x <= x - x_l, ind_r, ind_l)''')]),
('s-C06-cent', 'C06', [(BI, "return 0.5 * (es[:-1] + es[1:])", "return (es[1:] + es[:-1]) / 2.0")]),
('s-C06-cent2', 'C06', [(BI, '''        es = self.x_edges
        return 0.5 * (es[:-1] + es[1:])''', '''        return Bin.edges_to_centers(self.x_edges)''')]),
('s-C06-grid', 'C06', [(GR, "return np.searchsorted(self.locs, x, side='right') - 1", '''locs = self.locs
        n_not_above = locs.searchsorted(x, 'right')
        return n_not_above - 1''')]),
('s-C06-md', 'C06', [(GR, '''        x = np.asarray(x).T
        return tuple(g.locate(_x) for _x, g in zip(x, self.grids_1d))''', '''        x = np.asarray(x)
        return tuple(g.locate(x[:, i]) for i, g in enumerate(self.grids_1d))''')]),
('s-C06-md2', 'C06', [(GR, '''        x = np.asarray(x).T
        return tuple(g.locate(_x) for _x, g in zip(x, self.grids_1d))''', '''        x = np.asarray(x)
        ids = []
        for i, g in enumerate(self.grids_1d):
            ids.append(g.locate(x[..., i]))
        return tuple(ids)''')]),
('s-C06-step', 'C06', [(BI, '''        b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
        ids = np.floor((x - b) / x_step)
        return np.clip(ids, -1, n_bins).astype(np.int64)''', '''        lo, _ = self._x_range
        ids = np.floor((x - lo) / self._x_step)
        ids = np.maximum(np.minimum(ids, self._n_bins), -1)
        return ids.astype(np.int64)''')]),
# ---- C07
('s-C07-comb', 'C07', [(BI, '''        x_out = x[:n_out].copy()
        for b in range(1, n_comb):
            x_out += x[b:b+n_out]
''', '''        x_out = np.zeros_like(x[:n_out])
        for b in range(n_comb):
            x_out += x[b:b+n_out]
''')]),
('s-C07-comb2', 'C07', [(BI, '''        x_out = x[:n_out].copy()
        for b in range(1, n_comb):
            x_out += x[b:b+n_out]
''', '''        x_out = x[:n_out].copy()
        for b in range(1, n_comb):
            x_out = x_out + x[b:n_out+b]
''')]),
('s-C07-unw', 'C07', [(BI, '''        n_bins = len(data)
        for id in ids:
            if id >= 0 and id < n_bins:
                data[id] += 1''', '''        n_bins = len(data)
        for i in range(len(ids)):
            id = ids[i]
            if 0 <= id < n_bins:
                data[id] = data[id] + 1''')]),
('s-C07-wei', 'C07', [(BI, '''            id = ids[i]
            if id >= 0 and id < n_bins:
                data[id] += weights[i]''', '''            j = ids[i]
            if j < 0 or j >= n_bins:
                continue
            data[j] += weights[i]''')]),
('s-C07-wei2', 'C07', [(BI, '''        for i in range(n_ids):
            id = ids[i]
            if id >= 0 and id < n_bins:
                data[id] += weights[i]''', '''        for id, w in zip(ids, weights):
            if id >= 0 and id < n_bins:
                data[id] += w''')]),
('s-C07-cent', 'C07', [(BI, '''        lo, hi = e[:-stride], e[stride:]
        return .5 * ( lo + hi )''', '''        n = len(e) - stride
        return (e[stride:] + e[:n]) * 0.5''')]),
('s-C07-hist', 'C07', [(BI, '''        x = Bin.edges_to_centers(_e, sub_bins)
        dx = Bin.edges_to_widths(_e, sub_bins)
        h = Bin.combine_adjacent_bins(_h, sub_bins)
        
        return DataDict({'x': x, 'dx': dx, 'h': h, 
                         'sub_e': _e, 'sub_h': _h}) ''', '''        out = DataDict()
        out['x'] = Bin.edges_to_centers(_e, sub_bins)
        out['dx'] = Bin.edges_to_widths(_e, sub_bins)
        out['h'] = Bin.combine_adjacent_bins(_h, sub_bins)
        out['sub_e'] = _e
        out['sub_h'] = _h
        return out''')]),
('s-C07-ins', 'C07', [(BI, '''        e_new = np.linspace(e[:-1], e[1:], sub_bins, 
                            endpoint=False).T.ravel()
        e_end = (e[-1], )
        return np.concatenate( (e_new, e_end) )''', '''        lo, hi = e[:-1], e[1:]
        e_new = np.linspace(lo, hi, sub_bins, endpoint=False)
        e_new = e_new.T.reshape(-1)
        return np.append(e_new, e[-1])''')]),
('s-C07-prange', 'C07', [(BI, '''        if range is None:
            if p_range is None:
                x_min, x_max = x.min(), x.max()
            else:
                x_min, x_max = np.quantile(x, p_range)
        else:
            x_min, x_max = range
            if p_range is not None:
                x_min1, x_max1 = np.quantile(x, p_range)
                x_min = max(x_min, x_min1)
                x_max = min(x_max, x_max1)
                
        return x_min, x_max''', '''        if range is None and p_range is None:
            return np.min(x), np.max(x)
        if range is None:
            lo, hi = np.quantile(x, p_range)
            return lo, hi
        lo, hi = range
        if p_range is None:
            return lo, hi
        p_lo, p_hi = np.quantile(x, p_range)
        return max(lo, p_lo), min(hi, p_hi)''')]),
# ---- C09
('s-C09-bis', 'C09,C24', [(IP, '''    l, r = 0, n_all
    while r - l > 1:
        c = (l + r) // 2
        if x_dst < x_sorted[c]:
            r = c
        else:
            l = c
    return l''', '''    l, r = 0, n_all
    while l + 1 < r:
        c = l + (r - l) // 2
        if x_sorted[c] <= x_dst:
            l = c
        else:
            r = c
    return l''')]),
('s-C09-bis2', 'C09', [(IP, '''    l, r = 0, n_all
    while r - l > 1:
        c = (l + r) // 2
        if x_dst < x_sorted[c]:
            r = c
        else:
            l = c
    return l''', '''    lo, hi = 0, n_all - 1
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if x_dst < x_sorted[mid]:
            hi = mid - 1
        else:
            lo = mid
    return lo''')]),
('s-C09-bis3', 'C09', [(IP, '''    l, r = 0, n_all
    while r - l > 1:
        c = (l + r) // 2
        if x_dst < x_sorted[c]:
            r = c
        else:
            l = c
    return l''', '''    return np.searchsorted(x_sorted, x_dst, side='right') - 1''')]),
('s-C09-near', 'C09', [(IP, '''    dx_l = x_dst - x_sorted[l]
    dx_r = x_sorted[r] - x_dst
    return l if dx_l < dx_r else r''', '''    if x_dst - x_sorted[l] < x_sorted[r] - x_dst:
        return l
    return r''')]),
('s-C09-narr', 'C09', [(IP, '''    for i, _x_dst in enumerate(x_dst):
        idx[i] = bisearch_nearest(x_sorted, _x_dst)''', '''    for i in range(len(x_dst)):
        idx[i] = bisearch_nearest(x_sorted, x_dst[i])''')]),
('s-C09-w', 'C09', [(IP, '''    dx_l = x - x_left
    dx_r = x_right - x
    dx = dx_l + dx_r
    w_l, w_r = dx_r / dx, dx_l / dx
    return w_l, w_r''', '''    w_r = (x - x_left) / (x_right - x_left)
    w_l = 1.0 - w_r
    return w_l, w_r''')]),
('s-C09-w2', 'C09', [(IP, '''    l = bisearch(x_sorted, x_dst)
    if l < 0:
        return 0, 0, 0.0, 1.0
    r = l + 1
    n = len(x_sorted)
    if r > n-1:
        return n-1, n-1, 1.0, 0.0
    w_l, w_r = linear_interp_weight(x_dst, x_sorted[l], x_sorted[r])

    return l, r, w_l, w_r''', '''    n = len(x_sorted)
    l = bisearch(x_sorted, x_dst)
    if l == -1:
        return 0, 0, 0.0, 1.0
    if l == n - 1:
        return l, l, 1.0, 0.0
    w_l, w_r = linear_interp_weight(x_dst, x_sorted[l], x_sorted[l + 1])
    return l, l + 1, w_l, w_r''')]),
('s-C09-2d', 'C09', [(IP, '''    y_ll, y_lr, y_rl, y_rr = y[l1, l2], y[l1, r2], y[r1, l2], y[r1, r2]
    w_ll, w_lr, w_rl, w_rr = w1_l * w2_l, w1_l * w2_r, w1_r * w2_l, w1_r * w2_r
    return y_ll * w_ll + y_lr * w_lr + y_rl * w_rl + y_rr * w_rr''', '''    y_l = y[l1, l2] * w2_l + y[l1, r2] * w2_r
    y_r = y[r1, l2] * w2_l + y[r1, r2] * w2_r
    return y_l * w1_l + y_r * w1_r''')]),
('s-C09-der', 'C09', [(IP, '''            i_l, i_r = i-1, i+1
            if i_l == -1:
                i_l, i_r = 0, 1
            elif i_r == n:
                i_l, i_r = n-2, n-1
''', '''            i_l, i_r = max(i-1, 0), min(i+1, n-1)
''')]),
('s-C09-oob', 'C09', [(IP, '''    if x_dst < x_sorted[0]:
        return y_left
    if x_dst > x_sorted[-1]:
        return y_right
    return bisearch_interp(x_sorted, y, x_dst)''', '''    n = len(x_sorted)
    if x_dst > x_sorted[n - 1]:
        return y_right
    elif x_dst < x_sorted[0]:
        return y_left
    return bisearch_interp(x_sorted, y, x_dst)''')]),
# ---- C10
('s-C10-loop', 'C10', [(MA, '''        d[i0_l, i1_l, i2_l] += w0_l * w1_l * w2_l * weight
        d[i0_l, i1_l, i2_r] += w0_l * w1_l * w2_r * weight
        d[i0_l, i1_r, i2_l] += w0_l * w1_r * w2_l * weight
        d[i0_l, i1_r, i2_r] += w0_l * w1_r * w2_r * weight
        d[i0_r, i1_l, i2_l] += w0_r * w1_l * w2_l * weight
        d[i0_r, i1_l, i2_r] += w0_r * w1_l * w2_r * weight
        d[i0_r, i1_r, i2_l] += w0_r * w1_r * w2_l * weight
        d[i0_r, i1_r, i2_r] += w0_r * w1_r * w2_r * weight
''', '''        for i0, w0 in ((i0_l, w0_l), (i0_r, w0_r)):
            for i1, w1 in ((i1_l, w1_l), (i1_r, w1_r)):
                for i2, w2 in ((i2_l, w2_l), (i2_r, w2_r)):
                    d[i0, i1, i2] += w0 * w1 * w2 * weight
''')]),
('s-C10-w', 'C10', [(MA, '''        x = x / l_grid
        x_l = np.floor(x)
        w_l = 1.0 - (x - x_l)
        w_r = 1.0 - w_l

        i_l = np.int64(x_l)
        i_r = i_l + 1
        i_l, i_r = i_l % n_grids, i_r % n_grids
''', '''        xi = x / l_grid
        i_floor = np.int64(np.floor(xi))
        w_r = xi - i_floor
        w_l = 1.0 - w_r
        i_l = i_floor % n_grids
        i_r = (i_floor + 1) % n_grids
''')]),
('s-C10-add', 'C10', [(MA, '''        if weights is not None:
            for x, weight in zip(xs, weights):
                self.add_1(x, weight)
        else:
            for x in xs:
                self.add_1(x)''', '''        if weights is None:
            for i in range(len(xs)):
                self.add_1(xs[i])
            return
        for i in range(len(xs)):
            self.add_1(xs[i], weights[i])''')]),
('s-C10-shape', 'C10', [(MA, '''        return max(1.0 - np.abs(xi), 0.0)''', '''        d = np.abs(xi)
        if d >= 1.0:
            return 0.0
        return 1.0 - d''')]),
('s-C10-join', 'C10', [(MA, '''        for i, in_group in enumerate(in_groups):
            if i == 0:
                out = in_group.load()
            else:
                data = out['data']
                data += in_group.datasets['data']
        out_group.dump(out, flag=flag)''', '''        out = None
        for in_group in in_groups:
            if out is None:
                out = in_group.load()
            else:
                out['data'] += in_group.datasets['data']
        out_group.dump(out, flag=flag)''')]),
('s-C10-sinc', 'C10,C13', [(MA, '''        sinc = np.sin(x) / x
        return sinc * sinc''', '''        return (np.sin(x) / x)**2''')]),
# ---- C11
('s-C11-xi', 'C11', [(ME, '''        xi = np.int64(np.floor(x / l + 0.5)) % n
        return xi''', '''        nearest = np.floor(0.5 + x / l)
        return np.int64(nearest) % n''')]),
('s-C11-nd', 'C11', [(ME, '''        xi = np.floor(x / l + 0.5).astype(np.int64) % n
        return xi''', '''        xi = np.floor(x / l + 0.5)
        xi = xi.astype(np.int64)
        return np.mod(xi, n)''')]),
('s-C11-shape', 'C11', [(FL, '''        assert data.ndim == 3
        n0, n1, n2 = data.shape
        assert n0 == n1 == n2
''', '''        assert data.ndim == 3
        n0 = data.shape[0]
        assert data.shape[1] == n0 and data.shape[2] == n0
''')]),
('s-C11-zeros', 'C11', [(FL, '''        n = mesh.n_grids
        data = np.zeros((n, n, n), dtype=np.float64)
        impl = _Field(data, mesh._impl)
        return cls(impl)''', '''        data = np.zeros((mesh.n_grids,) * 3)
        return cls.new_by_data(data, mesh)''')]),
('s-C11-fft', 'C11,C12,C13', [(FT, '''        return dict(s=self.shape, axes=self.axes, norm=self.norm,
                    overwrite_x=self.overwrite_input, workers=self.n_workers)''', '''        return {
            's': self.shape, 'axes': self.axes, 'norm': self.norm,
            'overwrite_x': self.overwrite_input, 'workers': self.n_workers,
        }''')]),
# ---- C22
('s-C22-rho', 'C22', [(HT, '''        a = 1.0 / (1.0 + z)
        rho_mean = self.model.rho_matter(z) * a**3
        return f * rho_mean''', '''        return f * self.__comoving(self.model.rho_matter(z), z)

    @staticmethod
    def __comoving(rho, z):
        return rho / (1.0 + z)**3''')]),
('s-C22-rvir', 'C22', [(HT, '''        V = m_vir / rho_vir
        return (V / (4./3.*np.pi))**(1./3.)''', '''        r_cubed = 3.0 * m_vir / (4.0 * np.pi * rho_vir)
        return r_cubed**(1.0 / 3.0)''')]),
('s-C22-rvir2', 'C22', [(HT, '''        return (V / (4./3.*np.pi))**(1./3.)''', '''        return np.cbrt(V / (4./3.*np.pi))''')]),
('s-C22-vvir', 'C22', [(HT, '''        v_vir = np.sqrt(us.c_gravity * m_vir / r_vir)
        if to_kmps:
            v_vir *= us.u_v_to_kmps
        return v_vir''', '''        factor = us.u_v_to_kmps if to_kmps else 1.0
        return factor * np.sqrt(us.c_gravity * m_vir / r_vir)''')]),
('s-C22-props', 'C22', [(HT, '''        r = self.r_vir(m, rho)
        a = 1. / (1. + z)
        r_phy = a * r
        v = self.v_vir(m, r_phy)
        return VirialProperties(m, rho, r, r_phy, v)''', '''        r = self.r_vir(m, rho)
        r_phy = r / (1. + z)
        return VirialProperties(m=m, rho=rho, r=r, r_phy=r_phy,
                                v=self.v_vir(m, r_phy))''')]),
('s-C22-nfw', 'C22', [(HT, '''        return np.log(1.0 + x) - x / (1.0 + x)''', '''        return np.log1p(x) - x / (1.0 + x)''')]),
('s-C22-dist', 'C22', [(MO, '''        d = self.astropy_model.comoving_distance(z).to('Mpc').value
        return d * self.hubble''', '''        return self.__mpc_per_h(self.astropy_model.comoving_distance(z))

    def __mpc_per_h(self, d):
        return d.to('Mpc').value * self.hubble''')]),
('s-C22-matter', 'C22', [(MO, '''        rho_crit = self.rho_crit(z)
        omega_m = self.omega_m(z)
        rho_matter = rho_crit * omega_m
        return rho_matter''', '''        return self.omega_m(z) * self.rho_crit(z)''')]),
('s-C22-inv', 'C22', [(MO, '''        d = dp.Num.bound(d, lo=1.0e-4)
        d = (d / self.hubble) * astropy.units.Mpc
''', '''        d_mpc = dp.Num.bound(d, 1.0e-4) / self.hubble
        d = d_mpc * astropy.units.Mpc
''')]),
# ---- C23
('s-C23-grav', 'C23', [(US, "        self.u_gravity_constant = u_length**3 / u_time**2 / u_mass\n", "        self.u_gravity_constant = u_length**3 / (u_time**2 * u_mass)\n")]),
('s-C23-vel', 'C23', [(US, '''        self.u_velocity = u_length / u_time

        self.u_velocity_in_kmps = self.u_velocity / 1.0e3
''', '''        u_velocity = u_length / u_time
        self.u_velocity = u_velocity
        self.u_velocity_in_kmps = u_velocity * 1.0e-3
''')]),
('s-C23-cosm', 'C23', [(US, '''        U = UnitSystem
        u_l = U.mpc_to_m / hubble
        u_t = U.gyr_to_s / hubble
        u_m = U.msun_to_kg * 1.0e10 / hubble
        
        return UnitSystem(u_l, u_t, u_m)''', '''        h_inv = 1.0 / hubble
        return UnitSystem(
            u_length_in_m=UnitSystem.mpc_to_m * h_inv,
            u_time_in_s=UnitSystem.gyr_to_s * h_inv,
            u_mass_in_kg=UnitSystem.msun_to_kg * 1.0e10 * h_inv)''')]),
('s-C23-energy', 'C23', [(US, '''        u_e = u_m * u_v**2
        u_power = u_e / u_t
        u_angular_momentum = u_l * u_m * u_v
        u_gravity_constant = u_l**3 / u_t**2 / u_m
        u_density = u_m / u_l**3
''', '''        u_volume = u_l**3
        u_e = u_m * u_v * u_v
        u_power = u_e / u_t
        u_angular_momentum = u_m * u_v * u_l
        u_gravity_constant = u_volume / (u_m * u_t**2)
        u_density = u_m / u_volume
''')]),
('s-C23-const', 'C23', [(US, '''        self.c_gravity = self.__conv_coef(c.G, self.u_gravity_constant)
        self.c_m_sun = self.__conv_coef(u.Msun, self.u_m)
''', '''        conv = self.__conv_coef
        self.c_m_sun = conv(1.0 * u.Msun, self.u_m)
        self.c_gravity = conv(c.G, self.u_gravity_constant)
''')]),
('s-C23-coef', 'C23', [(US, "        return (x_from / x_to).to(1).value", "        ratio = x_from / x_to\n        return ratio.to(1).value")]),
# ---- C24
('s-C24-sig', 'C24', [(PS, '''        f1 = k**(3.0 + n_spec)
        f2 = 1.0e3 * T * D1 * W         # multiplies 10^3 for stability
        return f1 * f2**2''', '''        amp = 1.0e3 * T * D1 * W
        return amp * amp * k**(3.0 + n_spec)''')]),
('s-C24-norm', 'C24', [(PS, '''        D_1_z0 = self.growth_factor(0.0)
        norm = 1.0 / D_1_z0
        self.norm = norm''', '''        self.norm = 1.0 / self.growth_factor(0.0)''')]),
('s-C24-power', 'C24', [(PS, '''        norm, n_spec = self._sigma_sqr_norm, self._cosm.n_spec
        f1 = 2.0 * np.pi**2 * k**n_spec
        T = self.transfer_func(k)
        D1 = self.growth_fac(z)
        f2 = 1.0e3 * T * D1

        return norm * f1 * f2**2''', '''        n_spec = self._cosm.n_spec
        amp = 1.0e3 * self.transfer_func(k) * self.growth_fac(z)
        return self._sigma_sqr_norm * 2.0 * np.pi**2 * k**n_spec * amp**2''')]),
('s-C24-power2', 'C24', [(PS, '''        norm, n_spec = self._sigma_sqr_norm, self._cosm.n_spec
        f1 = 2.0 * np.pi**2 * k**n_spec
        T = self.transfer_func(k)
        D1 = self.growth_fac(z)
        f2 = 1.0e3 * T * D1

        return norm * f1 * f2**2''', '''        return self.big_delta_sqr(k, z) * 2.0 * np.pi**2 / k**3''')]),
('s-C24-win', 'C24', [(PS, '''        x = k*r
        if x < 1.0e-5:
            return 1.0
        return 3.0 * self._j1(x) / x''', '''        x = k*r
        return 3.0 * self._j1(x) / x if x >= 1.0e-5 else 1.0''')]),
('s-C24-interp', 'C24', [(PS, '''        for i, _m in enumerate(m):
            sigma_sqr = self.sigma_sqr_at_mass(_m, 0.0)
            lsigma[i] = np.log10(np.sqrt(sigma_sqr))''', '''        for i in range(n_nodes):
            sigma = np.sqrt(self.sigma_sqr_at_mass(m[i], 0.0))
            lsigma[i] = np.log10(sigma)''')]),
('s-C24-interp2', 'C24', [(PS, '''            sigma_sqr = self.sigma_sqr_at_mass(_m, 0.0)
            lsigma[i] = np.log10(np.sqrt(sigma_sqr))''', '''            lsigma[i] = 0.5 * np.log10(self.sigma_sqr_at_mass(_m, 0.0))''')]),
('s-C24-growth', 'C24', [(PS, '''        f1 = norm * 2.5 * omega_m / (1. + z)
        f2 = omega_m**(4./7.) - omega_l + \\
            (1. + omega_m / 2.)*(1. + omega_l / 70.)
        return f1 / f2''', '''        denom = omega_m**(4./7.) - omega_l
        denom += (1. + 0.5 * omega_m)*(1. + omega_l / 70.)
        return 2.5 * norm * omega_m / ((1. + z) * denom)''')]),
# ---- C28
('s-C28-comb', 'C28', [(PG, '''        ops = []
        for op0 in g0:
            for op1 in g1:
                ops.append(op0.combined(op1))
        g01 = Group(ops)''', '''        g01 = Group([op0.combined(op1) for op0 in g0 for op1 in g1])''')]),
('s-C28-iter', 'C28', [(PG, '''        if len(groups) == 0:
            return self.copied()
        
        g0 = self
        g1, *groups = groups
        ops = []
        for op0 in g0:
            for op1 in g1:
                ops.append(op0.combined(op1))
        g01 = Group(ops)
        
        return g01.combined(*groups)''', '''        out = self.copied()
        for g in groups:
            out = Group([a.combined(b) for a in out for b in g])
        return out''')]),
('s-C28-op', 'C28', [(PG, '''        out = self.copied()
        for op in ops:
            out.mat = out.mat @ op.mat
        return out''', '''        mat = self.mat
        for op in ops:
            mat = np.matmul(mat, op.mat)
        out = type(self)()
        out.mat[...] = mat
        return out''')]),
('s-C28-call', 'C28', [(PG, "return x @ self.mat.T", "return np.dot(x, self.mat.T)")]),
('s-C28-call2', 'C28', [(PG, "return x @ self.mat.T", "mat_t = self.mat.transpose()\n        return np.matmul(x, mat_t)")]),
('s-C28-create', 'C28', [(PG, '''            g2 = ReflectionX.group()
            g1 = RotationXY.group()
            g0 = RotationOther.group()
            return g0.combined(g1, g2)''', '''            parts = [cls.group() for cls in (RotationOther, RotationXY, ReflectionX)]
            return parts[0].combined(*parts[1:])''')]),
# ---- C29
('s-C29-parse', 'C29', [(CV, '''    if isinstance(dms, str):
        dms = tuple(float(v) for v in dms.split(':'))
    d, m, s = dms
    deg = math.copysign(1., d) * (abs(d) + m / 60. + s / 3600.)
    return deg''', '''    d, m, s = _parse(dms)
    return _signed(d, m, s)

def _parse(x):
    if isinstance(x, str):
        return [float(v) for v in x.split(':')]
    return x

def _signed(d, m, s):
    return math.copysign(abs(d) + m / 60. + s / 3600., d)'''), (CV, '''    if isinstance(hms, str):
        hms = tuple(float(v) for v in hms.split(':'))
    h, m, s = hms
    deg = math.copysign(1., h) * (abs(h) + m / 60. + s / 3600.)*15.
    return deg''', '''    return 15. * _signed(*_parse(hms))''')]),
('s-C29-hms', 'C29', [(CV, '''    if isinstance(hms, str):
        hms = tuple(float(v) for v in hms.split(':'))
    h, m, s = hms
    deg = math.copysign(1., h) * (abs(h) + m / 60. + s / 3600.)*15.
    return deg''', '''    return dms_to_deg(hms) * 15.''')]),
('s-C29-sign', 'C29', [(CV, '''    d, m, s = dms
    deg = math.copysign(1., d) * (abs(d) + m / 60. + s / 3600.)
''', '''    d, m, s = dms
    sign = math.copysign(1., d)
    deg = sign * (sign * d + m / 60. + s / 3600.)
''')]),
('s-C29-map', 'C29', [(CV, "dms = tuple(float(v) for v in dms.split(':'))", "dms = tuple(map(float, dms.split(':')))")]),
('s-C29-cart', 'C29', [(FR, '''        cos_t, sin_t = np.cos(theta), np.sin(theta)
        cos_p, sin_p = np.cos(phi), np.sin(phi)
        z = cos_t
        x = sin_t * cos_p
        y = sin_t * sin_p
        out = x,y,z
        if stack:
            out = np.stack(out, axis=-1)
        return out''', '''        sin_t = np.sin(theta)
        xyz = sin_t * np.cos(phi), sin_t * np.sin(phi), np.cos(theta)
        return np.stack(xyz, axis=-1) if stack else xyz''')]),
('s-C29-rt', 'C29', [(FR, '''        return vnew_x*v[:,[0]]+vnew_y*v[:,[1]]+vnew_z*v[:,[2]]''', '''        v_x, v_y, v_z = v[:, 0:1], v[:, 1:2], v[:, 2:3]
        return vnew_x * v_x + vnew_y * v_y + vnew_z * v_z''')]),
('s-C29-rt2', 'C29', [(FR, '''        return vnew_x*v[:,[0]]+vnew_y*v[:,[1]]+vnew_z*v[:,[2]]''', '''        return (vnew_x * v[:, 0, None] + vnew_y * v[:, 1, None]
                + vnew_z * v[:, 2, None])''')]),
('s-C29-rng', 'C29', [(RN, '''        theta, phi = self.uniform_sphere_polar(size=size)
        cos_t, sin_t = np.cos(theta), np.sin(theta)
        cos_p, sin_p = np.cos(phi), np.sin(phi)
        z = cos_t
        x = sin_t * cos_p
        y = sin_t * sin_p
        return x, y, z''', '''        theta, phi = self.uniform_sphere_polar(size=size)
        sin_t = np.sin(theta)
        return sin_t * np.cos(phi), sin_t * np.sin(phi), np.cos(theta)''')]),
('s-C29-circ', 'C29', [(RN, '''        if not cartesian:
            return theta
        return Polar.unit_vec_to_cart_2d(theta, stack=stack)''', '''        if cartesian:
            return Polar.unit_vec_to_cart_2d(theta, stack)
        return theta''')]),
# ---- C08 / C19 summaries
('s-C08-sum', 'C08', [(SM, "        return self.a.mean()", "        return np.mean(self.a)"), (SM, "        return self.a.std()", "        return np.std(self.a)")]),
('s-C20-kern', 'C17', [(KE, '''        sigma = self.sigma
        d_sq = d * d
        sigma_sq = sigma*sigma
        return np.exp( -0.5 * d_sq / sigma_sq )''', '''        u = d / self.sigma
        return np.exp(-0.5 * u**2)''')]),
('s-C17-top', 'C17', [(KE, '''        out = d < self.radius
        out = np.array(out, dtype=float)
        return out''', '''        return (d < self.radius).astype(float)''')]),
('s-C17-top2', 'C17', [(KE, '''        out = d < self.radius
        out = np.array(out, dtype=float)
        return out''', '''        return np.where(d < self.radius, 1.0, 0.0)''')]),
]
