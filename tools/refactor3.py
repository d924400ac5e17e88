GR='core/dataproc/grid.py'; LS='astro/stats/lss.py'; MA='field/cubic_box/mass_assignment.py'; AB='io/h5/abc.py'; CW='field/cubic_box/cosmic_web.py'; GV='field/cubic_box/gravity.py'; DT='core/containers/data_table.py'
V = [
('t-C33-dstack', 'C33', [(GR, "np.column_stack(locs_flat)", "np.stack(locs_flat, axis=-1)")]),
('t-C33-array', 'C33', [(GR, "np.column_stack(locs_flat)", "np.array(locs_flat).T")]),
('t-C33-reduce', 'C33', [(GR, "        out_shape = locs[0].shape + out.shape[1:]", "        np.maximum.reduce(out)\n        out_shape = locs[0].shape + out.shape[1:]")]),
('t-C33-kw', 'C33', [(GR, "np.column_stack(locs_flat)", "np.stack(locs_flat, axis=-1, casting='same_kind')")]),
('t-C33-missing', 'C33', [(GR, "np.column_stack(locs_flat)", "np.c_[locs_flat]")]),
('t-C33-shaping', 'C33', [(GR, '''        out_shape = locs[0].shape + out.shape[1:]
        out = np.reshape(out, out_shape)
        return out''', '''        return out.reshape(*locs[0].shape, *out.shape[1:])''')]),
('t-C33-loop', 'C33', [(GR, '''            out = [self.__out_shaping(_out, locs) for _out in out]''', '''            shaped = []
            for one in out:
                shaped.append(self.__out_shaping(one, locs))
            out = shaped''')]),
('t-C33-range', 'C33', [(GR, '''            min, max = np.quantile(_data_1d, (p_lo, p_hi))
            grids_1d.append(np.linspace(min, max, _n))''', '''            lo = np.quantile(_data_1d, p_lo)
            hi = np.quantile(_data_1d, p_hi)
            grids_1d.append(np.linspace(lo, hi, num=_n))''')]),
('t-C33-range2', 'C33', [(GR, '''            n = np.full(len(data_1d), n)''', '''            n = [n] * len(data_1d)''')]),
('t-C33-at', 'C33', [(GR, '''        if isinstance(grids_1d, tuple):
            return GridMd(*grids_1d)
        return GridMd(grids_1d)''', '''        if not isinstance(grids_1d, tuple):
            grids_1d = (grids_1d,)
        return GridMd(*grids_1d)''')]),
('t-C32-sel', 'C32', [(LS, "sel = (x>=x_min)&(x<x_max)", "sel = np.logical_and(x >= x_min, x < x_max)")]),
('t-C32-sel2', 'C32', [(LS, "sel = (x>=x_min)&(x<x_max)", "sel = ~((x < x_min) | (x >= x_max))")]),
('t-C32-idx', 'C32', [(LS, "sel = (x>=x_min)&(x<x_max)", "sel = np.flatnonzero((x>=x_min)&(x<x_max))")]),
('t-C32-weights', 'C32', [(LS, '''        if weights is not None:
            dset_in['weights'] = weights[sel] 
        else:
            stats_kw['weights'] = None''', '''        if weights is None:
            stats_kw['weights'] = None
        else:
            dset_in = dset_in | {'weights': np.asarray(weights)[sel]}''')]),
('t-C32-y', 'C32', [(LS, "y = h / (volume * dx)", "y = h / volume / dx")]),
('t-C32-lg', 'C32', [(LS, "lg_y = dp.Num.safe_lg(y, lo=lg_y_pad)", "lg_y = np.log10(np.maximum(y, lg_y_pad))")]),
('t-C32-lg2', 'C32', [(LS, "lg_y = dp.Num.safe_lg(y, lo=lg_y_pad)", "lg_y = dp.Num.lg(dp.Num.bound(y, lo=lg_y_pad))")]),
('t-C32-out', 'C32', [(LS, '''        return DataDict({
            'x': x, 'dx': dx, 'sub_e': sub_e, 
            'h': h, 'y': y, 'lg_y': lg_y
        })''', '''        return DataDict(dict(x=x, dx=dx, sub_e=sub_e, h=h, y=y, lg_y=lg_y))''')]),
('t-C32-pos', 'C32', [(LS, '''            dsets_in = (dset_in,),
            keys_out = ('h', 'y', 'lg_y'),''', '''            [dset_in],
            ['h', 'y', 'lg_y'],''') , (LS, '''            BinnedVolumeDensity.__hist,
''', '''            BinnedVolumeDensity.__hist,
''')]),
('t-C31-join', 'C31', [(MA, '''        for i, in_group in enumerate(in_groups):
            if i == 0:
                out = in_group.load()
            else:
                data = out['data']
                data += in_group.datasets['data']
        out_group.dump(out, flag=flag)''', '''        groups = iter(in_groups)
        out = next(groups).load()
        for in_group in groups:
            out['data'] = out['data'] + in_group.datasets['data']
        out_group.dump(out, flag=flag)''')]),
('t-C31-join2', 'C31', [(MA, '''            if i == 0:
                out = in_group.load()
            else:
                data = out['data']
                data += in_group.datasets['data']''', '''            if i == 0:
                out = in_group.load()
                continue
            out['data'] += in_group.datasets['data']''')]),
('t-C31-join3', 'C31', [(MA, '''        for i, in_group in enumerate(in_groups):
            if i == 0:
                out = in_group.load()
            else:
                data = out['data']
                data += in_group.datasets['data']
''', '''        out = None
        for in_group in in_groups:
            loaded = in_group.load()
            if out is None:
                out = loaded
            else:
                out['data'] += loaded['data']
''')]),
('t-C31-load', 'C31', [(MA, '''        data, l_box, n_grids = group.datasets['data', 'l_box', 'n_grids']
        return Field''', '''        ds = group.datasets
        data = ds['data']
        l_box, n_grids = ds['l_box'], ds['n_grids']
        return Field''')]),
('t-C31-load2', 'C31', [(MA, '''        data, l_box, n_grids = group.datasets['data', 'l_box', 'n_grids']
        return Field''', '''        held = group.load()
        data, l_box, n_grids = held['data'], held['l_box'], held['n_grids']
        return Field''')]),
('t-C31-abc', 'C31', [(AB, '''    try:
        fn = getattr(obj, '_to_h5_data')
    except AttributeError:
        out = obj
    else:
        out = fn()
    return out''', '''    if hasattr(obj, '_to_h5_data'):
        return obj._to_h5_data()
    return obj''')]),
('t-C31-abc2', 'C31', [(AB, '''    try:
        fn = tp._from_h5_data
    except AttributeError:
        if issubclass(tp, str):
            out = tp(data.decode(), **init_kw)
        else:
            out = data
    else:
        out = fn(data, **init_kw)
    return out''', '''    fn = getattr(tp, '_from_h5_data', None)
    if fn is not None:
        return fn(data, **init_kw)
    return tp(data.decode(), **init_kw) if issubclass(tp, str) else data''')]),
('t-C31-abc3', 'C31', [(AB, '''        init_kw = {
            k: from_h5_data(data.pop(k), t)
            for k, t in cls.h5_data_typedict.items()    
        } | init_kw
        return cls(**init_kw)''', '''        members = {}
        for k, t in cls.h5_data_typedict.items():
            members[k] = from_h5_data(data[k], t)
        members.update(init_kw)
        return cls(**members)''')]),
('t-C31-file', 'C31', [(AB, '''        with File(path) as f:
            out = cls.from_h5_group(f[group], **init_kw)
        return out''', '''        with File(path) as f:
            return cls.from_h5_group(f[group], **init_kw)''')]),
('t-C31-table', 'C31,C02', [(DT, '''        init_kw = {
            'data': data,
            'copy': False
        } | init_kw
        return cls(**init_kw)''', '''        return cls(**{'data': data, 'copy': False, **init_kw})''')]),
('t-C31-asdict', 'C31', [(GV, '''            group.dump({
                'l_box': self.l_box,
                'n_grids': self.n_grids,
                'rho_x': self.rho_x,
                'delta_x': self.delta_x,
                'delta_k': self.delta_k,
                'delta_sm_k': self.delta_sm_k,
                'delta_sm_x': self.delta_sm_x,
                'phi_k': self.phi_k,
                'T_x': self.T_x,
                'lam': self.lam
            }, flag=flag)''', '''            names = ('l_box', 'n_grids', 'rho_x', 'delta_x', 'delta_k', 'delta_sm_k', 'delta_sm_x', 'phi_k', 'T_x', 'lam')
            group.dump({k: getattr(self, k) for k in names}, flag=flag)''')]),
('t-C31-vars', 'C31', [(GV, '''            group.dump({
                'l_box': self.l_box,
                'n_grids': self.n_grids,
                'rho_x': self.rho_x,
                'delta_x': self.delta_x,
                'delta_k': self.delta_k,
                'delta_sm_k': self.delta_sm_k,
                'delta_sm_x': self.delta_sm_x,
                'phi_k': self.phi_k,
                'T_x': self.T_x,
                'lam': self.lam
            }, flag=flag)''', '''            group.dump(dict(vars(self)), flag=flag)''')]),
('t-C31-cls', 'C31,C14', [(CW, '''        n_grids, l_box, lam = group.datasets['n_grids', 'l_box', 'lam']
        mesh = Mesh.new(n_grids, l_box)
        return cls(lam, mesh, lam_th=lam_th)''', '''        held = group.datasets
        return cls(held['lam'], Mesh.new(held['n_grids'], held['l_box']), lam_th=lam_th)''')]),
]
