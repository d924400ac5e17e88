"""Transfer functions (astro/cosmology/power_spectrum.py): the published fits of Eisenstein & Hu."""
from ..harness import *
from oracle import eh
suite = Suite()
CM, PS = 'astro.cosmology.flat_lambda_cdm_nr', 'astro.cosmology.power_spectrum'


def r(x): return S(C.toreal(at(x)))


def cosmology(h):
    p = dict(hubble=h.real('hubble', gt=0, hi=2), omega_m0=h.real('om', gt=0, hi=1), omega_b0=h.real('ob', gt=0), n_spec=h.real('ns'), sigma_8=h.real('s8', gt=0))
    return h.mod(CM)._FlatLambdaCDMNR(**p), p


class F:
    """the real arithmetic of the engine"""
    log, sqrt, exp, sin = map(staticmethod, (lambda x: C.m_log(r(x)), lambda x: C.m_sqrt(r(x)), lambda x: C.m_exp(r(x)), lambda x: C.m_sin(r(x))))
    pow = staticmethod(lambda a, b: C.m_pow(r(a), r(b)))
    where = staticmethod(lambda c, a, b: a if c else b)


def same(h, name, a, b):
    h.formula(name, r(a), r(b))


def scales(h, t, rel, d):
    """every scale obeys its published relation to the ones before it"""
    for nm, v in rel:
        same(h, nm, getattr(t, nm), v)
        d[nm] = r(getattr(t, nm))


@suite.case('baryon variant: scales of a cosmology')
def _(h):
    om, fb, hb, T = h.real('om', gt=0), h.real('fb', gt=0, hi=1), h.real('hubble', gt=0), h.real('T', gt=0)
    t = h.mod(PS)._TransferFunctionEH98()
    t.set_cosmology(om, fb, hb, T)
    d = eh.eh98_scales(F, om, fb, hb, T)
    for k in d: same(h, k, getattr(t, k), d[k])
    scales(h, t, eh.eh98_relations(F, d, fb), d)


@suite.case('baryon variant: temperature of the microwave background unless given')
def _(h):
    om, fb, hb = h.real('om', gt=0), h.real('fb', gt=0, hi=1), h.real('hubble', gt=0)
    t = h.mod(PS)._TransferFunctionEH98()
    t.set_cosmology(om, fb, hb)
    same(h, 'COBE', t.theta_cmb, r(2.728) / r(2.7))


NAMES98 = 'hubble omhh obhh theta_cmb z_equality k_equality z_drag R_drag R_equality sound_horizon k_silk alpha_c beta_c alpha_b beta_b beta_node k_peak sound_horizon_fit alpha_gamma'.split()
NAMES99 = 'alpha_gamma alpha_nu beta_c num_degen_hdm f_baryon f_bnu f_cb f_cdm f_hdm growth_k0 growth_to_z0 hhubble k_equality obhh omega_curv omega_lambda_z omega_matter_z omhh onhh p_c p_cb sound_horizon_fit theta_cmb y_drag z_drag z_equality'.split()


def instance(h, t, names):
    """any values of the scales (the contract of set_cosmology)"""
    d = {}
    for nm in names:
        d[nm] = h.real(nm, gt=0)
        setattr(t, nm, d[nm])
    return t, d


for sgn in (1, -1, 0):
    @suite.case('baryon variant: transfer function, ' + {1: 'positive wave numbers', -1: 'negative wave numbers', 0: 'zero'}[sgn])
    def _(h, sgn=sgn):
        t, d = instance(h, h.mod(PS)._TransferFunctionEH98(), NAMES98)
        if sgn == 0:
            for nm, g in zip(('total', 'baryons', 'CDM'), t._transfer_function(0.)): h.eq(nm, g, 1)
            h.eq('one at zero', t.transfer_function(0.), 1); return
        k = h.real('k', gt=0)
        kk = k if sgn > 0 else -k
        want = eh.eh98_transfer(F, d, k)
        got = t._transfer_function(kk)
        for nm, g, w in zip(('total', 'baryons', 'CDM'), got, want): same(h, nm, g, w)
        same(h, 'the total is returned', t.transfer_function(kk), want[0])


@suite.case('no-wiggle variant: scales of a cosmology')
def _(h):
    om, ob, on, ol, hb, z = h.real('om', gt=0), h.real('ob', lo=0), h.real('on', lo=0), h.real('ol'), h.real('hubble', gt=0, hi=2), h.real('z', gt=-1, hi=99)
    N = h.int('N')
    t = h.mod(PS)._TransferFunctionEH99()
    t.set_cosmology(om, ob, on, N, ol, hb, z)
    scales(h, t, eh.eh99_relations(F, d := {}, eh.eh99_inputs(F, om, ob, on, N, ol, hb, z)), d)


@suite.case('no-wiggle variant: today unless told otherwise')
def _(h):
    om, ob, ol, hb = h.real('om', gt=0), h.real('ob', gt=0), h.real('ol'), h.real('hubble', gt=0, hi=2)
    M = h.mod(PS)
    t, t0 = M._TransferFunctionEH99(), M._TransferFunctionEH99()
    t.set_cosmology(om, ob, 0., 0, ol, hb)
    t0.set_cosmology(om, ob, 0., 0, ol, hb, 0.)
    for nm in NAMES99: same(h, nm, getattr(t, nm), getattr(t0, nm))


for nu in (None, False, True):
    @suite.case('no-wiggle variant: transfer function, ' + {None: 'default', False: 'without neutrinos', True: 'with neutrinos'}[nu])
    def _(h, nu=nu):
        M = h.mod(PS)
        t, d = instance(h, M._TransferFunctionEH99() if nu is None else M._TransferFunctionEH99(nu), NAMES99)
        k = h.real('k', gt=0)
        want = eh.eh99_transfer(F, d, k)
        for nm, g, w in zip(('CDM + baryons', 'CDM + baryons + neutrinos'), t._transfer_function(k), want): same(h, nm, g, w)
        same(h, 'variant returned', t.transfer_function(k), want[1 if nu else 0])
        t.set_variant(not nu); same(h, 'after a change of the variant', t.transfer_function(k), want[0 if nu else 1])
        t.set_variant(); same(h, 'back to the default', t.transfer_function(k), want[0])


@suite.case('unphysical cosmologies are refused')
def _(h):
    M = h.mod(PS)
    t8, t9 = M._TransferFunctionEH98(), M._TransferFunctionEH99()
    ok8 = dict(omega0=h.real('om', gt=0), f_baryon=h.real('fb', gt=0, hi=1), hubble=h.real('hubble', gt=0), Tcmb=h.real('T', gt=0))
    for k in ok8:
        h.raises(f'{k} (baryon variant)', ValueError, lambda: t8.set_cosmology(**(ok8 | {k: h.real('bad_' + k, hi=0)})))
    ok9 = dict(omega_matter=h.real('om9', gt=0), omega_baryon=h.real('ob', lo=0), omega_hdm=h.real('on', lo=0), degen_hdm=h.int('N'), omega_lambda=h.real('ol'), hubble=h.real('h9', gt=0, hi=2), redshift=h.real('z', gt=-1, hi=99))
    for k, kw in (('omega_baryon', dict(lt=0)), ('omega_hdm', dict(lt=0)), ('hubble', dict(hi=0)), ('hubble', dict(gt=2)), ('redshift', dict(hi=-1)), ('redshift', dict(gt=99))):
        h.raises(f'{k} {kw} (no-wiggle variant)', ValueError, lambda: t9.set_cosmology(**(ok9 | {k: h.real(f'bad9_{k}_{list(kw)[0]}', **kw)})))


@suite.case('transfer function variants')
def _(h):
    m, p = cosmology(h)
    M = h.mod(PS)
    log = []

    class EH98:
        def __init__(self): log.append('98')
        def set_cosmology(self, om, fb, hb, Tcmb=2.728): log.append((om, fb, hb, Tcmb))
        def transfer_function(self, k): return ('98', k)

    class EH99:
        def __init__(self, nu=False): log.append(('99', nu))
        def set_cosmology(self, om, ob, oh, dg, ol, hb, redshift=0.): log.append((om, ob, oh, dg, ol, hb, redshift))
        def transfer_function(self, k): return ('99', k)
    M._TransferFunctionEH98, M._TransferFunctionEH99 = EH98, EH99
    k = h.real('k')
    t = M._TransferFunctionFlatLambdaCDMNR(m, True)
    h.prove('baryon variant', t.transfer_function(k)[0] == '98')
    if t.transfer_function(k)[0] != '98': return
    h.prove('baryon variant (parameters)', len(log[-1]) == 4); h.eq('its wave number', t.transfer_function(k)[1], k)
    om, fb, hb, T = log[-1]
    h.eq('matter', om, p['omega_m0']); h.eq('baryon fraction', fb * p['omega_m0'], p['omega_b0']); h.eq('hubble', hb, p['hubble'])
    t = M._TransferFunctionFlatLambdaCDMNR(m)
    h.prove('no-wiggle variant', t.transfer_function(k)[0] == '99' and log[-2] == ('99', False)); h.eq('its wave number (no-wiggle)', t.transfer_function(k)[1], k)
    om, ob, oh, dg, ol, hb, zz = log[-1]
    h.eq('matter (no-wiggle)', om, p['omega_m0']); h.eq('baryons (no-wiggle)', ob, p['omega_b0']); h.eq('dark energy', ol, 1 - p['omega_m0']); h.eq('hubble (no-wiggle)', hb, p['hubble'])
    h.eq('no neutrinos', oh, 0); h.eq('today', zz, 0)
