"""The published fitting formulas of Eisenstein & Hu, written from the papers (and the constants of their public
tf_fit.c and power.c), over any arithmetic: F supplies log, sqrt, exp, sin and pow.

Both the contracts (symbolic reals) and the executable contracts (floats) evaluate these."""


def eh98_scales(F, om, fb, h, T):
    """ApJ 496, 605: the scales of a cosmology with CDM and baryons; yields name, value (given the ones before)"""
    d = {}
    w = om * h * h
    d['hubble'] = h
    d['omhh'] = w
    d['obhh'] = w * fb
    d['theta_cmb'] = T / 2.7
    return d


def eh98_relations(F, d, fb):
    """the relations (2)-(7), (10)-(12), (14), (15), (19), (23), (24), (25), (26), (31) between the scales"""
    w, wb, th, P = d['omhh'], d['obhh'], d['theta_cmb'], F.pow
    th2 = th * th
    yield 'z_equality', 2.50e4 * w / (th2 * th2)                                            # (2)
    yield 'k_equality', 0.0746 * w / th2                                                     # (3)
    b1 = 0.313 * P(w, -0.419) * (1 + 0.607 * P(w, 0.674))
    b2 = 0.238 * P(w, 0.223)
    yield 'z_drag', 1291 * P(w, 0.251) / (1 + 0.659 * P(w, 0.828)) * (1 + b1 * P(wb, b2))  # (4)
    zeq, keq, zd = d['z_equality'], d['k_equality'], d['z_drag']
    yield 'R_drag', 31.5 * wb / (th2 * th2) * (1000 / (1 + zd))                              # (5)
    yield 'R_equality', 31.5 * wb / (th2 * th2) * (1000 / zeq)
    Rd, Re = d['R_drag'], d['R_equality']
    yield 'sound_horizon', 2. / 3. / keq * F.sqrt(6 / Re) * F.log((F.sqrt(1 + Rd) + F.sqrt(Rd + Re)) / (1 + F.sqrt(Re)))   # (6)
    s = d['sound_horizon']
    yield 'k_silk', 1.6 * P(wb, 0.52) * P(w, 0.73) * (1 + P(10.4 * w, -0.95))               # (7)
    a1 = P(46.9 * w, 0.670) * (1 + P(32.1 * w, -0.532))
    a2 = P(12.0 * w, 0.424) * (1 + P(45.0 * w, -0.582))
    yield 'alpha_c', P(a1, -fb) * P(a2, -(fb * fb * fb))                                     # (11)
    c1 = 0.944 / (1 + P(458 * w, -0.708))
    c2 = P(0.395 * w, -0.0266)
    yield 'beta_c', 1 / (1 + c1 * (P(1 - fb, c2) - 1))                                       # (12)
    y = zeq / (1 + zd)
    G = y * (-6 * F.sqrt(1 + y) + (2 + 3 * y) * F.log((F.sqrt(1 + y) + 1) / (F.sqrt(1 + y) - 1)))    # (15)
    yield 'alpha_b', 2.07 * keq * s * P(1 + Rd, -0.75) * G                                   # (14)
    yield 'beta_node', 8.41 * P(w, 0.435)                                                    # (23)
    yield 'beta_b', 0.5 + fb + (3 - 2 * fb) * F.sqrt((17.2 * w) * (17.2 * w) + 1)            # (24)
    yield 'k_peak', 2.5 * 3.14159 * (1 + 0.217 * w) / s                                      # (25)
    yield 'sound_horizon_fit', 44.5 * F.log(9.83 / w) / F.sqrt(1 + 10.0 * P(wb, 0.75))       # (26)
    yield 'alpha_gamma', 1 - 0.328 * F.log(431.0 * w) * fb + 0.38 * F.log(22.3 * w) * (fb * fb)   # (31)


def eh98_transfer(F, d, kk):
    """(8)-(10), (16)-(22): total, baryon and CDM transfer function at a positive wave number in h/Mpc"""
    P = F.pow
    k = kk * d['hubble']
    q = k / 13.41 / d['k_equality']                                                          # (10)
    x = k * d['sound_horizon']
    ln_b = F.log(2.718282 + 1.8 * d['beta_c'] * q)
    ln_1 = F.log(2.718282 + 1.8 * q)
    C_a = 14.2 / d['alpha_c'] + 386.0 / (1 + 69.9 * P(q, 1.08))                              # (20)
    C_1 = 14.2 + 386.0 / (1 + 69.9 * P(q, 1.08))
    q2 = q * q

    def T0(ln, C): return ln / (ln + C * q2)                                                 # (19)
    u = x / 5.4
    f = 1 / (1 + u * u * u * u)                                                              # (18)
    Tc = f * T0(ln_b, C_1) + (1 - f) * T0(ln_b, C_a)                                         # (17)
    v = d['beta_node'] / x
    xt = k * (d['sound_horizon'] * P(1 + v * v * v, -1. / 3.))                               # (22)
    g, e = x / 5.2, d['beta_b'] / x
    Tb = F.sin(xt) / xt * (T0(ln_1, C_1) / (1 + g * g)
                           + d['alpha_b'] / (1 + e * e * e) * F.exp(-P(k / d['k_silk'], 1.4)))   # (21)
    fb = d['obhh'] / d['omhh']
    return fb * Tb + (1 - fb) * Tc, Tb, Tc                                                   # (16)


def eh99_inputs(F, om, ob, on, N, ol, h, z):
    """trace amounts replace absent baryons and neutrinos; at least one neutrino species"""
    return dict(om=om, ob=F.where(ob <= 0, 1.0e-5, ob), on=F.where(on <= 0, 1.0e-5, on), N=F.where(N < 1, 1, N), ol=ol, h=h, z=z)


def eh99_relations(F, d, i):
    """ApJ 511, 5: (1)-(4), (6), (8)-(11), (14), (15), (21)"""
    P = F.pow
    om, ob, on, ol, h, z = (i[k] for k in ('om', 'ob', 'on', 'ol', 'h', 'z'))
    yield 'num_degen_hdm', i['N']
    yield 'hhubble', h
    yield 'theta_cmb', 2.728 / 2.7
    yield 'omhh', om * (h * h)
    yield 'obhh', ob * (h * h)
    yield 'onhh', on * (h * h)
    yield 'omega_curv', 1 - om - ol
    yield 'f_baryon', ob / om
    yield 'f_hdm', on / om
    fb, fn = d['f_baryon'], d['f_hdm']
    yield 'f_cdm', 1 - fb - fn
    yield 'f_cb', d['f_cdm'] + fb
    yield 'f_bnu', fb + fn
    w, wb, th, N, fc, fcb, fbn = (d[k] for k in ('omhh', 'obhh', 'theta_cmb', 'num_degen_hdm', 'f_cdm', 'f_cb', 'f_bnu'))
    th2 = th * th
    yield 'z_equality', 25000.0 * w / (th2 * th2)                                            # (1)
    yield 'k_equality', 0.0746 * w / th2
    b1 = 0.313 * P(w, -0.419) * (1 + 0.607 * P(w, 0.674))
    b2 = 0.238 * P(w, 0.223)
    yield 'z_drag', 1291 * P(w, 0.251) / (1 + 0.659 * P(w, 0.828)) * (1 + b1 * P(wb, b2))  # (2)
    yield 'y_drag', d['z_equality'] / (1 + d['z_drag'])                                      # (3)
    yield 'sound_horizon_fit', 44.5 * F.log(9.83 / w) / F.sqrt(1 + 10.0 * P(wb, 0.75))       # (4)
    yield 'p_c', 0.25 * (5 - F.sqrt(1 + 24 * fc))                                            # (11)
    yield 'p_cb', 0.25 * (5 - F.sqrt(1 + 24 * fcb))
    g2 = ol + (1 + z) * (1 + z) * (d['omega_curv'] + om * (1 + z))                           # (9)
    yield 'omega_lambda_z', ol / g2
    yield 'omega_matter_z', om * (1 + z) * (1 + z) * (1 + z) / g2
    oz, lz, zeq, pc, pcb, yd = d['omega_matter_z'], d['omega_lambda_z'], d['z_equality'], d['p_c'], d['p_cb'], d['y_drag']

    def growth(m, l): return 2.5 * m / (P(m, 4. / 7.) - l + (1 + m / 2.) * (1 + l / 70.))
    yield 'growth_k0', zeq / (1 + z) * growth(oz, lz)                                        # (10)
    yield 'growth_to_z0', d['growth_k0'] / (zeq * growth(om, ol))
    yield 'alpha_nu', (fc / fcb * (5 - 2 * (pc + pcb)) / (5 - 4 * pcb) * P(1 + yd, pcb - pc)
                       * (1 + fbn * (-0.553 + 0.126 * fbn * fbn)) / (1 - 0.193 * F.sqrt(fn * N) + 0.169 * fn * P(N, 0.2))
                       * (1 + (pc - pcb) / 2 * (1 + 1 / (3 - 4 * pc) / (7 - 4 * pcb)) / (1 + yd)))     # (15)
    yield 'alpha_gamma', F.sqrt(d['alpha_nu'])
    yield 'beta_c', 1 / (1 - 0.949 * fbn)                                                    # (21)


def eh99_transfer(F, d, kk):
    """(5), (12)-(14), (16)-(20), (22)-(24): the CDM+baryon and the CDM+baryon+neutrino transfer function"""
    P = F.pow
    k = kk * d['hhubble']
    q = k / d['omhh'] * (d['theta_cmb'] * d['theta_cmb'])                                    # (5)
    fn, N, pcb, D, ag = d['f_hdm'], d['num_degen_hdm'], d['p_cb'], d['growth_k0'], d['alpha_gamma']
    t = N * q / fn
    yfs = 17.2 * fn * (1 + 0.488 * P(fn, -7. / 6.)) * (t * t)                                # (14)
    a = P(D, 1 - pcb)
    b = P(D / (1 + yfs), 0.7)
    Dcb = P(1 + b, pcb / 0.7) * a                                                            # (12)
    Dcbn = P(P(d['f_cb'], 0.7 / pcb) + b, pcb / 0.7) * a                                     # (13)
    u = k * d['sound_horizon_fit'] * 0.43
    gam = d['omhh'] * (ag + (1 - ag) / (1 + (u * u) * (u * u)))                              # (16)
    qe = q * d['omhh'] / gam                                                                 # (17)
    L = F.log(2.71828 + 1.84 * d['beta_c'] * ag * qe)                                        # (19)
    C = 14.4 + 325 / (1 + 60.5 * P(qe, 1.11))                                                # (20)
    sup = L / (L + C * (qe * qe))                                                            # (18)
    qn = 3.92 * q * F.sqrt(N / fn)                                                           # (23)
    B = 1 + 1.2 * P(fn, 0.64) * P(N, 0.3 + 0.6 * fn) / (P(qn, -1.6) + P(qn, 0.8))            # (22)
    return sup * B * Dcb / D, sup * B * Dcbn / D                                             # (24), (6), (7)
