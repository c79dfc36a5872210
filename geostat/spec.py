"""Catalogue of the public sources, their parameters (SI units) and results.

This is the specification side: it names only public API (classes, keyword
parameters, methods, options), never private attributes.
"""
from fractions import Fraction as F


def U(m=0, kg=0, s=0, A=0):
    return (F(m), F(kg), F(s), F(A))


ONE = U()
M = U(1)
SEC = U(s=1)
HZ = U(s=-1)
AMP = U(A=1)
KG = U(kg=1)
S_M = U(-3, -1, 3, 2)          # conductivity S/m
OHM_M = U(3, 1, -3, -2)
MU = U(1, 1, -2, -2)           # H/m
EPS = U(-3, -1, 4, 2)          # F/m
AM2 = U(2, A=1)
A_M = U(-1, A=1)               # H field
TESLA = U(0, 1, -2, -1)
V_M = U(1, 1, -3, -1)
VOLT = U(2, 1, -3, -1)
A_M2 = U(-2, A=1)
TM = U(1, 1, -2, -1)           # T m
GRAV = U(3, -1, -2)
RHO = U(-3, 1)
ACC = U(1, s=-2)
GEO = U(2, s=-2)               # gravitational potential
S_2 = U(s=-2)


def mulU(a, b, k=1):
    return tuple(x + k * y for x, y in zip(a, b))


def show_unit(u):
    names = ('m', 'kg', 's', 'A')
    return ' '.join(f"{n}^{e}" if e != 1 else n for n, e in zip(names, u) if e) or '1'


CONST_UNITS = {'mu_0': MU, 'epsilon_0': EPS, 'G': GRAV, 'pi': ONE, 'c_light': U(1, s=-1),
               'hankel_base': ONE, 'hankel_j0': ONE, 'hankel_j1': ONE}


class P:
    """Constructor/keyword parameter."""
    def __init__(self, kind, unit, sign=None):
        self.kind, self.unit, self.sign = kind, unit, sign


class R:
    """Result of a method: unit, tensor rank, options."""
    def __init__(self, unit, rank=1, opts=None, default=None, arg='xyz', attr=False):
        self.unit, self.rank, self.opts, self.default, self.arg, self.attr = unit, rank, opts or {}, default, arg, attr


class Src:
    def __init__(self, mod, cls, params, methods, strength=(), frame='whole', props=None, note=''):
        self.mod, self.cls, self.params, self.methods = mod, cls, params, methods
        self.strength, self.frame, self.props, self.note = strength, frame, props or {}, note
        self.id = mod.replace('geoana.', '').replace('em.', '') + '.' + cls

    def __repr__(self):
        return self.id


sc = lambda unit, sign=None: P('s', unit, sign)
loc = lambda: P('pos', M)
orient = lambda: P('dir', ONE)
EMP = dict(sigma=sc(S_M, '+'), mu=sc(MU, '+'), epsilon=sc(EPS, '+'))
ST, FD, TD, GV = 'geoana.em.static', 'geoana.em.fdem', 'geoana.em.tdem', 'geoana.gravity'
COORD = {'coordinates': ('cartesian', 'cylindrical')}
FIELD3 = {'field': ('total', 'primary', 'secondary', 'all')}
FREQ = lambda: P('freq', HZ, '+')
TIME = lambda: P('time', SEC, '+')

SOURCES = [
    Src(ST, 'MagneticDipoleWholeSpace', dict(EMP, location=loc(), orientation=orient(), moment=sc(AM2)),
        dict(vector_potential=R(TM, 1, COORD), magnetic_flux_density=R(TESLA, 1, COORD), magnetic_field=R(A_M, 1, COORD)),
        strength=('moment',)),
    Src(ST, 'MagneticPoleWholeSpace', dict(EMP, location=loc(), orientation=orient(), moment=sc(U(1, A=1))),
        dict(magnetic_flux_density=R(TESLA, 1, COORD), magnetic_field=R(A_M, 1, COORD)), strength=('moment',)),
    Src(ST, 'CircularLoopWholeSpace', dict(EMP, location=loc(), orientation=orient(), radius=sc(M, '+'), current=sc(AMP)),
        dict(vector_potential=R(TM, 1, COORD), magnetic_flux_density=R(TESLA, 1, COORD), magnetic_field=R(A_M, 1, COORD)),
        strength=('current',)),
    Src(ST, 'LineCurrentWholeSpace', dict(EMP, nodes=P('nodes', M), current=sc(AMP)),
        dict(scalar_potential=R(VOLT, 0), vector_potential=R(TM), magnetic_field=R(A_M), magnetic_flux_density=R(TESLA),
             electric_field=R(V_M), current_density=R(A_M2)), strength=('current',)),
    Src(ST, 'PointCurrentWholeSpace', dict(rho=sc(OHM_M, '+'), current=sc(AMP), location=loc()),
        dict(potential=R(VOLT, 0), electric_field=R(V_M), current_density=R(A_M2)), strength=('current',)),
    Src(ST, 'PointCurrentHalfSpace', dict(rho=sc(OHM_M, '+'), current=sc(AMP), location=P('posneg', M)),
        dict(potential=R(VOLT, 0, arg='xyzneg'), electric_field=R(V_M, arg='xyzneg'), current_density=R(A_M2, arg='xyzneg')),
        strength=('current',), frame='half'),
    Src(ST, 'DipoleHalfSpace', dict(rho=sc(OHM_M, '+'), current=sc(AMP), location_a=P('posneg', M), location_b=P('posneg', M)),
        dict(potential=R(VOLT, 0, arg='xyzneg'), electric_field=R(V_M, arg='xyzneg'), current_density=R(A_M2, arg='xyzneg')),
        strength=('current',), frame='half'),
    Src(ST, 'ElectrostaticSphere', dict(radius=sc(M, '+'), sigma_sphere=sc(S_M, '+'), sigma_background=sc(S_M, '+'),
                                        primary_field=P('vec', V_M), location=loc()),
        dict(potential=R(VOLT, 0, FIELD3), electric_field=R(V_M, 1, FIELD3), current_density=R(A_M2, 1, FIELD3),
             charge_density=R(U(-2, s=1, A=1), 0)), strength=('primary_field',)),
    Src(ST, 'MagnetostaticSphere', dict(radius=sc(M, '+'), mu_sphere=sc(MU, '+'), mu_background=sc(MU, '+'),
                                        primary_field=P('vec', A_M), location=loc()),
        dict(potential=R(AMP, 0, FIELD3), magnetic_field=R(A_M, 1, FIELD3), magnetic_flux_density=R(TESLA, 1, FIELD3)),
        strength=('primary_field',)),
    Src(ST, 'MagneticPrism', dict(min_location=P('posmin', M), max_location=P('posmax', M), magnetization=P('vec', A_M)),
        dict(scalar_potential=R(AMP, 0), magnetic_field=R(A_M), magnetic_flux_density=R(TESLA),
             magnetic_field_gradient=R(mulU(A_M, M, -1), 2)), strength=('magnetization',), frame='axes',
        props=dict(moment=(AM2, 1), volume=(U(3), 0), location=(M, 1))),
    Src(FD, 'ElectricDipoleWholeSpace', dict(EMP, frequency=FREQ(), location=loc(), orientation=orient(), current=sc(AMP), length=sc(M, '+')),
        dict(vector_potential=R(AMP), electric_field=R(V_M), current_density=R(A_M2), magnetic_field=R(A_M),
             magnetic_flux_density=R(TESLA)), strength=('current', 'length'),
        props=dict(omega=(HZ, 0), sigma_hat=(S_M, 0), wavenumber=(U(-1), 0), skin_depth=(M, 0))),
    Src(FD, 'MagneticDipoleWholeSpace', dict(EMP, frequency=FREQ(), location=loc(), orientation=orient(), moment=sc(AM2)),
        dict(vector_potential=R(VOLT), electric_field=R(V_M), current_density=R(A_M2), magnetic_field=R(A_M),
             magnetic_flux_density=R(TESLA)), strength=('moment',)),
    Src(FD, 'HarmonicPlaneWave', dict(EMP, frequency=FREQ(), amplitude=sc(V_M), orientation=P('dirh', ONE)),
        dict(electric_field=R(V_M), current_density=R(A_M2), magnetic_field=R(A_M), magnetic_flux_density=R(TESLA)),
        strength=('amplitude',), frame='vertical'),
    Src(FD, 'MagneticDipoleHalfSpace', dict(EMP, frequency=FREQ(), location=P('posz0', M), orientation=orient(), moment=sc(AM2)),
        dict(magnetic_field=R(A_M, 1, {'field': ('total', 'secondary')}, arg='xy')), strength=('moment',), frame='half'),
    Src(FD, 'MagneticDipoleLayeredHalfSpace', dict(frequency=P('freqs', HZ, '+'), thickness=P('thick', M, '+'),
                                                   sigma=P('layer', S_M, '+'), mu=P('layer', MU, '+'), epsilon=P('layer', EPS, '+'),
                                                   location=P('pospos', M), orientation=orient(), moment=sc(AM2)),
        dict(magnetic_field=R(A_M, 1, {'field': ('total', 'secondary')}, arg='xyzpos')), strength=('moment',), frame='half'),
    Src(TD, 'ElectricDipoleWholeSpace', dict(EMP, time=TIME(), location=loc(), orientation=orient(), current=sc(AMP), length=sc(M, '+')),
        dict(vector_potential=R(AMP), electric_field=R(V_M), current_density=R(A_M2), magnetic_field=R(A_M),
             magnetic_field_time_deriv=R(mulU(A_M, SEC, -1)), magnetic_flux_density=R(TESLA),
             magnetic_flux_density_time_deriv=R(mulU(TESLA, SEC, -1))), strength=('current', 'length'),
        props=dict(diffusion_distance=(M, 0), theta=(U(-1), 0))),
    Src(TD, 'TransientPlaneWave', dict(EMP, time=TIME(), amplitude=sc(mulU(V_M, SEC)), orientation=P('dirh', ONE)),
        dict(electric_field=R(V_M), current_density=R(A_M2), magnetic_field=R(A_M), magnetic_flux_density=R(TESLA)),
        strength=('amplitude',), frame='vertical'),
    Src(TD, 'VerticalMagneticDipoleHalfSpace', dict(EMP, time=TIME(), location=loc(), orientation=orient(), moment=sc(AM2)),
        dict(magnetic_field=R(A_M, arg='xy'), magnetic_flux_density=R(TESLA, arg='xy'),
             magnetic_field_time_derivative=R(mulU(A_M, SEC, -1), arg='xy'),
             magnetic_flux_time_derivative=R(mulU(TESLA, SEC, -1), arg='xy')), strength=('moment',), frame='half'),
    Src(GV, 'PointMass', dict(mass=sc(KG), location=loc()),
        dict(gravitational_potential=R(GEO, 0), gravitational_field=R(ACC), gravitational_gradient=R(S_2, 2)), strength=('mass',)),
    Src(GV, 'Sphere', dict(radius=sc(M, '+'), rho=sc(RHO), location=loc()),
        dict(gravitational_potential=R(GEO, 0), gravitational_field=R(ACC), gravitational_gradient=R(S_2, 2)), strength=('rho',),
        props=dict(mass=(KG, 0))),
    Src(GV, 'Prism', dict(min_location=P('posmin', M), max_location=P('posmax', M), rho=sc(RHO)),
        dict(gravitational_potential=R(GEO, 0), gravitational_field=R(ACC), gravitational_gradient=R(S_2, 2)), strength=('rho',),
        frame='axes', props=dict(mass=(KG, 0), volume=(U(3), 0), location=(M, 1))),
]
BYID = {s.id: s for s in SOURCES}
FLATZ = ('posz0', 'dirh')      # vectors whose z component is zero


class Fn:
    """Module-level function."""
    def __init__(self, mod, name, params, unit, rank=0, strength=(), flags=None, arg=None):
        self.mod, self.name, self.params, self.unit, self.rank = mod, name, params, unit, rank
        self.strength, self.flags, self.arg = strength, flags or {}, arg
        self.id = mod.replace('geoana.', '').replace('em.', '') + '.' + name


LOOPP = dict(sigma=sc(S_M, '+'), mu=sc(MU, '+'), radius=sc(M, '+'), current=sc(AMP), turns=sc(ONE))
VMD = dict(t=TIME(), xy=P('xy', M), sigma=sc(S_M, '+'), mu=sc(MU, '+'), moment=sc(AM2))
FUNCTIONS = [
    Fn(FD, 'omega', dict(frequency=FREQ()), HZ),
    Fn(FD, 'wavenumber', dict(EMP, frequency=FREQ()), U(-1), flags={'quasistatic': (True, False)}),
    Fn(FD, 'skin_depth', dict(EMP, frequency=FREQ()), M, flags={'quasistatic': (True, False)}),
    Fn(FD, 'sigma_hat', dict(frequency=FREQ(), sigma=sc(S_M, '+'), epsilon=sc(EPS, '+')), S_M, flags={'quasistatic': (True, False)}),
    Fn(FD, 'vertical_magnetic_field_horizontal_loop', dict(LOOPP, frequencies=FREQ()), A_M, strength=('current', 'turns'),
       flags={'secondary': (True, False)}),
    Fn(FD, 'vertical_magnetic_flux_horizontal_loop', dict(LOOPP, frequencies=FREQ()), TESLA, strength=('current', 'turns'),
       flags={'secondary': (True, False)}),
    Fn(TD, 'peak_time', dict(z=sc(M), sigma=sc(S_M, '+'), mu=sc(MU, '+')), SEC),
    Fn(TD, 'diffusion_distance', dict(time=TIME(), sigma=sc(S_M, '+'), mu=sc(MU, '+')), M),
    Fn(TD, 'theta', dict(time=TIME(), sigma=sc(S_M, '+'), mu=sc(MU, '+')), U(-1)),
    Fn(TD, 'vertical_magnetic_field_horizontal_loop', dict(LOOPP, t=TIME()), A_M, strength=('current', 'turns')),
    Fn(TD, 'vertical_magnetic_flux_horizontal_loop', dict(LOOPP, t=TIME()), TESLA, strength=('current', 'turns')),
    Fn(TD, 'vertical_magnetic_field_time_deriv_horizontal_loop', dict(LOOPP, t=TIME()), mulU(A_M, SEC, -1), strength=('current', 'turns')),
    Fn(TD, 'vertical_magnetic_flux_time_deriv_horizontal_loop', dict(LOOPP, t=TIME()), mulU(TESLA, SEC, -1), strength=('current', 'turns')),
    Fn(TD, 'magnetic_field_vertical_magnetic_dipole', VMD, A_M, 1, strength=('moment',)),
    Fn(TD, 'magnetic_field_time_deriv_magnetic_dipole', VMD, mulU(A_M, SEC, -1), 1, strength=('moment',)),
    Fn(TD, 'magnetic_flux_vertical_magnetic_dipole', VMD, TESLA, 1, strength=('moment',)),
    Fn(TD, 'magnetic_flux_time_deriv_magnetic_dipole', VMD, mulU(TESLA, SEC, -1), 1, strength=('moment',)),
]
TDR = 'geoana.em.tdem.reference'
FUNCTIONS += [
    Fn(TDR, 'hz_from_vert_4_69a', dict(m=sc(AM2), theta=sc(U(-1), '+'), rho=sc(M, '+')), A_M, strength=('m',)),
    Fn(TDR, 'dhz_from_vert_4_70', dict(m=sc(AM2), theta=sc(U(-1), '+'), rho=sc(M, '+'), sigma=sc(S_M, '+'), mu=sc(MU, '+')),
       mulU(A_M, SEC, -1), strength=('m',)),
    Fn(TDR, 'hp_from_vert_4_72', dict(m=sc(AM2), theta=sc(U(-1), '+'), rho=sc(M, '+')), A_M, strength=('m',)),
    Fn(TDR, 'dhp_from_vert_4_74', dict(m=sc(AM2), theta=sc(U(-1), '+'), rho=sc(M, '+'), t=TIME()), mulU(A_M, SEC, -1), strength=('m',)),
]
BYFN = {f.id: f for f in FUNCTIONS}
