"""Independent SI formulas for the quantities that an EPREM observer derives.

Every function takes a synthetic dataset and run parameters in SI units and
returns the named axes and the values; nothing here uses the code under test.
"""

import math

import numpy

from .eprem import T, S, P, E, M

C = 2.9979e8
EV = 1.6022e-19
AU = 1.495978707e11
MP = 1.6726e-27

# name: (aliases, mks unit, cgs unit, cgs per mks)
DERIVED = {
    'x': (['X'], 'm', 'cm', 1e2),
    'y': (['Y'], 'm', 'cm', 1e2),
    'z': (['Z'], 'm', 'cm', 1e2),
    'B': (['b_mag', '|B|', 'bmag', 'b mag'], 'T', 'G', 1e4),
    'V': (['v_mag', '|V|', 'vmag', 'v mag', 'v', '|v|'], 'm/s', 'cm/s', 1e2),
    'BV': (['bv_mag', 'bv', '|bv|', '|BV|'], 'T * m/s', 'G * cm/s', 1e6),
    'Vpara': (['v_para', 'vpara'], 'm/s', 'cm/s', 1e2),
    'Vperp': (['v_perp', 'vperp'], 'm/s', 'cm/s', 1e2),
    'flow angle': (['flow_angle', 'angle'], 'rad', 'rad', 1.0),
    'div(V)': (['div_v', 'divV', 'divv', 'div V', 'div v', 'div(v)'], '1/s', '1/s', 1.0),
    'density ratio': (['density_ratio', 'n2/n1', 'n_2/n_1'], '1', '1', 1.0),
    'rigidity': (['Rg', 'R_g'], 'kg m / (s C)', 'g cm / (s statC)', 1e5 / 2.99792458e9),
    'mean free path': (['mean_free_path', 'mfp'], 'm', 'cm', 1e2),
    'acceleration rate': (['acceleration_rate'], '1/s', '1/s', 1.0),
    'energy density': (['energy_density'], 'J/m^3', 'erg/cm^3', 10.0),
    'average energy': (['average_energy'], 'J', 'erg', 1e7),
    'isotropic distribution': (['isotropic_distribution', 'isodist'], 's^3/m^6', 's^3/cm^6', 1e-12),
    'flux': (['Flux', 'J', 'J(E)', 'j', 'j(E)'], '1 / (s sr m^2 J)', '1 / (s sr cm^2 erg)', 1e-11),
    'fluence': ([], '1 / (sr m^2 J)', '1 / (sr cm^2 erg)', 1e-11),
    'integral flux': (['integral_flux'], '1 / (s sr m^2)', '1 / (s sr cm^2)', 1e-4),
}

FROM_DIST = ('energy density', 'average energy', 'isotropic distribution')


class Physics:
    """The derived quantities of one dataset, in SI units."""

    def __init__(self, dataset, **parameters):
        self.d = dataset
        self.si = dataset.si
        self.p = {
            'lambda0': AU, 'mfp_radial_power': 2.0, 'rigidity_power': 1.0 / 3.0,
            'kper_kpar': 0.01, 'minimum_energy': 0.0, **parameters,
        }

    def __call__(self, name):
        return getattr(self, name.replace(' ', '_').replace('(', '_').replace(')', ''))()

    def grid(self, name):
        """A species-by-energy grid."""
        a = self.si[name]
        return a[None, :] if a.ndim == 1 else a

    def vec(self, k):
        return [self.si[k + c] for c in 'rtp']

    def x(self):
        return (T, S), self.si['R'] * numpy.sin(self.si['T']) * numpy.cos(self.si['P'])

    def y(self):
        return (T, S), self.si['R'] * numpy.sin(self.si['T']) * numpy.sin(self.si['P'])

    def z(self):
        return (T, S), self.si['R'] * numpy.cos(self.si['T'])

    def mag(self, k):
        a, b, c = self.vec(k)
        return numpy.sqrt(a * a + b * b + c * c)

    def B(self):
        return (T, S), self.mag('B')

    def V(self):
        return (T, S), self.mag('V')

    def BV(self):
        return (T, S), self.mag('B') * self.mag('V')

    def dot(self):
        return sum(a * b for a, b in zip(self.vec('B'), self.vec('V')))

    def Vpara(self):
        return (T, S), self.dot() / self.mag('B')

    def Vperp(self):
        # |B x V| / |B|, which does not cancel.
        (a1, a2, a3), (b1, b2, b3) = self.vec('B'), self.vec('V')
        c = [a2 * b3 - a3 * b2, a3 * b1 - a1 * b3, a1 * b2 - a2 * b1]
        return (T, S), numpy.sqrt(sum(i * i for i in c)) / self.mag('B')

    def flow_angle(self):
        return (T, S), numpy.arccos(numpy.clip(self.dot() / (self.mag('B') * self.mag('V')), -1, 1))

    def div_V(self):
        t, n = self.si['time'], numpy.log(self.si['Rho'])
        out = numpy.empty_like(n)
        k = len(t)
        for i in range(k):
            if i in (0, k - 1):
                j = 0 if i == 0 else k - 2
                out[i] = (n[j + 1] - n[j]) / (t[j + 1] - t[j])
            else:
                h0, h1 = t[i] - t[i - 1], t[i + 1] - t[i]
                out[i] = (
                    (n[i + 1] - n[i]) / h1 * h0 / (h0 + h1)
                    + (n[i] - n[i - 1]) / h0 * h1 / (h0 + h1)
                )
        return (T, S), -out

    def density_ratio(self):
        return (T, S), self.si['Rho'] / self.si['Rho'][:1]

    def _rigidity(self, energy):
        m, q = self.si['mass'][:, None], self.si['charge'][:, None]
        # p = sqrt(E^2 + 2 E m c^2) / c
        return numpy.sqrt(energy * (energy + 2 * m * C * C)) / C / q

    def rigidity(self):
        return (P, E), self._rigidity(self.grid('egrid'))

    def mean_free_path(self):
        r = (self.si['R'] / AU) ** self.p['mfp_radial_power']
        rg = (self._rigidity(self.grid('egrid')) / self._rigidity(1e6 * EV)) ** self.p['rigidity_power']
        return (T, S, P, E), self.p['lambda0'] * r[:, :, None, None] * rg[None, None]

    def kxx(self):
        """Diffusion coefficient over flow speed."""
        angle = self.flow_angle()[1]
        k = numpy.cos(angle) ** 2 + self.p['kper_kpar'] * numpy.sin(angle) ** 2
        mfp = self.mean_free_path()[1]
        return mfp * (k / self.mag('V'))[:, :, None, None] * self.grid('vgrid')[None, None] / 3.0

    def acceleration_rate(self):
        n = self.d.sizes
        v = self.mag('V')
        out = numpy.empty((n[T], n[S], n[P], n[E]))
        kxx = self.kxx()
        for s in range(n[S]):
            a, b = min(s + 1, n[S] - 1), max(s - 1, 0)
            dot = sum(c[:, a] * c[:, b] for c in self.vec('V'))
            dv = v[:, a] * numpy.abs(1 - dot / v[:, a] ** 2)
            out[:, s] = dv[:, None, None] / (3.0 * (kxx[:, a] + kxx[:, b]))
        return (T, S, P, E), out

    def isotropic_distribution(self):
        return (T, S, P, E), self.si['Dist'].sum(axis=-1) / self.d.sizes[M]

    def _moment(self, power):
        v = self.grid('vgrid')
        dv = numpy.empty_like(v)
        dv[:, 0] = v[:, 1] - v[:, 0]
        dv[:, -1] = v[:, -1] - v[:, -2]
        dv[:, 1:-1] = 0.5 * (v[:, 2:] - v[:, :-2])
        f = self.isotropic_distribution()[1]
        return (f * (v ** power * dv)[None, None]).sum(axis=-1)

    def energy_density(self):
        return (T, S, P), MP * self._moment(4)

    def average_energy(self):
        return (T, S, P), 0.5 * MP * self._moment(4) / self._moment(2)

    def flux(self):
        if 'flux' in self.si:
            return (T, S, P, E), self.si['flux']
        return (T, S, P, E), 2 * self.grid('egrid')[None, None] / MP ** 2 * self.isotropic_distribution()[1]

    def fluence(self):
        return (S, P, E), simpson(numpy.moveaxis(self.flux()[1], 0, -1), self.si['time'])

    def integral_flux(self):
        f = self.flux()[1]
        bound = self.p['minimum_energy']
        out = numpy.empty(f.shape[:3] + (1,))
        for i, e in enumerate(self.grid('egrid')):
            out[:, :, i, 0] = above(f[:, :, i], e, bound)
        return (T, S, P, 'minimum energy'), out


def above(f, e, bound):
    """Simpson integral over energies above a bound, with a power law at the bound."""
    if bound >= e[-1]:
        return numpy.zeros(f.shape[:-1])
    if bound <= e[0]:
        return simpson(f, e)
    i = max(j for j in range(len(e)) if e[j] <= bound)
    slope = numpy.log(f[..., i + 1] / f[..., i]) / math.log(e[i + 1] / e[i])
    first = f[..., i] * (bound / e[i]) ** slope
    y = numpy.concatenate([first[..., None], f[..., i + 1:]], axis=-1)
    return simpson(y, numpy.concatenate([[bound], e[i + 1:]]))


def simpson(y, x):
    """Composite Simpson rule on an irregular grid, averaging both ends for an even number of points."""
    n = len(x)
    if n == 1:
        return numpy.zeros(y.shape[:-1])
    if n == 2:
        return 0.5 * (x[1] - x[0]) * (y[..., 0] + y[..., 1])

    def panels(lo, hi):
        out = 0.0
        for i in range(lo, hi - 1, 2):
            h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
            out = out + (h0 + h1) / 6.0 * (
                (2 - h1 / h0) * y[..., i]
                + (h0 + h1) ** 2 / (h0 * h1) * y[..., i + 1]
                + (2 - h0 / h1) * y[..., i + 2]
            )
        return out

    if n % 2:
        return panels(0, n - 1)
    first = panels(0, n - 2) + 0.5 * (x[-1] - x[-2]) * (y[..., -1] + y[..., -2])
    last = panels(1, n - 1) + 0.5 * (x[1] - x[0]) * (y[..., 0] + y[..., 1])
    return 0.5 * (first + last)
