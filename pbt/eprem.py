"""Synthetic EPREM datasets with known contents.

Every array is kept both as written and in SI units, so that an oracle never
needs the code under test.
"""

import os
import pathlib
import shutil
import tempfile

import netCDF4
import numpy

DAY = 86400.0
AU = 1.495978707e11
MEV = 1.6022e-13
EV = 1.6022e-19

T, S, P, E, M = 'time', 'shell', 'species', 'energy', 'mu'
AXES = (T, S, P, E, M)

# name: (dimensions, unit in the file, metric quantity)
VARIABLES = {
    'time': ((T,), 'julian date', 'time'),
    'shell': ((S,), 'shell', 'number'),
    'mu': ((M,), 'cos(mu)', 'number'),
    'mass': ((P,), 'nucleon', 'mass'),
    'charge': ((P,), 'e-', 'charge'),
    'egrid': ((P, E), 'MeV', 'energy'),
    'vgrid': ((P, E), 'km/s', 'velocity'),
    'R': ((T, S), 'au', 'length'),
    'T': ((T, S), 'radian', 'angle'),
    'P': ((T, S), 'radian', 'angle'),
    'Br': ((T, S), 'nT', 'magnetic field'),
    'Bt': ((T, S), 'nT', 'magnetic field'),
    'Bp': ((T, S), 'nT', 'magnetic field'),
    'Vr': ((T, S), 'km/s', 'velocity'),
    'Vt': ((T, S), 'km/s', 'velocity'),
    'Vp': ((T, S), 'km/s', 'velocity'),
    'Rho': ((T, S), 'cm^-3', 'number density'),
    'Dist': ((T, S, P, E, M), 's^3/km^6', 'distribution'),
    'flux': ((T, S, P, E), '# / cm^2 s sr MeV', 'flux'),
}

ALIASES = {
    'time': ['t', 'times'],
    'shell': ['shells'],
    'mu': ['mus', 'pitch angle', 'pitch-angle cosines'],
    'mass': ['m'],
    'charge': ['q'],
    'egrid': ['energy', 'energies', 'E'],
    'vgrid': ['speed', 'vparticle'],
    'R': ['radius', 'r'],
    'T': ['theta'],
    'P': ['phi'],
    'Br': ['br'], 'Bt': ['bt', 'Btheta', 'btheta'], 'Bp': ['bp', 'Bphi', 'bphi'],
    'Vr': ['vr'], 'Vt': ['vt', 'Vtheta', 'vtheta'], 'Vp': ['vp', 'Vphi', 'vphi'],
    'Rho': ['rho'],
    'Dist': ['dist', 'f'],
    'flux': ['Flux', 'J', 'J(E)', 'j', 'j(E)'],
}

# metric quantity: (SI factor per unit in the file, mks unit, cgs unit, cgs per mks)
QUANTITIES = {
    'time': (DAY, 's', 's', 1.0),
    'number': (1.0, '1', '1', 1.0),
    'mass': (1.6605e-27, 'kg', 'g', 1e3),
    'charge': (1.6022e-19, 'C', 'statC', 2.99792458e9),
    'energy': (MEV, 'J', 'erg', 1e7),
    'velocity': (1e3, 'm/s', 'cm/s', 1e2),
    'length': (AU, 'm', 'cm', 1e2),
    'angle': (1.0, 'rad', 'rad', 1.0),
    'magnetic field': (1e-9, 'T', 'G', 1e4),
    'number density': (1e6, 'm^-3', 'cm^-3', 1e-6),
    'distribution': (1e-18, 's^3/m^6', 's^3/cm^6', 1e-12),
    'flux': (1e4 / MEV, '1 / (s sr m^2 J)', '1 / (s sr cm^2 erg)', 1e-11),
}

SYMBOLS = [('H+', 1.0, 1.0), ('He++', 4.0, 2.0), ('He+', 4.0, 1.0), ('O+++++++', 16.0, 7.0)]


class Dataset:
    """A directory with one synthetic dataset and one configuration file."""

    def __init__(self, path, arrays, species, config, file):
        self.path = path
        self.arrays = arrays      # as written
        self.species = species
        self.config = config
        self.file = file
        self.si = {
            k: a * QUANTITIES[VARIABLES[k][2]][0] for k, a in arrays.items()
        }
        self.sizes = {
            T: len(arrays['time']), S: len(arrays['shell']),
            P: len(arrays['mass']), E: arrays['egrid'].shape[-1],
            M: len(arrays['mu']),
        }

    def dims(self, name):
        if name in ('egrid', 'vgrid') and self.arrays[name].ndim == 1:
            return (E,)
        return VARIABLES[name][0]

    def unit(self, name, system='mks'):
        q = QUANTITIES[VARIABLES[name][2]]
        return q[1] if system == 'mks' else q[2]

    def values(self, name, system='mks'):
        q = QUANTITIES[VARIABLES[name][2]]
        return self.si[name] * (1.0 if system == 'mks' else q[3])


def scratch(g):
    """A directory that is removed after the case."""
    path = tempfile.mkdtemp(prefix='goats-', dir=os.environ.get('GOATS_SCRATCH'))
    g.cleanup(lambda: shutil.rmtree(path, ignore_errors=True))
    return pathlib.Path(path)


def increasing(g, n, lo, hi, log=False):
    """Strictly increasing values with irregular spacing."""
    steps = [g.int(1, 9) for _ in range(n)]
    total = float(sum(steps)) or 1.0
    out, x = [], 0.0
    for s in steps:
        x += s / total
        out.append(x)
    u = numpy.array(out)
    if log:
        return lo * (hi / lo) ** u
    return lo + (hi - lo) * u


def noise(g, shape, lo, hi):
    """Values that depend on a few choices but differ at every point."""
    n = int(numpy.prod(shape))
    a, b = g.int(1, 97), g.int(0, 96)
    u = ((a * 37.0 + 1.0) * (numpy.arange(n) + 1.0) * 0.6180339887498949 + b * 0.0137) % 1.0
    return (lo + (hi - lo) * u).reshape(shape)


def make(g, observer='stream', ident=None, kind='obs', sizes=None, config=None, directory=None, smooth=False, single_energy=None, same_energy=None, aligned=False, spread=False):
    """Write a dataset and return what it holds."""
    sizes = dict(sizes or {})
    n = {
        T: sizes.get(T) or g.int(1, 5), S: sizes.get(S) or g.int(1, 5),
        P: sizes.get(P) or g.weighted([(3, 1), (2, 2), (1, 3)]),
        E: sizes.get(E) or g.int(2, 5), M: sizes.get(M) or g.int(1, 4),
    }
    arrays = {}
    arrays['time'] = increasing(g, n[T], 0.05, 0.1 + g.int(1, 6))
    arrays['shell'] = numpy.arange(float(n[S]))
    arrays['mu'] = numpy.linspace(-1.0, 1.0, n[M]) if n[M] > 1 else numpy.array([0.0])
    species = g.sample(SYMBOLS, n[P])
    arrays['mass'] = numpy.array([s[1] for s in species])
    arrays['charge'] = numpy.array([s[2] for s in species])
    one_d = n[P] == 1 and g.bool(0.3) if single_energy is None else single_energy
    same = g.bool(0.6) if same_energy is None else same_energy
    rows = [increasing(g, n[E], 0.05, 100.0, log=True)]
    for _ in range(1, n[P]):
        lo, hi = (g.choice([0.02, 0.06, 0.3]), g.choice([30.0, 90.0, 250.0])) if spread else (0.06, 90.0)
        rows.append(rows[0] if same else increasing(g, n[E], lo, hi, log=True))
    egrid = numpy.array(rows)
    gamma = 1.0 + egrid / 938.27
    vgrid = 299792.458 * numpy.sqrt(1.0 - 1.0 / gamma ** 2)
    arrays['egrid'] = egrid[0] if one_d else egrid
    arrays['vgrid'] = vgrid[0] if one_d else vgrid
    base = increasing(g, n[S], 0.1, 2.0)
    arrays['R'] = numpy.array([base * (1.0 + 0.03 * g.int(0, 9) * (t > 0)) for t in range(n[T])])
    shape = (n[T], n[S])
    arrays['T'] = noise(g, shape, 0.2, 2.9)
    arrays['P'] = noise(g, shape, 0.1, 6.0)
    for k in ('Br', 'Bt', 'Bp'):
        arrays[k] = noise(g, shape, -8.0, 9.0)
    arrays['Vr'] = noise(g, shape, 250.0, 800.0)
    for k in ('Vt', 'Vp'):
        arrays[k] = noise(g, shape, -60.0, 70.0)
    if aligned:
        # At some points the flow is along the field, forward or backward.
        for at in numpy.ndindex(shape):
            factor = g.choice([None, 30.0, -30.0, -0.7, 1.0])
            if factor is not None:
                for k in 'rtp':
                    arrays['V' + k][at] = factor * arrays['B' + k][at]
    arrays['Rho'] = noise(g, shape, 0.5, 40.0)
    if kind == 'obs':
        arrays['Dist'] = noise(g, shape + (n[P], n[E], n[M]), 1e-9, 1e-6)
    else:
        arrays['flux'] = noise(g, shape + (n[P], n[E]), 1e-3, 1e3)
    path = directory or scratch(g)
    ident = g.choice([0, 1, 7, 350]) if ident is None else ident
    if observer == 'point':
        name = f"p_obs{ident:03}.nc"
    else:
        name = f"obs{ident:06}.nc" if kind == 'obs' else f"flux{ident:06}.nc"
    write(path / name, n, arrays)
    text = config if config is not None else "lamo=0.5\nboundaryFunctAmplitude=1.0\n"
    (path / 'eprem_input_file').write_text(text)
    d = Dataset(path, arrays, [s[0] for s in species], 'eprem_input_file', name)
    d.ident = ident
    return d


def write(path, sizes, arrays):
    ds = netCDF4.Dataset(str(path), 'w', format='NETCDF4')
    try:
        for axis in AXES:
            ds.createDimension(axis, sizes[axis])
        for k, a in arrays.items():
            dims = VARIABLES[k][0]
            if a.ndim == 1 and len(dims) == 2:
                dims = dims[1:]
            v = ds.createVariable(k, 'f8', dims)
            v.units = VARIABLES[k][1]
            v[...] = a
    finally:
        ds.close()
