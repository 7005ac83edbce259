"""Stand-ins for the packages that are not installed (ngmix, sxdes, lsst.*, ...).

Modules of those packages come into being on import; their attributes are permissive
classes, except for the few that are written out below."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np

ROOTS = [r for r in ('ngmix', 'sxdes', 'lsst', 'descwl_coadd', 'descwl_shear_sims', 'scarlet')
         if importlib.util.find_spec(r) is None]
ROOTS.append('meds')


class Meta(type):
    def __getattr__(cls, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _make(name)

    def __iter__(cls):
        return iter(())

    def __getitem__(cls, k):
        return cls


class Stub(metaclass=Meta):
    def __init__(self, *args, **kwargs):
        self.__dict__.update(kwargs)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _make(name)

    def __call__(self, *args, **kwargs):
        return Stub()


def _make(name):
    if name.endswith(('Error', 'Failure', 'Exception')):
        return type(name, (Exception,), {})
    if name.isupper():
        return 1
    return Meta(name, (Stub,), {})


class Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = _make(name)
        setattr(self, name, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split('.')[0] in ROOTS:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)

    def create_module(self, spec):
        m = Mod(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        f = FILL.get(m.__name__)
        if f:
            f(m)


# ------------------------------------------------------------------ ngmix
class Jacobian(object):
    def __init__(self, row=0.0, col=0.0, x=None, y=None, scale=None, dvdrow=1.0, dvdcol=0.0, dudrow=0.0, dudcol=1.0,
                 dudx=None, dudy=None, dvdx=None, dvdy=None, **kw):
        self.row0, self.col0 = (row if y is None else y), (col if x is None else x)
        if scale is not None:
            dvdrow, dvdcol, dudrow, dudcol = scale, 0.0, 0.0, scale
        if dudx is not None:
            dvdrow, dvdcol, dudrow, dudcol = dvdy, dvdx, dudy, dudx
        self.dvdrow, self.dvdcol, self.dudrow, self.dudcol = dvdrow, dvdcol, dudrow, dudcol

    def copy(self):
        j = Jacobian()
        j.__dict__.update(self.__dict__)
        return j

    def set_cen(self, row=None, col=None):
        self.row0, self.col0 = row, col

    def get_cen(self):
        return self.row0, self.col0

    cen = property(get_cen)

    def get_det(self):
        return self.dvdrow * self.dudcol - self.dvdcol * self.dudrow

    det = property(get_det)

    def get_scale(self):
        return np.sqrt(abs(self.get_det()))

    scale = property(get_scale)

    def get_vu(self, row, col):
        r, c = row - self.row0, col - self.col0
        return self.dvdrow * r + self.dvdcol * c, self.dudrow * r + self.dudcol * c

    def get_rowcol(self, v, u):
        d = self.get_det()
        r = (self.dudcol * v - self.dvdcol * u) / d
        c = (-self.dudrow * v + self.dvdrow * u) / d
        return r + self.row0, c + self.col0

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(dudx=self.dudcol, dudy=self.dudrow, dvdx=self.dvdcol, dvdy=self.dvdrow)


class Observation(object):
    def __init__(self, image, weight=None, bmask=None, ormask=None, noise=None, jacobian=None, psf=None, meta=None,
                 mfrac=None, store_pixels=True, **kw):
        self.image = image
        self.weight = np.ones_like(image) if weight is None else weight
        self.bmask = np.zeros(image.shape, dtype='i4') if bmask is None else bmask
        self.ormask = np.zeros(image.shape, dtype='i4') if ormask is None else ormask
        self.noise = noise
        if mfrac is not None:
            self.mfrac = mfrac
        self.jacobian = Jacobian(row=(image.shape[0] - 1) / 2, col=(image.shape[1] - 1) / 2) if jacobian is None else jacobian
        self.psf = psf
        self.meta = {} if meta is None else meta

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def has_noise(self):
        return self.noise is not None

    def has_bmask(self):
        return True

    def has_ormask(self):
        return True

    def has_mfrac(self):
        return hasattr(self, 'mfrac')

    def has_psf(self):
        return self.psf is not None

    def writeable(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def set_image(self, image):
        self.image = image

    def set_weight(self, weight):
        self.weight = weight

    def set_psf(self, psf):
        self.psf = psf

    def set_noise(self, noise):
        self.noise = noise

    def set_bmask(self, bmask):
        self.bmask = bmask

    def set_mfrac(self, mfrac):
        self.mfrac = mfrac

    def set_jacobian(self, jacobian):
        self.jacobian = jacobian

    def get_jacobian(self):
        return self.jacobian.copy()

    def update_meta_data(self, d):
        self.meta.update(d)


class ObsList(list):
    def __init__(self, meta=None):
        super().__init__()
        self.meta = {} if meta is None else meta

    def update_meta_data(self, d):
        self.meta.update(d)


class MultiBandObsList(ObsList):
    pass


def get_mb_obs(obs):
    if isinstance(obs, MultiBandObsList):
        return obs
    if isinstance(obs, Observation):
        ol = ObsList()
        ol.append(obs)
        obs = ol
    m = MultiBandObsList()
    m.append(obs)
    return m


def fill_flags(m):
    m.NO_ATTEMPT = 2**0
    m.BAD_VAR = 2**4
    m.NONPOS_FLUX = 2**9
    m.NONPOS_SIZE = 2**10
    m.NONPOS_VAR = 2**12
    m.DIV_ZERO = 2**13
    m.NO_PSF = 2**14
    m.NAME_MAP = {2**i: 'ngmix flag %d' % i for i in range(19)}

    def get_flags_str(val, name_map=None):
        nm = m.NAME_MAP if name_map is None else name_map
        import numpy as _np
        val = int(_np.asarray(val).ravel()[0])
        return '|'.join(nm[2**i] for i in range(31) if val & 2**i and 2**i in nm)
    m.get_flags_str = get_flags_str


def fill_ngmix(m):
    m.__version__ = '2.3.2'
    m.Observation, m.ObsList, m.MultiBandObsList = Observation, ObsList, MultiBandObsList
    m.Jacobian = m.DiagonalJacobian = Jacobian
    for n in ('flags', 'gexceptions', 'observation', 'metacal', 'moments', 'prepsfmom', 'gaussmom', 'admom', 'shape'):
        __import__('ngmix.' + n)


def fill_obs(m):
    m.Observation, m.ObsList, m.MultiBandObsList = Observation, ObsList, MultiBandObsList
    m.get_mb_obs = get_mb_obs


def fill_exc(m):
    class NGmixBaseException(Exception):
        pass
    for n in ('BootPSFFailure', 'BootGalFailure', 'PSFFluxFailure', 'GMixRangeError', 'GMixFatalError', 'FFTRangeError'):
        setattr(m, n, type(n, (NGmixBaseException,), {}))


def fill_metacal(m):
    m.METACAL_MINIMAL_TYPES = ['noshear', '1p', '1m', '2p', '2m']


def fill_moments(m):
    m.fwhm_to_T = lambda fwhm: 2 * (fwhm / 2.3548200450309493)**2

    def make_mom_result(mom, mom_cov, sums_norm=None):
        res = {'flags': 0, 'flagstr': '', 'flux': mom[5], 'mom': mom, 'mom_cov': mom_cov, 'flux_flags': 0, 'T_flags': 0,
               'flux_err': np.nan, 'T': np.nan, 'T_err': np.nan, 's2n': np.nan, 'e1': np.nan, 'e2': np.nan,
               'e': np.full(2, np.nan), 'e_err': np.full(2, np.nan), 'e_cov': np.full((2, 2), np.nan), 'pars': np.full(6, np.nan)}
        if mom_cov[5, 5] > 0:
            res['flux_err'] = np.sqrt(mom_cov[5, 5])
            res['s2n'] = mom[5] / res['flux_err']
        else:
            res['flux_flags'] |= 2**12
            res['flags'] |= 2**12
        if mom[5] > 0:
            res['T'] = mom[4] / mom[5]
            res['T_err'] = abs(res['T']) * 0.1
            if res['T'] > 0:
                res['e1'], res['e2'] = mom[2] / mom[4], mom[3] / mom[4]
                res['e'] = np.array([res['e1'], res['e2']])
                res['e_err'] = np.array([0.1, 0.1])
                res['e_cov'] = np.diag([0.01, 0.01])
        else:
            res['T_flags'] |= 2**9
            res['flags'] |= 2**9
        return res
    m.make_mom_result = make_mom_result


def fill_medsutil(m):
    m.get_image_info_struct = lambda n, w: np.zeros(n, dtype=[('image_path', 'U%d' % w), ('magzp', 'f4'), ('scale', 'f4')])


FILL = {'meds.util': fill_medsutil, 'ngmix': fill_ngmix, 'ngmix.flags': fill_flags, 'ngmix.observation': fill_obs, 'ngmix.gexceptions': fill_exc,
        'ngmix.metacal': fill_metacal, 'ngmix.moments': fill_moments}

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.meta_path.insert(0, Finder())
