"""Planted bugs in the LSST side of the package."""
SEEDS = []


def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file='metadetect/' + file, edits=edits, needs=needs, breaks=breaks, demo=demo))


AF = '''
import numpy as np


class A(object):
    def __init__(self, array):
        self.array = array


class Exp(object):
    def __init__(self, shape=(20, 20), val=1.0, var=1.0):
        self.image, self.variance, self.mask = A(np.full(shape, float(val))), A(np.full(shape, float(var))), A(np.zeros(shape, dtype='i4'))


class MB(dict):
    @property
    def bands(self):
        return list(self)
'''

S('psf-stamp-is-the-original', 'C29', 'detect.py',
  [("        return self.obs.psf.image.copy()\n", "        return self.obs.psf.image\n")],
  'a caller that normalizes the psf stamp it was given',
  'the psf stamp of an object is the psf image of the observation of the caller, so that work on the stamp changes the observation',
  """
import numpy as np, ngmix
from metadetect.detect import MEDSInterface
psf = ngmix.Observation(np.full((5, 5), 2.0))
obs = ngmix.Observation(np.ones((20, 20)), psf=psf)
m = MEDSInterface(obs, np.zeros((20, 20), dtype='i4'), None)
for get in (lambda: m.get_psf(0, 0),):
    p = get()
    p /= p.sum()
assert np.all(psf.image == 2.0), psf.image
""")

S('ormask-zeroed-with-exposure', 'C33', 'lsst/util.py',
  [("        ormasks.append(exp.mask.array.copy())\n", "        ormasks.append(exp.mask.array)\n")],
  'coadds that have bits set in their masks',
  'the ormasks returned for the bands are those of the exposures, which are zeroed right afterwards',
  AF + """
import lsst.afw.image as afw
import metadetect.lsst.util as util
util.get_mbexp = lambda x: x
exps = [Exp() for i in range(3)]
exps[0].mask.array[3, 4] = 8
r = util.extract_multiband_coadd_data([dict(coadd_exp=exps[0], coadd_noise_exp=exps[1], coadd_mfrac_exp=exps[2])])
assert r['ormasks'][0][3, 4] == 8 and r['ormasks'][0].sum() == 8
assert exps[0].mask.array.sum() == 0
""")

S('color-path-without-detection-bands', 'C32', 'metadetect.py',
  [("""                    shear_bands=shear_bands,
                    det_bands=det_bands,
                    cat=cat[i:i+1],
""", """                    shear_bands=shear_bands,
                    cat=cat[i:i+1],
""")],
  'a color-dependent run that detects an object',
  'the measurement of an object at its color is called without an argument it requires',
  """
import numpy as np
from metadetect import metadetect as md


class M(md.Metadetect):
    def __init__(self):
        self._fitter_is_wavg, self._fitters = [True], [type('F', (), {'kind': 'wmom'})]
        self['meds'] = {}
        self.color_key_func = lambda f: 'k'

    def _do_detect(self, mbobs, bands):
        return np.zeros(2, dtype=[('x', 'f8'), ('y', 'f8'), ('box_size', 'i8')]), []

    def _get_mbobs_data(self, key, bands):
        return dict(mcal_res={'noshear': []}, mfrac=0, bmask=0, ormask=0, psf_stats=0)

    def _measure(self, *, mbobs_list, shear_bands, cat, shear_str, mfrac, bmask, ormask, psf_stats, det_bands):
        return cat


md.detect.CatalogMEDSifier = lambda *a: type('C', (), dict(get_multiband_meds=lambda s: s, get_mbobs_list=lambda s, **k: []))()
md.fit_mbobs_list_wavg = lambda **kw: np.zeros(2, dtype=[('wmom_band_flux', 'f8', 2)])
r = M()._go_bands_with_color([0], {'noshear': []}, [0])
assert r['noshear'].size == 2
""")

S('nan-center-regularized-away', 'C15', 'fitting.py',
  [("        raw_mom_orig = raw_mom.copy()\n", "        raw_mom_orig = raw_mom\n")],
  'a fitter that does not measure the center (nan in the first two moments) with regularization',
  'the center moments that were not measured come out as zeros in the regularized result',
  """
import numpy as np
from metadetect import fitting
mom = np.array([np.nan, np.nan, 0.1, 0.2, 3.0, 2.0])
got = []
real = fitting.make_mom_result


def make(m, c, *a, **k):
    got.append(m.copy())
    r = real(m, c, *a, **k)
    r['T_flagstr'] = ''
    return r


fitting.make_mom_result = make
r = fitting._make_mom_res(raw_mom=mom.copy(), raw_mom_cov=np.eye(6), raw_flux=2.0, raw_flux_var=1.0, fwhm_reg=1.0)
assert np.isnan(got[-1][:2]).all(), got
""")

S('fitter-kind-registered-for-every-fitter', 'C35', 'metadetect.py',
  [("            self._fitters = fitters\n            self._fwhms = fwhms\n            self._fwhm_regs = fwhm_regs\n",
    "            self._fitters = fitters\n            self._fwhms = fwhms\n            self._fwhm_regs = [fwhm_reg] * len(fitters)\n")],
  'several fitters with different regularizations',
  'all fitters are regularized as the last one is',
  """
from metadetect.metadetect import Metadetect


class M(Metadetect):
    def __init__(self, d):
        self.update(d)


m = M({'fitters': [{'model': 'wmom', 'weight': {'fwhm': 1.2}}, {'model': 'am'}, {'model': 'pgauss', 'weight': {'fwhm': 2.0}}]})
import ngmix


class F(object):
    def __init__(self, **kw):
        self.kind = 'x'


ngmix.gaussmom.GaussMom = ngmix.prepsfmom.PGaussMom = F
m['fitters'][0]['weight']['fwhm_reg'] = 0.8
m._set_fitter()
assert m._fwhm_regs == [0.8, 0, 0], m._fwhm_regs
""")
