"""Planted bugs in the LSST side of the package."""
SEEDS = []


def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file='metadetect/' + file, edits=edits, needs=needs, breaks=breaks, demo=demo))


AF = '''
import numpy as np


class A(object):
    def __init__(self, array):
        self.array = array


class Exp(object):
    def __init__(self, shape=(20, 20), val=1.0, var=1.0):
        self.image, self.variance, self.mask = A(np.full(shape, float(val))), A(np.full(shape, float(var))), A(np.zeros(shape, dtype='i4'))


class MB(dict):
    @property
    def bands(self):
        return list(self)
'''

S('defaults-shared-between-configs', 'C23', 'lsst/configs.py',
  [("    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n", "    new_config = dict(DEFAULT_MDET_CONFIG)\n"),
   ("                new_config[key].update(config[key])\n",
    "                new_config[key] = dict(new_config[key], **config[key])\n"),
   ("from copy import deepcopy\n\n", "")],
  'a caller that edits a sub-config it was given and did not override, and a configuration made after it',
  'the sub-configs that are not overridden are those of the module defaults, so editing one configuration edits all',
  """
from metadetect.lsst.configs import get_config
first = get_config({'pgauss': {'fwhm': 2.0}})
first['detect']['thresh'] = 3.0
assert get_config()['detect']['thresh'] == 5.0, get_config()['detect']
""")

S('metacal-psf-of-first-band', 'C05', 'lsst/metacal_exposures.py',
  [("            psf_band_stats = psf_stats[iband]\n", "            psf_band_stats = psf_stats[0]\n")],
  'several bands with different psfs, reconvolved with a fitted gaussian',
  'every band is reconvolved with the psf fitted for the first band',
  AF + """
import metadetect.lsst.metacal_exposures as mc
got = []


def exps(exp, psf_stats=None, types=None, rot=False):
    got.append(psf_stats)
    return {t: exp for t in types}


mc.get_metacal_exps = exps
mc.get_mbexp = lambda l: l
mc.get_metacal_mbexps(MB(g=Exp(), r=Exp()), types=['noshear'], psf_stats=['a', 'b'])
assert got == ['a', 'b'], got
""")

S('edge-mask-of-first-noise-band', 'C07', 'lsst/masking.py',
  [("""    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
""", """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band0])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
""")],
  'noise exposures in more than one band',
  'the noise of the first band is apodized once for each band, the noise of the others never',
  AF + """
import lsst.afw.image as afw


class Mask(object):
    addMaskPlane = staticmethod(lambda n: None)
    getPlaneBitMask = staticmethod(lambda n: 4)


afw.Mask = Mask
from metadetect.lsst.masking import apply_apodized_edge_masks_mbexp
a, b = MB(g=Exp(), r=Exp()), MB(g=Exp(), r=Exp())
apply_apodized_edge_masks_mbexp(a, noise_mbexp=b)
for x in 'gr':
    assert np.all(a[x].image.array == b[x].image.array) and b[x].mask.array[0, 0] == 4, x
""")

S('not-attempted-for-first-band-only', 'C13', 'fitting.py',
  [("""    data[n("band_flux_flags")] = procflags.NO_ATTEMPT

    for name in data.dtype.names:""", """    data[n("band_flux_flags")][..., 0] = procflags.NO_ATTEMPT

    for name in data.dtype.names:""")],
  'an object with several bands that is not fitted',
  'the flux flags of all bands but the first say that the flux was measured',
  """
import numpy as np
from metadetect import fitting, procflags
for nband in 1, 3:
    r = fitting.get_wavg_output_struct(nband, 'wmom', shear_bands=list(range(nband)))
    assert np.all(r['wmom_band_flux_flags'] == procflags.NO_ATTEMPT), r['wmom_band_flux_flags']
""")

S('detection-overrides-replaced-by-threshold', 'C24', 'lsst/skysub.py',
  [("        if 'detect' not in config_override['iterate_detection_and_skysub']:\n", "        if 'detect' not in config_override:\n")],
  'a user who overrides detection settings of the sky subtraction besides the threshold',
  'the detection settings of the user are replaced by one that has nothing but the threshold',
  """
import metadetect.lsst.skysub as sk
seen = []


class Conf(object):
    def setDefaults(self): pass
    freeze = validate = setDefaults


class Task(object):
    def __init__(self, config): pass
    def run(self, mbexp): pass


sk.SubtractSkyMbExpConfig, sk.SubtractSkyMbExpTask = Conf, Task
sk.util.override_config = lambda c, o: seen.append(o)
sk.subtract_sky_mbexp(None, thresh=4.0, config={'iterate_detection_and_skysub': {'detect': {'nSigmaToGrow': 3.0}}})
assert seen == [{'iterate_detection_and_skysub': {'detect': {'nSigmaToGrow': 3.0, 'thresholdValue': 4.0}}}], seen
""")

S('source-stays-when-its-stamp-fails', 'C25', 'lsst/model_subtractor.py',
  [("""        try:
            yield self.mbexp
        finally:
            self._add_or_subtract_source(source_id, 'subtract')
""", """        yield self.mbexp
        self._add_or_subtract_source(source_id, 'subtract')
""")],
  'an error while the source is added back, such as a stamp that hits the edge',
  'the model of the source stays in the image that all later sources are measured on',
  """
import metadetect.lsst.model_subtractor as ms
m = ms.ModelSubtractor.__new__(ms.ModelSubtractor)
m.heavies, m.mbexp = {1: None}, 'mbexp'
done = []
m._add_or_subtract_source = lambda i, t: done.append(t)
try:
    with m.add_source(1) as x:
        assert x == 'mbexp' and done == ['add']
        raise KeyError(1)
except KeyError:
    pass
assert done == ['add', 'subtract'], done
""")

S('edge-flag-sticks-to-later-sources', 'C26', 'lsst/measure.py',
  [("""    for source in extractor.children():

        # perform basic""", """    stamp_flags = 0
    for source in extractor.children():

        # perform basic"""),
   ("""        stamp_flags = 0
        try:
            # mbobs =""", """        try:
            # mbobs =""")],
  'a source whose stamp hits the edge, followed by sources that do not',
  'every source after the first bad stamp is reported as bad and never fitted',
  AF + """
import contextlib
import metadetect.lsst.measure as me


class Src(object):
    def __init__(self, i): self.i = i
    def getId(self): return self.i


class Ext(object):
    def children(self): return [Src(0), Src(1), Src(2)]

    @contextlib.contextmanager
    def add_source(self, i): yield None

    def get_mbobs(self, source_id, stamp_size):
        if source_id == 1:
            raise me.LengthError('edge')
        return source_id


class MBE(object):
    bands = ['r']
    singles = [type('E', (), {'getWcs': lambda self: None})()]
    def getBBox(self): return None


D = [('flags', 'i4'), ('stamp_flags', 'i4')]
me._get_extractor = lambda **k: Ext()
me.util.extract_shear_band_indices = lambda **k: [0]
me.get_bmask = lambda **k: 0
me.get_wavg_output_struct = lambda **k: np.ones(1, dtype=D)
me.fit_mbobs_gauss = me.fit_mbobs_wavg = lambda **k: np.zeros(1, dtype=D)
me._get_combined_struct = lambda a, b: a
me.get_output = lambda **k: k['res']
task = type('T', (), {'callMeasure': lambda *a: None})()
r = me.measure(MBE(), None, [1, 2, 3], None, task, {'pgauss': {'fwhm': 2}, 'stamp_size': 9}, None)
assert list(r['flags']) == [0, 1, 0] and list(r['stamp_flags'] != 0) == [False, True, False], r
""")

S('missing-shear-band-accepted', 'C27', 'lsst/util.py',
  [("    if not all([sb in mbexp.bands for sb in shear_band_names]):\n", "    if not any([sb in mbexp.bands for sb in shear_band_names]):\n")],
  'a request for shear bands of which some, but not all, are present',
  'the missing bands are dropped without a word and the shear comes from fewer bands than asked for',
  AF + """
from metadetect.lsst.util import extract_shear_band_indices
m = MB(g=1, r=2)
assert extract_shear_band_indices(mbexp=m, config={'shear_bands': ['r']}) == [1]
try:
    x = extract_shear_band_indices(mbexp=m, config={'shear_bands': ['r', 'i']})
except RuntimeError:
    pass
else:
    raise AssertionError(x)
""")

S('sky-of-last-iteration', 'C30', 'lsst/skysub.py',
  [("""            sky_meas = 0.0
            for i in range(self.config.niter):
""", """            for i in range(self.config.niter):
                sky_meas = 0.0
""")],
  'more than one iteration of sky subtraction',
  'the recorded sky level is that of the last iteration, not the sum of what was subtracted',
  """
import metadetect.lsst.skysub as sk
t = sk.IterateDetectionSkySubTask.__new__(sk.IterateDetectionSkySubTask)
meta = {}
levels = [5.0, 0.25]


class Back(object):
    def run(self, e): meta['BGMEAN'] = levels.pop(0)


class Det(object):
    def run(self, t, e): return 'found'


class Exp(object):
    def getMetadata(self): return meta


t.config, t.back, t.detect = type('C', (), {'niter': 2})(), Back(), Det()
assert t.run(Exp()) == 'found' and meta['BGMEAN'] == 5.25, meta
""")

S('psf-and-image-share-jacobian', 'C33', 'lsst/util.py',
  [("""    psf_jac = jac.copy()
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err =""", """    psf_jac = jac
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err =""")],
  'an exposure whose center differs from that of its psf image',
  'the center of the observation is moved to the center of the psf image',
  AF + """
import ngmix
import metadetect.lsst.util as ut
ut.get_integer_center = lambda **k: ((10.0, 10.0), None)
ut.get_jacobian = lambda **k: ngmix.Jacobian(row=10.0, col=10.0, scale=0.2)
e = Exp()
e.getWcs = e.getBBox = lambda: None
e.getPsf = lambda: type('P', (), {'computeKernelImage': lambda s, c: A(np.ones((5, 5)))})()
o = ut.exp2obs(e)
assert o.jacobian.get_cen() == (10.0, 10.0) and o.psf.jacobian.get_cen() == (2.0, 2.0), o.jacobian.get_cen()
""")
