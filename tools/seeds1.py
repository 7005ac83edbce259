SEEDS = []


def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file='metadetect/' + file, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = '''
import numpy as np
import ngmix
import metadetect
from metadetect import procflags


def mkobs(shape=(16, 16), val=1.0, wgt=1.0, psf=None, **kw):
    im = np.full(shape, float(val))
    p = ngmix.Observation(np.ones((5, 5)))
    p.meta['result'] = {'flags': 0, 'T': 0.5, 'g': np.array([0.1, 0.2]), 'e': np.array([0.2, 0.4])} if psf is None else psf
    return ngmix.Observation(im, weight=np.full(shape, float(wgt)), psf=p, **kw)


def mkmb(*obs):
    m = ngmix.MultiBandObsList()
    for o in obs:
        ol = ngmix.ObsList()
        if o is not None:
            ol.append(o)
        m.append(ol)
    return m
'''

S('cutouts-follow-detection-order', 'C02', 'metadetect.py',
  [("""        all_medsifier = detect.CatalogMEDSifier(
            mbobs,
            medsifier.cat['x'],""", """        # no need for a second list when all the bands were used for detection
        all_medsifier = detect.CatalogMEDSifier(
            det_mbobs if len(det_mbobs) == len(mbobs) else mbobs,
            medsifier.cat['x'],""")],
  'detection bands that are a permutation of all the bands, so that the detection list is in another order',
  'objects are cut out of the bands in detection order rather than band order, so shears are averaged over the wrong bands',
  COMMON + '''
from metadetect import detect
seen = []


class FakeSifter(object):
    def __init__(self, *, mbobs, **kw):
        self.cat = {'x': 0, 'y': 0, 'box_size': 0, 'number': 0}
        self.seg = None


class FakeCat(object):
    def __init__(self, mbobs, *a, **kw):
        seen.append([ol[0].image[0, 0] for ol in mbobs])

    def get_multiband_meds(self):
        return self

    def get_mbobs_list(self, **kw):
        return []


detect.MEDSifier = FakeSifter
detect.CatalogMEDSifier = FakeCat
md = metadetect.Metadetect.__new__(metadetect.Metadetect)
md.update({'meds': {}, 'nodet_flags': 0})
md._show = False
md._do_detect(mkmb(mkobs(val=10), mkobs(val=20)), [1, 0])
assert seen == [[10, 20]], seen
''')

S('band-cache-key-collides', 'C36', 'metadetect.py',
  [("        sbkey = tuple(sorted(shear_bands))\n",
    "        sbkey = (len(shear_bands), min(shear_bands), max(shear_bands))\n")],
  'two band combinations of the same length with the same first and last band, such as [0, 1, 3] and [0, 2, 3]',
  'the second combination is given the cached psf, mask and masked-fraction data of the first',
  COMMON + '''
from metadetect import fitting
fitting.fit_all_psfs = lambda mbobs, rng: None
md = metadetect.Metadetect.__new__(metadetect.Metadetect)
md.rng = None
md.mbobs = mkmb(*[mkobs(bmask=np.full((16, 16), 2**i, dtype='i4')) for i in range(4)])
md._get_all_metacal = lambda mbobs: {}
a = md._get_mbobs_data(None, [0, 1, 3])
b = md._get_mbobs_data(None, [0, 2, 3])
assert a['bmask'][0, 0] == 11, a['bmask'][0, 0]
assert b['bmask'][0, 0] == 13, b['bmask'][0, 0]
''')

S('bmask-of-first-band-reused', 'C29', 'metadetect.py',
  [("                bmask = obs.bmask.copy()\n", "                bmask = obs.bmask\n")],
  'more than one band, and use of the observation of the first band after the masks were combined',
  'the combined mask of all bands is written into the bit mask of the first input observation',
  COMMON + '''
md = metadetect.Metadetect.__new__(metadetect.Metadetect)
mb = mkmb(mkobs(bmask=np.full((4, 4), 1, dtype='i4'), shape=(4, 4)), mkobs(bmask=np.full((4, 4), 2, dtype='i4'), shape=(4, 4)))
o, b = md._get_ormask_and_bmask(mb)
assert np.all(b == 3)
assert np.all(mb[0][0].bmask == 1), mb[0][0].bmask
''')

S('mask-region-clipped-on-rows', 'C34', 'metadetect.py',
  [("""            uc = int(min(
                dims[1]-1,
                max(0, cclip[ind] + mask_region)))""", """            uc = int(min(
                dims[0]-1,
                max(0, cclip[ind] + mask_region)))""")],
  'an image with fewer rows than columns, a mask region larger than one pixel and an object beyond column nrows',
  'the column range of the mask region is clipped with the number of rows, so bits are lost on images that are not square',
  COMMON + '''
from metadetect.metadetect import _fill_in_mask_col
mask = np.zeros((10, 30), dtype='i4')
mask[5, 22] = 8
r = _fill_in_mask_col(mask_region=2, rows=np.array([5.0]), cols=np.array([21.0]), mask=mask)
assert r[0] == 8, r
''')

S('mask-column-of-sheared-position', 'C19', 'metadetect.py',
  [("""            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row_noshear'],""", """            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row'],""")],
  'an object close to a mask boundary whose row moves by more than half a pixel under the shear',
  'the unsheared bit-mask column looks up the sheared row with the unsheared column',
  COMMON + '''
from metadetect import metadetect as mm
mm.eu.numpy_util.add_fields = lambda res, dt: _add(res, dt)


def _add(res, dt):
    out = np.zeros(res.shape, dtype=res.dtype.descr + list(dt))
    for n in res.dtype.names:
        out[n] = res[n]
    return out


md = metadetect.Metadetect.__new__(metadetect.Metadetect)
md.update({'metacal': {}, 'mask_region': 1})
md._fwhms = [1.2]
md.mbobs = mkmb(mkobs(shape=(200, 200)))
mm.shearpos.unshear_positions_obs = lambda r, c, s, o, step=0.01: (r - 2, c - 2)
bm = np.zeros((200, 200), dtype='i4')
bm[148, 100] = 4
cat = np.zeros(1, dtype=[('x', 'f8'), ('y', 'f8'), ('box_size', 'i4')])
cat['x'], cat['y'], cat['box_size'] = 102, 150, 32
res = np.zeros(1, dtype=[('wmom_T', 'f8')])
out = md._add_positions_and_psf(cat=cat, res=res, shear_str='1p', mfrac=np.zeros((200, 200)), bmask=bm, ormask=bm,
                                psf_stats=dict(flags=0, g1=0, g2=0, T=1), det_bands=[0])
assert out['ormask_noshear'][0] == 4
assert out['bmask_noshear'][0] == 4, out['bmask_noshear']
''')

S('median-weight-for-mean-psf', 'C17', 'metadetect.py',
  [("                    Tsum += T*wt\n                    wsum += wt\n",
    "                    Tsum += T*wt\n                    wsum += max(wt, 1.0e-3)\n")],
  'a shear band whose largest weight is below one part in a thousand',
  'the normalization of the mean original psf disagrees with the weights used in its sums for low-weight bands',
  COMMON + '''
from metadetect.metadetect import _get_psf_stats
r = _get_psf_stats(mkmb(mkobs(wgt=1.0e-5)), 0)
assert abs(r['T'] - 0.5) < 1e-9, r
''')

S('flag-overwritten-by-second-problem', 'C11', 'fitting.py',
  [("""            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT

    if any(s >= len(mbobs) for s in shear_bands):""", """            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags = flags + procflags.EDGE_HIT

    if any(s >= len(mbobs) for s in shear_bands):""")],
  'two bands that both have a bad pixel, so that the same bit is added twice',
  'adding instead of or-ing a flag turns two edge hits into the flag of a psf failure',
  COMMON + '''
from metadetect.fitting import fit_mbobs_gauss
bm = np.ones((16, 16), dtype='i4')
r = fit_mbobs_gauss(mbobs=mkmb(mkobs(bmask=bm), mkobs(bmask=bm)), bmask_flags=1, rng=np.random.RandomState(1))
assert r['gauss_flags'][0] & procflags.EDGE_HIT, r['gauss_flags']
assert not (r['gauss_flags'][0] & procflags.PSF_FAILURE), r['gauss_flags']
''')

S('flux-flags-only-for-shear-bands', 'C15', 'fitting.py',
  [("""            else:
                _flux_flags |= gres["flux_flags"]
                band_flux.append(gres['flux'])
                band_flux_err.append(gres['flux_err'])
            flux_flags.append(_flux_flags)
""", """            else:
                _flux_flags |= gres["flux_flags"]
                band_flux.append(gres['flux'])
                band_flux_err.append(gres['flux_err'])
            if gres is not None:
                flux_flags.append(_flux_flags)
            else:
                flux_flags.insert(0, _flux_flags)
""")],
  'a band without data that is not the first one',
  'the flux flags of the bands are no longer in band order: the flag of a missing band is filed under the first band',
  COMMON + '''
from metadetect.fitting import fit_mbobs_wavg


class F(object):
    kind = 'wmom'

    def go(self, obs, **kw):
        m = np.array([0, 0, 0.1, 0.1, 2.0, 5.0])
        return dict(flags=0, flagstr='', sums=m, sums_cov=np.eye(6), flux=5.0, flux_err=1.0, flux_flags=0)


r = fit_mbobs_wavg(mbobs=mkmb(mkobs(), None), fitter=F(), bmask_flags=0, shear_bands=[0], symmetrize=False)
assert r['wmom_band_flux_flags'][0, 0] == 0, r['wmom_band_flux_flags']
assert r['wmom_band_flux_flags'][0, 1] == procflags.MISSING_BAND
''')

S('psf-weight-squared-missing-norm', 'C15', 'fitting.py',
  [("""                raw_mom_cov += (
                    (wgt * flux_mom_ratio / mom_norm)**2
                    * rcovs
                )""", """                raw_mom_cov += (
                    wgt**2 * (flux_mom_ratio / mom_norm)
                    * rcovs
                )""")],
  'a fitter that reports a moments normalization different from one, or psf moments weighted with a flux ratio',
  'the covariance of the summed moments is scaled by the first instead of the second power of the normalization',
  COMMON + '''
from metadetect.fitting import _sum_bands_wavg
r = dict(flags=0, sums=np.arange(1.0, 7.0), sums_cov=np.eye(6), sums_norm=4.0)
o = _sum_bands_wavg(all_res=[r], all_is_shear_band=[True], all_wgts=[2.0], all_flags=[0], all_wgt_res=None)
assert abs(o['raw_mom_cov'][0, 0] - 0.25) < 1e-12, o['raw_mom_cov'][0, 0]
''')

S('unsheared-center-of-truncated-image', 'C03', 'shearpos.py',
  [("""    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2
""", """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) // 2
    col_cen = (dims[1] - 1) // 2
""")],
  'an image with an even number of rows or columns',
  'positions are unsheared about another center than they were sheared about',
  COMMON + '''
from metadetect import shearpos
jac = ngmix.DiagonalJacobian(row=49.5, col=49.5, scale=1.0)
r0, c0 = np.array([10.0, 80.0]), np.array([20.0, 90.0])
r, c = shearpos.shear_positions(r0, c0, '1p', jac, (100, 100), step=0.2)
r, c = shearpos.unshear_positions(r, c, '1p', jac, (100, 100), step=0.2)
assert np.allclose(r, r0) and np.allclose(c, c0), (r, c)
''')

S('disk-test-against-own-frame', 'C08', 'masking.py',
  [("    high_row = nrows + radius_pixels - 1\n", "    high_row = nrows - 1\n")],
  'a mask whose center is below the last row of the image while its disk still reaches into it',
  'foreground objects centered just off the far edge are not masked at all',
  '''
import numpy as np
from metadetect.masking import make_foreground_bmask
b = make_foreground_bmask(xm=np.array([10.0]), ym=np.array([20.5]), rm=np.array([4.0]), dims=(20, 20), symmetrize=False, mask_bit_val=2)
assert b[19, 10] == 2, b[19]
''')

S('edge-kernel-applied-once-in-corners', 'C08', 'masking.py',
  [("            ap_mask[y, nx - 1 - x] *= _ap_kern_kern(x, ap_range, ap_rad)\n",
    "            ap_mask[y, ny - 1 - x] *= _ap_kern_kern(x, ap_range, ap_rad)\n")],
  'an edge-apodized image with different numbers of rows and columns',
  'the mask of the right edge is placed with the number of rows, inside the image or on the wrong column',
  '''
import numpy as np
from metadetect.masking import _build_square_apodization_mask
m = np.ones((30, 60))
_build_square_apodization_mask(1.0, m)
assert np.all(m[:, -1] == m[:, 0]), m[15, -5:]
''')

S('interpolation-window-not-reset', 'C09', 'interpolate.py',
  [("                if buff != iso_buff:\n", "                if buff > iso_buff and no_good == 0:\n")],
  'a bad pixel without a good pixel within the isolation buffer, but with some within the larger buffer',
  'good pixels within the buffer of an isolated bad pixel are not used for the interpolation',
  '''
import numpy as np
from metadetect.interpolate import _get_nearby_good_pixels
m = np.zeros((40, 40), dtype=bool)
m[10:31, 10:31] = True
bi, iso, gi = _get_nearby_good_pixels(m, m.sum(), 4, 1)
n1 = len(np.unique(gi))
seen = np.zeros((40, 40), dtype=bool)
seen.ravel()[gi] = True
m2 = np.zeros((40, 40), dtype=bool)
m2[10:31, 10:31] = True
m2[12, 12] = True
# pixel (8, 8) is within 4 of (12, 12) only through isolated pixels
want = np.zeros((40, 40), dtype=bool)
for r, c in zip(*np.where(m)):
    want[max(r-4, 0):r+5, max(c-4, 0):c+5] = True
want &= ~m
counts = np.bincount(gi, minlength=1600).reshape(40, 40)
ref = np.zeros((40, 40), dtype=int)
for r, c in zip(*np.where(m)):
    ref[max(r-4, 0):r+5, max(c-4, 0):c+5] += 1
ref[m] = 0
assert np.array_equal(counts, ref), np.abs(counts - ref).max()
''')

S('interp-mask-shared-with-caller', 'C09', 'interpolate.py',
  [("                bad_msk = bad_msk.copy()\n", "                bad_msk = np.asarray(bad_msk)\n")],
  'noise filling of isolated bad pixels, followed by another use of the same mask',
  'the mask of the caller loses its isolated bad pixels, so the next plane is interpolated over garbage',
  '''
import numpy as np
from metadetect.interpolate import interpolate_image_at_mask
rng = np.random.RandomState(3)
m = np.zeros((30, 30), dtype=bool)
m[10:20, 10:20] = True
m0 = m.copy()
interpolate_image_at_mask(image=rng.normal(size=(30, 30)), bad_msk=m, fill_isolated_with_noise=True, weight=1.0, rng=rng)
assert np.array_equal(m, m0)
''')

S('interp-shared-weight-of-first-band', 'C06', 'masking.py',
  [("""                    if np.all(bad_logic):
                        obs.ignore_zero_weight = False
                    obs.weight[wbad] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False

                    if not np.all(bad_logic):""", """                    if np.all(bad_logic):
                        obs.ignore_zero_weight = False
                    obs.weight[bad_logic & (obs.image != 0)] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False

                    if not np.all(bad_logic):""")],
  'a masked pixel whose image value is exactly zero, as in images already zeroed upstream',
  'pixels under a mask keep their weight when the image is zero there',
  COMMON + '''
from metadetect.masking import apply_foreground_masking_corrections
o = mkobs(shape=(40, 40), val=0.0)
o.noise = np.random.RandomState(1).normal(size=(40, 40))
o.image[:20] = 1.0
apply_foreground_masking_corrections(
    mbobs=mkmb(o), xm=np.array([20.0]), ym=np.array([20.0]), rm=np.array([5.0]), method='interp', mask_expand_rad=0,
    mask_bit_val=1, expand_mask_bit_val=2, interp_bit_val=4, symmetrize=False, ap_rad=1.0, iso_buff=1, rng=np.random.RandomState(2))
assert np.all(o.weight[(o.bmask & 1) != 0] == 0), o.weight[18:23, 18:23]
''')

S('mfrac-mean-over-used-bands-only', 'C18', 'metadetect.py',
  [("""            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
            wgts.append(wgt)
""", """            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
                wgts.append(wgt)
""")],
  'bands of which only some carry a masked-fraction image',
  'bands without a masked-fraction image no longer enter the normalization, so the mean is too high',
  COMMON + '''
md = metadetect.Metadetect.__new__(metadetect.Metadetect)
a, b = mkobs(mfrac=np.full((16, 16), 0.5)), mkobs()
m = md._get_mfrac(mkmb(a, b))
assert abs(m[0, 0] - 0.25) < 1e-12, m[0, 0]
''')

S('empty-result-from-last-fitter', 'C35', 'fitting.py',
  [("        if any(_res is not None for _res in all_res):\n            return np.zeros(0, dtype=dt)",
    "        if all_res[-1] is not None:\n            return np.zeros(0, dtype=dt)")],
  'several fitters without objects where an earlier one returns an empty table and the last one returns None',
  'the known columns are dropped and None is returned for an empty result',
  '''
import numpy as np
from metadetect.fitting import combine_fit_res
r = combine_fit_res([np.zeros(0, dtype=[('a', 'f8')]), None])
assert r is not None and r.dtype.names == ('a',), r
''')

S('concatenation-in-type-order', 'C01', 'metadetect.py',
  [("                    all_res[k].append(v)\n", "                    all_res[k].insert(0 if k == '2m' else len(all_res[k]), v)\n")],
  'more than one band combination with detections in the last metacal type',
  'the catalogs of one metacal type are concatenated in the opposite order of the band combinations',
  COMMON + '''
from metadetect import metadetect as mm
md = metadetect.Metadetect.__new__(metadetect.Metadetect)
md.update({'metacal': {}, 'nodet_flags': 0, 'meds': {}})
md.mbobs = mkmb(mkobs())
md.nband = 1
md._shear_band_combs = [[0], [1]]
md._det_band_combs = [[0], [1]]
md.color_key_func = md.color_dep_mbobs = None
md._get_mfrac = lambda m: np.zeros((16, 16))
md._get_mbobs_data = lambda k, s: {'mcal_res': {}}
md._go_bands = lambda s, m, d: {t: np.array(s) for t in ('noshear', '1p', '1m', '2p', '2m')}
md.go()
for k, v in md.result.items():
    assert list(v) == [0, 1], (k, v)
''')
