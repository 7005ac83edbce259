SEEDS = []


def S(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file='metadetect/' + file, edits=edits, needs=needs, breaks=breaks, demo=demo))


COMMON = '''
import numpy as np
import ngmix
import metadetect
from metadetect import procflags


def mkobs(shape=(16, 16), val=1.0, wgt=1.0, psf=None, **kw):
    im = np.full(shape, float(val))
    p = ngmix.Observation(np.ones((5, 5)))
    p.meta['result'] = {'flags': 0, 'T': 0.5, 'g': np.array([0.1, 0.2]), 'e': np.array([0.2, 0.4])} if psf is None else psf
    return ngmix.Observation(im, weight=np.full(shape, float(wgt)), psf=p, **kw)


def mkmb(*obs):
    m = ngmix.MultiBandObsList()
    for o in obs:
        ol = ngmix.ObsList()
        if o is not None:
            ol.append(o)
        m.append(ol)
    return m
'''

S('box-edges-of-small-images', 'C20', 'detect.py',
  [("            obox[1] = im_max\n            box[1] = box[1] + diff\n", "            obox[1] = im_max\n            box[1] = im_max - obox[0]\n")],
  'a cutout that is larger than the image, so that it leaves the image at both ends of an axis',
  'the output range is counted from the clipped start, so it does not fit to the pixels that were read',
  COMMON + """
from metadetect.detect import MEDSInterface
m = MEDSInterface.__new__(MEDSInterface)
for dim, start, size in [(10, 2, 4), (10, -2, 6), (10, 7, 6), (10, -3, 16)]:
    o, b = m._get_clipped_boxes(dim, start, size)
    assert o[1] - o[0] == b[1] - b[0], (dim, start, size, o, b)
    assert b[0] + start == o[0], (o, b)
""")

S('smallest-box-size-left-out', 'C21', 'detect.py',
  [("                     if sze >= mconf['min_box_size']\n                     and sze <= mconf['max_box_size']])",
    "                     if mconf['min_box_size'] < sze <= mconf['max_box_size']])")],
  'objects that need no more than the smallest box',
  'the smallest allowed box size is never given out, small objects get the next larger one',
  COMMON + """
from metadetect.detect import MEDSifier
m = MEDSifier.__new__(MEDSifier)
m.meds_config = {'box_type': 'iso_radius', 'rad_min': 1, 'rad_fac': 2, 'box_padding': 2, 'min_box_size': 32, 'max_box_size': 64}
cat = np.zeros(2, dtype=[('iso_radius', 'f8')])
cat['iso_radius'] = 2, 20
bs = m._get_box_sizes(cat)
assert bs[0] == 32 and bs[1] == 64, bs
""")

S('psf-fit-errors-escape', 'C14', 'fitting.py',
  [("""            pres = runner.go(coadd_obs.psf)
        except Exception:""", """            pres = runner.go(coadd_obs.psf)
        except ngmix.GMixRangeError:""")],
  'a psf fit that raises something other than a range error',
  'the error of one object ends the whole run instead of becoming the psf failure flag',
  COMMON + """
from metadetect.fitting import fit_mbobs_admom


class Runner(object):
    def go(self, obs):
        raise np.linalg.LinAlgError('singular')


r = fit_mbobs_admom(mbobs=mkmb(mkobs()), bmask_flags=0, rng=None, runner=Runner(), symmetrize=False)
assert r['am_flags'][0] & procflags.PSF_FAILURE, r['am_flags']
""")

S('band-weight-from-all-pixels', 'C16', 'fitting.py',
  [("            wgts[i] = np.median(obs.weight[msk])\n", "            wgts[i] = np.median(obs.weight)\n")],
  'a band with a part of its pixels at zero weight, in a coadd of several bands',
  'masked pixels enter the median weight of the band, so the bands are mixed in other proportions',
  COMMON + """
from metadetect.fitting import make_coadd_obs
ngmix.Jacobian.__repr__ = lambda self: str(sorted(self.__dict__.items()))
a, b = mkobs(val=1.0), mkobs(val=3.0)
a.weight[:5] = 0
c, flags = make_coadd_obs(mkmb(a, b))
assert flags == 0 and abs(c.image[8, 8] - 2.0) < 1e-10, c.image[8, 8]
b.weight[:9] = 0
c, flags = make_coadd_obs(mkmb(a, b))
assert flags == 0 and abs(c.image[12, 8] - 2.0) < 1e-10, c.image[12, 8]
""")

S('zero-weights-tested-before-symmetrizing', 'C12', 'fitting.py',
  [("""    if symmetrize:
        obs = symmetrize_obs_weights(obs)

    if not np.any(obs.weight > 0):
        flags |= procflags.ZERO_WEIGHTS

    if np.any((obs.bmask & bmask_flags) != 0):
        flags |= procflags.EDGE_HIT

    if flags != 0:
        # we will flag this later""", """    if not np.any(obs.weight > 0):
        flags |= procflags.ZERO_WEIGHTS

    if np.any((obs.bmask & bmask_flags) != 0):
        flags |= procflags.EDGE_HIT

    if flags == 0 and symmetrize:
        obs = symmetrize_obs_weights(obs)

    if flags != 0:
        # we will flag this later""")],
  'a stamp whose mask covers the whole of it only after it has been symmetrized',
  'a stamp without any good pixel is fitted and its weight is the median of nothing',
  COMMON + """
import metadetect.fitting as ff
calls = []


class Fitter(object):
    kind = 'wmom'

    def go(self, obs, **kw):
        calls.append(obs)
        return {'flags': 0}


ff.symmetrize_obs_weights = lambda o: mkobs(wgt=0.0) if not calls else o
o = mkobs()
r = ff._fit_obs(obs=o, fitter=Fitter(), bmask_flags=0, symmetrize=True)
assert r['flags'] & procflags.ZERO_WEIGHTS and not calls, (r, len(calls))
""")

S('detection-mask-of-last-band', 'C22', 'detect.py',
  [("                mask |= (obs.bmask & self.nodet_flags != 0)\n",
    "                mask = (obs.bmask & self.nodet_flags != 0) | (mask if self.nodet_flags & 1 else False)\n")],
  'several detection bands with different bits set and no-detection flags without the lowest bit',
  'pixels that are excluded in an earlier band only are used for detection',
  COMMON + """
from metadetect.detect import MEDSifier
m = MEDSifier.__new__(MEDSifier)
a, b = mkobs(), mkobs()
a.bmask[2, 3] = 4
b.bmask[5, 6] = 4
m.mbobs, m.nodet_flags = mkmb(a, b), 4
m._set_detim()
assert m.detmask[2, 3] and m.detmask[5, 6] and m.detmask.sum() == 2, m.detmask.sum()
""")

S('misspelled-shear-is-no-shear', 'C04', 'shearpos.py',
  [("""    elif shear_str == '2m':
        shear""", """    elif shear_str.startswith('2'):
        shear""")],
  'a label that begins like a sheared type of the second component without being one',
  'an unknown label is taken for a shear instead of being refused',
  COMMON + """
from metadetect.shearpos import unshear_positions
j = ngmix.Jacobian(row=8, col=8, scale=0.2)
try:
    unshear_positions(np.arange(3.0), np.arange(3.0), '2x', j, (17, 17))
except ValueError:
    pass
else:
    raise SystemExit('unknown shear accepted')
""")

S('isolated-pixels-from-global-generator', 'C28', 'interpolate.py',
  [("""                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = rng.normal(
                    size=shape, scale=1.0/np.sqrt(weight)
                )""", """                draw = rng.normal if shape[0] > 1 else np.random.normal
                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = draw(
                    size=shape, scale=1.0/np.sqrt(weight)
                )""")],
  'exactly one isolated bad pixel that is filled with noise',
  'the value is drawn from the global generator, so that equal seeds give different images',
  COMMON + """
from metadetect.interpolate import interpolate_image_at_mask
im = np.random.RandomState(5).normal(size=(20, 20))
bad = np.zeros((20, 20), dtype=bool)
bad[7:10, 7:10] = True
r = [interpolate_image_at_mask(image=im, bad_msk=bad, weight=4.0, fill_isolated_with_noise=True, iso_buff=1, maxfrac=0.9,
                               rng=np.random.RandomState(11)) for _ in range(2)]
assert np.array_equal(r[0], r[1])
""")

S('window-end-of-wide-images', 'C10', 'interpolate.py',
  [("""                if buff != iso_buff:
                    row_start = row - buff
                    row_end = row + buff
                    col_start = col - buff
                    col_end = col + buff

                    if row_start < 0:
                        row_start = 0
                    if row_end > (nrows-1):
                        row_end = nrows-1
                    if col_start < 0:
                        col_start = 0
                    if col_end > (ncols-1):
                        col_end = ncols-1
""", """                if buff != iso_buff:
                    row_start = max(row - buff, 0)
                    row_end = min(row + buff, nrows-1)
                    col_start = max(col - buff, 0)
                    col_end = min(col + buff, max(nrows, ncols)-1)
""")],
  'an image with more rows than columns and a bad pixel near its last column',
  'the window of the good neighbours runs over the end of the row, into the next row or out of the array',
  COMMON + """
import metadetect.interpolate as mi
f = getattr(mi._get_nearby_good_pixels, 'py_func', mi._get_nearby_good_pixels)
bad = np.zeros((12, 6), dtype=bool)
bad[4, 4] = True
try:
    b, iso, g = f(bad, 1, 3, 1)
except IndexError as e:
    raise SystemExit('out of bounds: %s' % e)
""")

S('psf-shape-carried-over', 'C31', 'fitting.py',
  [("""                res["am_T_err"] = gres["T_err"]
                if pres["flags"] == 0:
""", """                res["am_T_err"] = gres["T_err"]
                if pres["flags"] == 0 and gres["flags"] == 0:
""")],
  'an object with a valid size but a problem in another quantity',
  'the size ratio is missing from rows whose size and psf size are both valid',
  COMMON + """
from metadetect.fitting import fit_mbobs_admom


class Runner(object):
    def __init__(self):
        self.n = 0

    def go(self, obs):
        self.n += 1
        r = {'flags': 0, 'e': np.array([0.1, 0.2]), 'T': 2.0, 'T_err': 0.1, 'T_flags': 0, 's2n': 9.0, 'e_cov': np.eye(2)}
        if self.n > 1:
            r['flags'] = 4
        return r


r = fit_mbobs_admom(mbobs=mkmb(mkobs()), bmask_flags=0, rng=None, runner=Runner(), symmetrize=False)
assert r['am_T_flags'][0] == 0 and abs(r['am_T_ratio'][0] - 1) < 1e-12, r['am_T_ratio']
""")
