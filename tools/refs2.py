MK = 'metadetect/masking.py'
MF = 'metadetect/mfrac.py'
SP = 'metadetect/shearpos.py'
IN = 'metadetect/interpolate.py'
DT = 'metadetect/detect.py'

ZERO = """                    if msk[0].size == obs.image.size:
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False


@njit
def _build"""
HOLES = "            mbobs=mbobs,\n" + """            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
"""
REFS = [
    ('edge-bool-mask', [(MK, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image[msk] *= ap_mask[msk]
                    obs.noise[msk] *= ap_mask[msk]
""", """    msk = np.where(ap_mask < 1)
    nmasked = msk[0].size
    if nmasked > 0:
        vals = ap_mask[msk]
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image[msk] *= vals
                    obs.noise[msk] *= vals
""")]),
    ('edge-early-return', [(MK, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image[msk] *= ap_mask[msk]
                    obs.noise[msk] *= ap_mask[msk]
                    obs.bmask[msk] |= mask_bit_val
                    if hasattr(obs, "mfrac"):
                        obs.mfrac[msk] = 1.0
                    if msk[0].size == obs.image.size:
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False
""", """    msk = np.where(ap_mask < 1)
    if msk[0].size == 0:
        return

    for obslist in mbobs:
        for obs in obslist:
            # the pixels list will be reset upon exiting
            with obs.writeable():
                obs.bmask[msk] |= mask_bit_val
                for im in (obs.image, obs.noise):
                    im[msk] *= ap_mask[msk]
                if hasattr(obs, "mfrac"):
                    obs.mfrac[msk] = 1.0
                if msk[0].size == obs.image.size:
                    obs.ignore_zero_weight = False
                obs.weight[msk] = 0.0
                if np.all(obs.weight == 0):
                    obs.ignore_zero_weight = False
""")]),
    ('mask-obs-helper', [(MK, """                    obs.image *= ap_mask
                    obs.noise *= ap_mask
                    obs.bmask[msk] |= mask_bit_val
                    if hasattr(obs, "mfrac"):
                        obs.mfrac[msk] = 1.0
                    if np.all(msk):
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False
""", """                    _apodize_obs(obs, ap_mask, msk, mask_bit_val)


def _apodize_obs(obs, ap_mask, msk, mask_bit_val):
    obs.image *= ap_mask
    obs.noise *= ap_mask
    obs.bmask[msk] |= mask_bit_val
    if hasattr(obs, "mfrac"):
        obs.mfrac[msk] = 1.0
    if np.all(msk):
        obs.ignore_zero_weight = False
    obs.weight[msk] = 0.0
    if np.all(obs.weight == 0):
        obs.ignore_zero_weight = False
""")]),
    ('square-kernel-hoist', [(MK, """    for y in range(min(ap_range+1, ny)):
        for x in range(nx):
            ap_mask[y, x] *= _ap_kern_kern(y, ap_range, ap_rad)
            ap_mask[ny-1 - y, x] *= _ap_kern_kern(y, ap_range, ap_rad)
""", """    for y in range(min(ap_range+1, ny)):
        val = _ap_kern_kern(y, ap_range, ap_rad)
        for x in range(nx):
            ap_mask[y, x] *= val
            ap_mask[ny - y - 1, x] *= val
""")]),
    ('square-loops-split', [(MK, """    for y in range(min(ap_range+1, ny)):
        for x in range(nx):
            ap_mask[y, x] *= _ap_kern_kern(y, ap_range, ap_rad)
            ap_mask[ny-1 - y, x] *= _ap_kern_kern(y, ap_range, ap_rad)
""", """    for x in range(nx):
        for y in range(min(ap_range + 1, ny)):
            kv = _ap_kern_kern(y, ap_range, ap_rad)
            ap_mask[y, x] *= kv
            ap_mask[ny - 1 - y, x] *= kv
""")]),
    ('method-flag', [(MK, """    if method == 'interp':
        _apply_mask_interp(
""" + HOLES + """            fill_isolated_with_noise=False,
            iso_buff=iso_buff,
            rng=rng,
        )
    elif method == 'interp-noise':
        _apply_mask_interp(
""" + HOLES + """            fill_isolated_with_noise=True,
            iso_buff=iso_buff,
            rng=rng,
        )
""", """    if method in ('interp', 'interp-noise'):
        _apply_mask_interp(
""" + HOLES + """            fill_isolated_with_noise=(method == 'interp-noise'),
            iso_buff=iso_buff,
            rng=rng,
        )
""")]),
    ('interp-all-bad-first', [(MK, """                    if not np.all(bad_logic):
                        wmsk = obs.weight > 0
                        wgt = np.median(obs.weight[wmsk])
""", """                    if np.all(bad_logic):
                        interp_image = interp_noise = None
                    else:
                        wgt = np.median(obs.weight[obs.weight > 0])
"""), (MK, """                            weight=wgt,
                        )
                    else:
                        interp_image = None
                        interp_noise = None

""", """                            weight=wgt,
                        )

""")]),
    ('interp-kwargs', [(MK, """                        interp_image = interpolate_image_at_mask(
                            image=obs.image,
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=wgt,
                        )
                        interp_noise = interpolate_image_at_mask(
                            image=obs.noise,
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=wgt,
                        )
""", """                        kw = dict(
                            bad_msk=bad_logic, maxfrac=1.0, iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng, weight=wgt,
                        )
                        interp_image, interp_noise = [
                            interpolate_image_at_mask(image=im, **kw)
                            for im in (obs.image, obs.noise)
                        ]
""")]),
    ('interp-any', [(MK, """    wbad = np.where(bad_logic)
    if wbad[0].size > 0:

        for obslist in mbobs:
""", """    wbad = np.where(bad_logic)
    if np.any(bad_logic):

        for obslist in mbobs:
""")]),
    ('expand-helper', [(MK, """        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.bmask |= expanded_bmask


""", """        _or_into_bmasks(mbobs, expanded_bmask)


def _or_into_bmasks(mbobs, bits):
    for obslist in mbobs:
        for obs in obslist:
            with obs.writeable():
                obs.bmask |= bits


""")]),
    ('intersects-expr', [(MK, """    low_row = -radius_pixels
    high_row = nrows + radius_pixels - 1
    low_col = -radius_pixels
    high_col = ncols + radius_pixels - 1

    if (
        row > low_row and row < high_row and
        col > low_col and col < high_col
    ):
        return True
    else:
        return False
""", """    rows_overlap = -radius_pixels < row < nrows - 1 + radius_pixels
    cols_overlap = -radius_pixels < col < ncols - 1 + radius_pixels
    return rows_overlap and cols_overlap
""")]),
    ('kernel-returns', [(MK, """    if y < -3:
        return 0
    elif y > 3:
        return 1
    else:
        val = (
            -5 * y ** 7 / 69984
            + 7 * y ** 5 / 2592
            - 35 * y ** 3 / 864
            + 35 * y / 96
            + 1 / 2
        )
        return val
""", """    if y > 3:
        return 1
    if y < -3:
        return 0
    y2 = y * y
    return 0.5 + y * (35 / 96 + y2 * (-35 / 864 + y2 * (7 / 2592 - 5 * y2 / 69984)))
""")]),
    ('disk-dist-helper', [(MK, """        for _y in range(ny):
            dy2 = (_y - y)**2
            for _x in range(nx):
                dr2 = (_x - x)**2 + dy2
                if dr2 < rad2:
                    ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)
                    nmasked += 1
""", """        for iy in range(ny):
            for ix in range(nx):
                dr2 = (iy - y)**2 + (ix - x)**2
                if dr2 >= rad2:
                    continue
                nmasked += 1
                ap_mask[iy, ix] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)
""")]),
    ('disk-zip', [(MK, """    for i in range(ns):
        x = cols[i]
        y = rows[i]
        rad = radius_pixels[i]
        rad2 = rad**2

        if not _intersects(y, x, rad, ny, nx):
            continue
""", """    for i in range(ns):
        x, y, rad = cols[i], rows[i], radius_pixels[i]
        if not _intersects(y, x, rad, ny, nx):
            continue
        rad2 = rad * rad
""")]),
    ('mfrac-prealloc', [(MF, """    mfracs = []
    for i in range(x.shape[0]):
        try:
            if box_sizes[i] > 0:
                obs = m.get_obs(i, 0)
                wgt = obs.weight.copy()
                msk = (obs.bmask & BMASK_EDGE) != 0
                wgt[msk] = 0
                wgt[~msk] = 1
                obs.set_weight(wgt)

                stats = gauss_wgt.get_weighted_sums(
                    obs,
                    fwhm * 2,
                )
                # this is the weighted average in the image using the
                # Gaussian as the weight.
                mfracs.append(stats["sums"][5] / stats["wsum"])
            else:
                mfracs.append(1.0)
        except ngmix.GMixFatalError:
            mfracs.append(1.0)

    return np.array(mfracs)""", """    mfracs = []
    for i in range(x.shape[0]):
        val = 1.0
        if box_sizes[i] > 0:
            try:
                stamp = m.get_obs(i, 0)
                edge = (stamp.bmask & BMASK_EDGE) != 0
                wgt = stamp.weight.copy()
                wgt[~edge] = 1
                wgt[edge] = 0
                stamp.set_weight(wgt)

                stats = gauss_wgt.get_weighted_sums(stamp, 2 * fwhm)
                val = stats["sums"][5] / stats["wsum"]
            except ngmix.GMixFatalError:
                pass
        mfracs.append(val)

    return np.array(mfracs)""")]),
    ('mfrac-helper', [(MF, """        try:
            if box_sizes[i] > 0:
                obs = m.get_obs(i, 0)
                wgt = obs.weight.copy()
                msk = (obs.bmask & BMASK_EDGE) != 0
                wgt[msk] = 0
                wgt[~msk] = 1
                obs.set_weight(wgt)

                stats = gauss_wgt.get_weighted_sums(
                    obs,
                    fwhm * 2,
                )
                # this is the weighted average in the image using the
                # Gaussian as the weight.
                mfracs.append(stats["sums"][5] / stats["wsum"])
            else:
                mfracs.append(1.0)
        except ngmix.GMixFatalError:
            mfracs.append(1.0)

    return np.array(mfracs)""", """        mfracs.append(_weighted_mean(m, i, box_sizes[i], gauss_wgt, fwhm))

    return np.array(mfracs)


def _weighted_mean(m, i, box_size, gauss_wgt, fwhm):
    if box_size <= 0:
        return 1.0

    try:
        obs = m.get_obs(i, 0)
        wgt = obs.weight.copy()
        msk = (obs.bmask & BMASK_EDGE) != 0
        wgt[msk] = 0
        wgt[~msk] = 1
        obs.set_weight(wgt)
        stats = gauss_wgt.get_weighted_sums(obs, fwhm * 2)
        return stats["sums"][5] / stats["wsum"]
    except ngmix.GMixFatalError:
        return 1.0""")]),
    ('shear-dispatch', [(SP, """    if shear_str == '1p':
        shear = galsim.Shear(g1=+step, g2=0.00)
    elif shear_str == '1m':
        shear = galsim.Shear(g1=-step, g2=0.00)
    elif shear_str == '2p':
        shear = galsim.Shear(g1=0.00, g2=+step)
    elif shear_str == '2m':
        shear = galsim.Shear(g1=0.00, g2=-step)
    else:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    return shear
""", """    signs = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
    if shear_str not in signs:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    s1, s2 = signs[shear_str]
    return galsim.Shear(g1=s1 * step, g2=s2 * step)
""")]),
    ('shear-center-helper', [(SP, """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(ainv, pos)
    assert out.shape[1] == u.shape[0]
    u_unsheared = out[0] + u_cen
    v_unsheared = out[1] + v_cen

    # undo the WCS to get to image coords
    rows_unsheared, cols_unsheared = \\
        jac.get_rowcol(v=v_unsheared, u=u_unsheared)

    return rows_unsheared, cols_unsheared
""", """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())
    return _transform_about_center(rows, cols, ainv, jac, dims)


def _transform_about_center(rows, cols, mat, jac, dims):
    nrows, ncols = dims[0], dims[1]
    v_cen, u_cen = jac.get_vu(row=(nrows - 1) / 2, col=(ncols - 1) / 2)
    v, u = jac.get_vu(row=rows, col=cols)

    du = np.atleast_1d(u) - u_cen
    dv = np.atleast_1d(v) - v_cen

    out = np.dot(mat, np.vstack((du, dv)))
    assert out.shape[1] == du.shape[0]

    return jac.get_rowcol(v=v_cen + out[1], u=u_cen + out[0])
""")]),
    ('skip-shears-first', [(SP, """    if shear_str in SKIP_SHEARS:
        return rows, cols

    shear = get_galsim_shear(shear_str, step)

    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())
""", """    if shear_str in SKIP_SHEARS:
        return rows, cols

    ainv = np.linalg.inv(get_galsim_shear(shear_str, step).getMatrix())
""")]),
    ('near-clamp', [(IN, """                row_start = row - iso_buff
                row_end = row + iso_buff
                col_start = col - iso_buff
                col_end = col + iso_buff

                if row_start < 0:
                    row_start = 0
                if row_end > (nrows-1):
                    row_end = nrows-1
                if col_start < 0:
                    col_start = 0
                if col_end > (ncols-1):
                    col_end = ncols-1

                no_good = 1
""", """                row_start = max(row - iso_buff, 0)
                row_end = min(row + iso_buff, nrows - 1)
                col_start = max(col - iso_buff, 0)
                col_end = min(col + iso_buff, ncols - 1)

                no_good = 1
""")]),
    ('near-isolated', [(IN, """                no_good = 1
                for rc in range(row_start, row_end+1):
                    for cc in range(col_start, col_end+1):
                        tval = bad_msk[rc, cc]
                        if not tval:
                            no_good = 0

                if no_good == 1:
                    bad_iso[ibad] = 1
""", """                isolated = True
                for rc in range(row_start, row_end+1):
                    for cc in range(col_start, col_end+1):
                        if not bad_msk[rc, cc]:
                            isolated = False

                if isolated:
                    bad_iso[ibad] = 1
"""), (IN, """    no_good = 1

    ibad = 0
""", """    ibad = 0
""")]),
    ('near-continue', [(IN, """            val = bad_msk[row, col]
            if val:
                bad_ind[ibad] = row * ncols + col

                row_start = row - iso_buff
                row_end = row + iso_buff
                col_start = col - iso_buff
                col_end = col + iso_buff

                if row_start < 0:
                    row_start = 0
                if row_end > (nrows-1):
                    row_end = nrows-1
                if col_start < 0:
                    col_start = 0
                if col_end > (ncols-1):
                    col_end = ncols-1

                no_good = 1
                for rc in range(row_start, row_end+1):
                    for cc in range(col_start, col_end+1):
                        tval = bad_msk[rc, cc]
                        if not tval:
                            no_good = 0

                if no_good == 1:
                    bad_iso[ibad] = 1

                if buff != iso_buff:
                    row_start = row - buff
                    row_end = row + buff
                    col_start = col - buff
                    col_end = col + buff

                    if row_start < 0:
                        row_start = 0
                    if row_end > (nrows-1):
                        row_end = nrows-1
                    if col_start < 0:
                        col_start = 0
                    if col_end > (ncols-1):
                        col_end = ncols-1

                for rc in range(row_start, row_end+1):
                    for cc in range(col_start, col_end+1):
                        tval = bad_msk[rc, cc]
                        if not tval:

                            if igood == ngood:
                                raise RuntimeError('good_pix too small')

                            ind = rc*ncols + cc
                            good_ind[igood] = ind
                            igood += 1

                ibad += 1
""", """            if not bad_msk[row, col]:
                continue

            bad_ind[ibad] = row * ncols + col

            r0, r1, c0, c1 = _window(row, col, iso_buff, nrows, ncols)
            nok = 0
            for rc in range(r0, r1):
                for cc in range(c0, c1):
                    if not bad_msk[rc, cc]:
                        nok += 1

            if nok == 0:
                bad_iso[ibad] = 1

            r0, r1, c0, c1 = _window(row, col, buff, nrows, ncols)
            for rc in range(r0, r1):
                for cc in range(c0, c1):
                    if bad_msk[rc, cc]:
                        continue
                    if igood == ngood:
                        raise RuntimeError('good_pix too small')
                    good_ind[igood] = rc*ncols + cc
                    igood += 1

            ibad += 1
"""), (IN, """@njit
def _get_nearby_good_pixels(""", """@njit
def _window(row, col, buff, nrows, ncols):
    return (
        max(0, row - buff), min(nrows, row + buff + 1),
        max(0, col - buff), min(ncols, col + buff + 1),
    )


@njit
def _get_nearby_good_pixels("""), (IN, """    no_good = 1

    ibad = 0
""", """    ibad = 0
""")]),
    ('interp-early-none', [(IN, """    bm_frac = nbad/npix
    if bm_frac <= maxfrac and nbad < npix:
        interp_image = image.copy()
""", """    if nbad/npix > maxfrac or nbad >= npix:
        return None
    else:
        interp_image = image.copy()
"""), (IN, """        return interp_image

    else:
        return None""", """        return interp_image""")]),
    ('interp-index-helper', [(IN, """        good_ind = np.unique(_good_ind)
        good_yx = np.unravel_index(good_ind, bad_msk.shape)
        bad_yx = np.unravel_index(bad_ind, bad_msk.shape)

        if fill""", """        good_yx = np.unravel_index(np.unique(_good_ind), bad_msk.shape)
        bad_yx = np.unravel_index(bad_ind, bad_msk.shape)

        if fill""")]),
    ('interp-checks', [(IN, """        if fill_isolated_with_noise:
            if rng is None:
                raise RuntimeError(
                    "You must pass an RNG to fill an image with noise "
                    "when interpolating!"
                )

            if weight is None:
                raise RuntimeError(
                    "You must pass a weight to fill an image with noise "
                    "when interpolating!"
                )

            msk""", """        if fill_isolated_with_noise:
            for val, what in ((rng, "an RNG"), (weight, "a weight")):
                if val is None:
                    raise RuntimeError(
                        "You must pass %s to fill an image with noise "
                        "when interpolating!" % what
                    )

            msk""")]),
    ('interp-noise-any', [(IN, """            msk = bad_iso == 1
            if np.any(msk):
                # mark them as ok pixels
                bad_msk = bad_msk.copy()
                bad_msk[bad_yx[0][msk], bad_yx[1][msk]] = False

                # keep the ones we have to fill
                noise_fill_yx = (bad_yx[0][msk], bad_yx[1][msk])
""", """            msk = bad_iso == 1
            if msk.any():
                # keep the ones we have to fill
                fill_y = bad_yx[0][msk]
                fill_x = bad_yx[1][msk]
                noise_fill_yx = (fill_y, fill_x)

                # mark them as ok pixels
                bad_msk = bad_msk.copy()
                bad_msk[fill_y, fill_x] = False
""")]),
    ('cutout-type-table', [(DT, """        if type == 'image':
            data = self.obs.image
        elif type == 'weight':
            data = self.obs.weight
        elif type == 'bmask':
            data = self.obs.bmask
        elif type == 'noise':
            data = self.obs.noise
        elif type == 'seg':
            data = self.seg

        return data
""", """        if type == 'seg':
            return self.seg
        if type in ('image', 'weight', 'bmask', 'noise'):
            return getattr(self.obs, type)
""")]),
    ('clip-min-max', [(DT, """        obox = [start, start+bsize]

        box = [0, bsize]

        if obox[0] < 0:
            obox[0] = 0
            box[0] = 0 - start

        im_max = dim
        diff = im_max - obox[1]
        if diff < 0:
            obox[1] = im_max
            box[1] = box[1] + diff

        return obox, box
""", """        end = start + bsize
        lo = max(start, 0)
        hi = min(end, dim)
        obox = [lo, hi]
        box = [lo - start, bsize - (end - hi)]
        return obox, box
""")]),
    ('cutout-slices', [(DT, """        read_im = im[orow_box[0]:orow_box[1],
                     ocol_box[0]:ocol_box[1]]

        subim = np.zeros((bsize, bsize), dtype=im.dtype)
        subim += defaults.DEFAULT_IMAGE_VALUES[type]

        subim[row_box[0]:row_box[1],
              col_box[0]:col_box[1]] = read_im

        return subim
""", """        oslc = (slice(orow_box[0], orow_box[1]), slice(ocol_box[0], ocol_box[1]))
        slc = (slice(row_box[0], row_box[1]), slice(col_box[0], col_box[1]))

        subim = np.zeros((bsize, bsize), dtype=im.dtype)
        subim += defaults.DEFAULT_IMAGE_VALUES[type]
        subim[slc] = im[oslc]

        return subim
""")]),
    ('detim-weights', [(DT, """        vars = self._get_image_vars()
        weights = 1.0/vars
        wsum = weights.sum()
        detnoise = np.sqrt(1/wsum)

        weights /= wsum
""", """        weights = 1.0/self._get_image_vars()
        wsum = weights.sum()
        detnoise = np.sqrt(1/wsum)
        weights = weights / wsum
""")]),
    ('detim-zip', [(DT, """        for i, obslist in enumerate(self.mbobs):
            obs = obslist[0]
            detim += obs.image*weights[i]
            if obs.has_bmask():
                mask |= (obs.bmask & self.nodet_flags != 0)

        self.detim = detim
        self.detnoise = detnoise
        self.detmask = mask
""", """        for wt, obslist in zip(weights, self.mbobs):
            obs = obslist[0]
            detim += wt * obs.image
            if not obs.has_bmask():
                continue
            mask |= ((obs.bmask & self.nodet_flags) != 0)

        self.detmask, self.detnoise, self.detim = mask, detnoise, detim
""")]),
    ('image-vars-comp', [(DT, """        vars = []
        for obslist in self.mbobs:
            obs = obslist[0]
            weight = obs.weight
            w = np.where(weight > 0)
            medw = np.median(weight[w])
            vars.append(1/medw)
        return np.array(vars)
""", """        return np.array([
            1 / np.median(obslist[0].weight[obslist[0].weight > 0])
            for obslist in self.mbobs
        ])
""")]),
    ('meds-list-comp', [(DT, """        mlist = []
        for band in range(self.nband):
            m = self.get_meds(band)
            mlist.append(m)

        return MultiBandNGMixMEDS(mlist)
""", """        return MultiBandNGMixMEDS(
            [self.get_meds(band) for band in range(self.nband)]
        )
""")]),
    ('bins-comp', [(DT, """        bins = [0]
        bins.extend([sze for sze in defaults.ALLOWED_BOX_SIZES
                     if sze >= mconf['min_box_size']
                     and sze <= mconf['max_box_size']])

        if bins[-1] != mconf['max_box_size']:
            bins.append(mconf['max_box_size'])
""", """        min_size, max_size = mconf['min_box_size'], mconf['max_box_size']
        bins = [0]
        for sze in defaults.ALLOWED_BOX_SIZES:
            if min_size <= sze <= max_size:
                bins.append(sze)

        if bins[-1] != max_size:
            bins.append(max_size)
""")]),
    ('sigma-size-inline', [(DT, """        ellipticity = 1.0 - cat['b']/cat['a']
        sigma = cat['flux_radius']*2.0/FWHM_FAC
        drad = sigma*mconf['sigma_fac']
        drad = drad*(1.0 + ellipticity)
        drad = np.ceil(drad)
        sigma_size = 2*drad.astype('i4')  # sigma size is twice the radius

        return sigma_size
""", """        axis_ratio = cat['b'] / cat['a']
        sigma = 2.0 * cat['flux_radius'] / FWHM_FAC
        drad = np.ceil(sigma * mconf['sigma_fac'] * (1.0 + (1.0 - axis_ratio)))
        return 2 * drad.astype('i4')
""")]),
    ('sx-config-copy', [(DT, """        if sx_config_in is not None:
            sx_config = {}
            sx_config.update(sx_config_in)
            sx_config['filter_kernel'] = np.array(sx_config['filter_kernel'])

            self.detect_thresh = sx_config.pop('detect_thresh')
            self.sx_config = sx_config
        else:
            self.sx_config = sxdes.SX_CONFIG
            self.detect_thresh = sxdes.DETECT_THRESH
""", """        if sx_config_in is None:
            self.detect_thresh = sxdes.DETECT_THRESH
            self.sx_config = sxdes.SX_CONFIG
        else:
            conf = dict(sx_config_in)
            conf['filter_kernel'] = np.array(conf['filter_kernel'])
            self.detect_thresh = conf['detect_thresh']
            del conf['detect_thresh']
            self.sx_config = conf
""")]),
    ('cat-start-end-helper', [(DT, """        orow = cat['orig_row'][:, 0].astype('i4')
        ocol = cat['orig_col'][:, 0].astype('i4')

        ostart_row = orow - half_box_size + 1
        ostart_col = ocol - half_box_size + 1
        oend_row = orow + half_box_size + 1  # plus one for slices
        oend_col = ocol + half_box_size + 1

        ostart_row.clip(min=0, out=ostart_row)
        ostart_col.clip(min=0, out=ostart_col)
        oend_row.clip(max=maxrow, out=oend_row)
        oend_col.clip(max=maxcol, out=oend_col)

        cat['orig_start_row'][:, 0] = ostart_row
        cat['orig_start_col'][:, 0] = ostart_col
        cat['orig_end_row'][:, 0] = oend_row
        cat['orig_end_col'][:, 0] = oend_col
        cat['cutout_row'][:, 0] = \\
            cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]
        cat['cutout_col'][:, 0] = \\
            cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]

        psf_cen = (np.array(self.mbobs[0][0].psf.image.shape) - 1)/2
        cat['psf_cutout_row'][:, 0] = psf_cen[0]
        cat['psf_cutout_col'][:, 0] = psf_cen[1]

        if seg""", """        for axis, dim in (('row', maxrow), ('col', maxcol)):
            pos = cat['orig_' + axis][:, 0].astype('i4')
            start = pos - half_box_size + 1
            end = pos + half_box_size + 1  # plus one for slices
            cat['orig_start_' + axis][:, 0] = start.clip(min=0)
            cat['orig_end_' + axis][:, 0] = end.clip(max=dim)
            cat['cutout_' + axis][:, 0] = (
                cat['orig_' + axis][:, 0] - cat['orig_start_' + axis][:, 0]
            )

        psf_cen = (np.array(self.mbobs[0][0].psf.image.shape) - 1)/2
        cat['psf_cutout_row'][:, 0] = psf_cen[0]
        cat['psf_cutout_col'][:, 0] = psf_cen[1]

        if seg""")]),
]
