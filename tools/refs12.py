"""Refactorings of functions the earlier sets touched least."""
FT = 'metadetect/fitting.py'
UT = 'metadetect/lsst/util.py'
MK = 'metadetect/masking.py'
SP = 'metadetect/shearpos.py'
MS = 'metadetect/lsst/model_subtractor.py'
LM = 'metadetect/lsst/metadetect.py'
MD = 'metadetect/metadetect.py'

REFS = [
    # shearpos: one routine for both directions
    ('p12-shear-common', [(SP, """    if shear_str in SKIP_SHEARS:
        return rows, cols

    shear = get_galsim_shear(shear_str, step)

    # this is the matrix that does shearing in u, v
    a = shear.getMatrix()

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(a, pos)
    assert out.shape[1] == u.shape[0]
    u_sheared = out[0, :] + u_cen
    v_sheared = out[1, :] + v_cen

    # undo the WCS to get to image coords
    rows_sheared, cols_sheared = jac.get_rowcol(v=v_sheared, u=u_sheared)

    return rows_sheared, cols_sheared
""", """    if shear_str in SKIP_SHEARS:
        return rows, cols

    matrix = get_galsim_shear(shear_str, step).getMatrix()
    return _transform_positions(rows, cols, matrix, jac, dims)
"""), (SP, """    if shear_str in SKIP_SHEARS:
        return rows, cols

    shear = get_galsim_shear(shear_str, step)

    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(ainv, pos)
    assert out.shape[1] == u.shape[0]
    u_unsheared = out[0] + u_cen
    v_unsheared = out[1] + v_cen

    # undo the WCS to get to image coords
    rows_unsheared, cols_unsheared = \\
        jac.get_rowcol(v=v_unsheared, u=u_unsheared)

    return rows_unsheared, cols_unsheared
""", """    if shear_str in SKIP_SHEARS:
        return rows, cols

    matrix = get_galsim_shear(shear_str, step).getMatrix()
    return _transform_positions(rows, cols, np.linalg.inv(matrix), jac, dims)


def _transform_positions(rows, cols, matrix, jac, dims):
    \"\"\"apply the 2x2 (u, v) matrix about the canonical image center\"\"\"
    v_cen, u_cen = jac.get_vu(
        row=(dims[0] - 1) / 2,
        col=(dims[1] - 1) / 2,
    )
    v, u = jac.get_vu(row=rows, col=cols)
    du = np.atleast_1d(u) - u_cen
    dv = np.atleast_1d(v) - v_cen

    new_du, new_dv = _rotate_vectors(matrix, du, dv)
    return jac.get_rowcol(v=new_dv + v_cen, u=new_du + u_cen)


def _rotate_vectors(matrix, du, dv):
    out = np.dot(matrix, np.vstack((du, dv)))
    assert out.shape[1] == du.shape[0]
    return out[0], out[1]
""")]),
    ('p12-shear-explicit-obs', [(SP, """    jac = obs.jacobian
    dims = obs.image.shape

    return unshear_positions(
        rows=rows, cols=cols, shear_str=shear_str, jac=jac, dims=dims,
        step=step,
    )
""", """    kws = dict(jac=obs.jacobian, dims=obs.image.shape)
    return unshear_positions(rows, cols, shear_str, step=step, **kws)
""")]),
    ('p12-matmul', [(SP, """    out = np.dot(ainv, pos)
    assert out.shape[1] == u.shape[0]
    u_unsheared = out[0] + u_cen
    v_unsheared = out[1] + v_cen
""", """    out = ainv @ pos
    assert out.shape[1] == u.shape[0]
    u_unsheared, v_unsheared = out
    u_unsheared = u_unsheared + u_cen
    v_unsheared = v_unsheared + v_cen
""")]),
    # masking
    ('k12-dispatch', [(MK, """    if method == 'interp':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=False,
            iso_buff=iso_buff,
            rng=rng,
        )
    elif method == 'interp-noise':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=True,
            iso_buff=iso_buff,
            rng=rng,
        )
    elif method == 'apodize':
        _apply_mask_apodize(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            ap_rad=ap_rad,
            mask_bit_val=mask_bit_val,
        )
    else:
        raise RuntimeError(
            "Can only do one of 'interp', 'interp-noise' or 'apodize' for "
            "handling foreground masks (got %s)!" % method
        )
""", """    if method not in ('interp', 'interp-noise', 'apodize'):
        raise RuntimeError(
            "Can only do one of 'interp', 'interp-noise' or 'apodize' for "
            "handling foreground masks (got %s)!" % method
        )

    common = dict(
        mbobs=mbobs, xm=xm, ym=ym, rm=rm,
        symmetrize=symmetrize, mask_bit_val=mask_bit_val,
    )
    if method == 'apodize':
        _apply_mask_apodize(ap_rad=ap_rad, **common)
    else:
        _apply_mask_interp(
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=(method == 'interp-noise'),
            iso_buff=iso_buff,
            rng=rng,
            **common
        )
""")]),
    ('k12-expand-helper', [(MK, """    if mask_expand_rad > 0:
        expanded_bmask = make_foreground_bmask(
            xm=xm,
            ym=ym,
            rm=rm + mask_expand_rad,
            dims=mbobs[0][0].image.shape,
            symmetrize=symmetrize,
            mask_bit_val=expand_mask_bit_val,
        )
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.bmask |= expanded_bmask


""", """    if mask_expand_rad <= 0:
        return

    _or_into_bmasks(
        mbobs,
        make_foreground_bmask(
            xm=xm,
            ym=ym,
            rm=rm + mask_expand_rad,
            dims=mbobs[0][0].image.shape,
            symmetrize=symmetrize,
            mask_bit_val=expand_mask_bit_val,
        ),
    )


def _or_into_bmasks(mbobs, bits):
    for obs in (o for obslist in mbobs for o in obslist):
        with obs.writeable():
            obs.bmask |= bits


""")]),
    ('k12-foreground-symm', [(MK, """    ap_mask = np.ones(dims, dtype='f8')
    _do_apodization_mask(
        rows=ym.astype('f8'),
        cols=xm.astype('f8'),
        radius_pixels=rm.astype('f8'),
        ap_mask=ap_mask,
        ap_rad=ap_rad,
    )

    if symmetrize:
        ap_mask *= np.rot90(ap_mask)

    return ap_mask
""", """    ap_mask = np.ones(dims, dtype=np.float64)
    rows, cols, rads = (v.astype(np.float64) for v in (ym, xm, rm))
    _do_apodization_mask(
        rows=rows, cols=cols, radius_pixels=rads,
        ap_mask=ap_mask, ap_rad=ap_rad,
    )
    if not symmetrize:
        return ap_mask

    return ap_mask * np.rot90(ap_mask)
""")]),
    ('k12-bmask-symm', [(MK, """    bmask = np.zeros(dims, dtype='i4')
    _do_mask_foreground(
        rows=ym.astype('f8'),
        cols=xm.astype('f8'),
        radius_pixels=rm.astype('f8'),
        bmask=bmask,
        flag=mask_bit_val,
    )

    if symmetrize:
        bmask |= np.rot90(bmask)

    return bmask
""", """    bmask = np.zeros(dims, dtype=np.int32)
    kw = {
        'rows': ym.astype('f8'),
        'cols': xm.astype('f8'),
        'radius_pixels': rm.astype('f8'),
    }
    _do_mask_foreground(bmask=bmask, flag=mask_bit_val, **kw)

    if symmetrize:
        bmask = bmask | np.rot90(bmask)

    return bmask
""")]),
    ('k12-do-mask-enumerate', [(MK, """    for ifg in range(rows.size):
        row = rows[ifg]
        col = cols[ifg]

        rad = radius_pixels[ifg]
        rad2 = rad * rad

        if not _intersects(row, col, rad, nrows, ncols):
            continue

        for irow in range(nrows):
            rowdiff2 = (row - irow)**2
            for icol in range(ncols):

                r2 = rowdiff2 + (col - icol)**2
                if r2 < rad2:
                    bmask[irow, icol] |= flag
                    nmasked += 1
""", """    for row, col, rad in zip(rows, cols, radius_pixels):
        if _intersects(row, col, rad, nrows, ncols):
            for irow in range(nrows):
                for icol in range(ncols):
                    drow = irow - row
                    dcol = icol - col
                    if drow * drow + dcol * dcol < rad * rad:
                        nmasked += 1
                        bmask[irow, icol] |= flag
""")]),
    ('k12-apod-inner-helper', [(MK, """        for _y in range(ny):
            dy2 = (_y - y)**2
            for _x in range(nx):
                dr2 = (_x - x)**2 + dy2
                if dr2 < rad2:
                    ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)
                    nmasked += 1

    return nmasked
""", """        nmasked += _apodize_circle(ap_mask, x, y, rad, ap_rad)

    return nmasked


@njit
def _apodize_circle(ap_mask, x, y, rad, ap_rad):
    n = 0
    for _y in range(ap_mask.shape[0]):
        for _x in range(ap_mask.shape[1]):
            dr2 = (_x - x)**2 + (_y - y)**2
            if dr2 >= rad**2:
                continue
            ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)
            n += 1
    return n
"""), (MK, """        rad = radius_pixels[i]
        rad2 = rad**2

        if not _intersects(y, x, rad, ny, nx):
""", """        rad = radius_pixels[i]

        if not _intersects(y, x, rad, ny, nx):
""")]),
    ('k12-intersects', [(MK, """    low_row = -radius_pixels
    high_row = nrows + radius_pixels - 1
    low_col = -radius_pixels
    high_col = ncols + radius_pixels - 1

    if (
        row > low_row and row < high_row and
        col > low_col and col < high_col
    ):
        return True
    else:
        return False
""", """    return (
        _in_padded_range(row, nrows, radius_pixels)
        and _in_padded_range(col, ncols, radius_pixels)
    )


@njit
def _in_padded_range(pos, n, pad):
    return -pad < pos < n + pad - 1
""")]),
    ('k12-kern-horner', [(MK, """        val = (
            -5 * y ** 7 / 69984
            + 7 * y ** 5 / 2592
            - 35 * y ** 3 / 864
            + 35 * y / 96
            + 1 / 2
        )
        return val
""", """        y2 = y * y
        return 0.5 + y * (
            35 / 96 - y2 * (35 / 864 - y2 * (7 / 2592 - 5 * y2 / 69984))
        )
""")]),
    ('k12-interp-helper', [(MK, """                    if not np.all(bad_logic):
                        wmsk = obs.weight > 0
                        wgt = np.median(obs.weight[wmsk])
                        interp_image = interpolate_image_at_mask(
                            image=obs.image,
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=wgt,
                        )
                        interp_noise = interpolate_image_at_mask(
                            image=obs.noise,
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=wgt,
                        )
                    else:
                        interp_image = None
                        interp_noise = None
""", """                    interp_image = None
                    interp_noise = None
                    if not bad_logic.all():
                        opts = dict(
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=np.median(obs.weight[obs.weight > 0]),
                        )
                        interp_image = interpolate_image_at_mask(
                            image=obs.image, **opts
                        )
                        interp_noise = interpolate_image_at_mask(
                            image=obs.noise, **opts
                        )
""")]),
    # lsst util
    ('u12-noise-init-split', [(UT, """        footprints = {}
        for source in sources:
            parent_id = source.getParent()
            fp = source.getFootprint()
            heavy = afw_det.makeHeavyFootprint(fp, exposure.maskedImage)
            footprints[source.getId()] = (parent_id, heavy)
""", """        footprints = {
            source.getId(): (
                source.getParent(),
                afw_det.makeHeavyFootprint(
                    source.getFootprint(), exposure.maskedImage
                ),
            )
            for source in sources
        }
""")]),
    ('u12-noise-image', [(UT, """    use = np.where(np.isfinite(variance) & np.isfinite(signal))

    if remove_poisson:
        gains = [amp.getGain() for amp in exp.getDetector().getAmplifiers()]
        mean_gain = np.mean(gains)

        corrected_var = variance[use] - signal[use] / mean_gain

        var = np.median(corrected_var)
    else:
        var = np.median(variance[use])
""", """    good = np.isfinite(variance)
    good &= np.isfinite(signal)

    vals = variance[good]
    if remove_poisson:
        vals = vals - signal[good] / _get_mean_gain(exp)
    var = np.median(vals)
"""), (UT, """def get_stamp_mbobs(mbexp""", """def _get_mean_gain(exp):
    return np.mean(
        [amp.getGain() for amp in exp.getDetector().getAmplifiers()]
    )


def get_stamp_mbobs(mbexp""")]),
    ('u12-stamp-helper', [(UT, """    bbox = get_bbox(mbexp, source, stamp_size, clip=clip)

    mbobs = ngmix.MultiBandObsList()
    for band in mbexp.bands:
        subexp = mbexp[band][bbox]
        obs = extract_obs(exp=subexp, source=source)

        obslist = ngmix.ObsList(meta={'band': band})
        obslist.append(obs)
        mbobs.append(obslist)

    return mbobs
""", """    bbox = get_bbox(mbexp, source, stamp_size, clip=clip)

    mbobs = ngmix.MultiBandObsList()
    for band in mbexp.bands:
        mbobs.append(_get_stamp_obslist(mbexp[band], bbox, source, band))
    return mbobs


def _get_stamp_obslist(exp, bbox, source, band):
    obslist = ngmix.ObsList(meta={'band': band})
    obslist.append(extract_obs(exp=exp[bbox], source=source))
    return obslist
""")]),
    ('u12-bbox', [(UT, """    exp_bbox = mbexp.getBBox()
    if clip:
        bbox.clip(exp_bbox)
    else:
        if not exp_bbox.contains(bbox):
            source_id = source.getId()
            raise LengthError(
                f'requested stamp size {stamp_size} for source '
                f'{source_id} does not fit into the exposoure.  '
                f'Use clip=True to clip the bbox to fit'
            )

    return bbox


def get_mbexp""", """    exp_bbox = mbexp.getBBox()
    if clip:
        bbox.clip(exp_bbox)
        return bbox

    if exp_bbox.contains(bbox):
        return bbox

    source_id = source.getId()
    raise LengthError(
        f'requested stamp size {stamp_size} for source '
        f'{source_id} does not fit into the exposoure.  '
        f'Use clip=True to clip the bbox to fit'
    )


def get_mbexp""")]),
    ('u12-copy-meta-helper', [(UT, """    for exp, sexp in zip(exposures, mbexp.singles):
        sexp.setFilter(exp.getFilter())
        sexp.setWcs(exp.getWcs())

    return mbexp


def copy_mbexp""", """    _copy_filters_and_wcs(exposures, mbexp.singles)

    return mbexp


def _copy_filters_and_wcs(from_exps, to_exps):
    for src, dst in zip(from_exps, to_exps):
        dst.setFilter(src.getFilter())
        dst.setWcs(src.getWcs())


def copy_mbexp"""), (UT, """    for new_exp, exp in zip(new_mbexp.singles, mbexp.singles):
        new_exp.setFilter(exp.getFilter())
        new_exp.setWcs(exp.getWcs())

    if clear:""", """    _copy_filters_and_wcs(mbexp.singles, new_mbexp.singles)

    if clear:""")]),
    ('u12-clone-psf', [(UT, """    try:
        new_psf = psf.clone()
    except RuntimeError:
        # this happens on some psfs, not sure why
        # proceed without a copy
        new_psf = psf

    return new_psf
""", """    try:
        return psf.clone()
    except RuntimeError:
        return psf
""")]),
    ('u12-coadd-mbobs-init', [(UT, """    wsum = 0.0

    meta = {}
    for i, obslist in enumerate(mbobs):
        obs = obslist[0]
        meta.update(obs.meta)

        shape = obs.image.shape

        if i == 0:
            coadd_image = np.zeros(shape, dtype='f4')
            coadd_weight = np.zeros(shape, dtype='f4')

            coadd_psf = np.zeros(obs.psf.image.shape)

        w = np.where(obs.weight > 0)
        this_weight = np.median(obs.weight[w])

        coadd_image[:, :] += obs.image * this_weight
        coadd_weight[:, :] += obs.weight
        coadd_psf[:, :] += obs.psf.image * this_weight

        wsum += this_weight

    fac = 1.0 / wsum

    coadd_image[:, :] *= fac

    # the psf is always normalized
    coadd_psf *= 1.0 / coadd_psf.sum()
""", """    wsum = 0.0

    meta = {}
    for i, obslist in enumerate(mbobs):
        obs = obslist[0]
        meta.update(obs.meta)

        if i == 0:
            shape = obs.image.shape
            coadd_image = np.zeros(shape, dtype='f4')
            coadd_weight = np.zeros(shape, dtype='f4')
            coadd_psf = np.zeros(obs.psf.image.shape)

        this_weight = np.median(obs.weight[obs.weight > 0])
        wsum += this_weight

        coadd_image += this_weight * obs.image
        coadd_weight += obs.weight
        coadd_psf += this_weight * obs.psf.image

    coadd_image *= 1.0 / wsum

    # the psf is always normalized
    coadd_psf *= 1.0 / np.sum(coadd_psf)
""")]),
    ('u12-coadd-mbobs-obs-helper', [(UT, """    fake_noise = coadd_psf.max() / 1.0e6
    psf_weight = np.zeros(coadd_psf.shape)
    psf_weight += 1.0 / fake_noise**2

    psf_obs = ngmix.Observation(
        image=coadd_psf,
        weight=psf_weight,
        jacobian=psf_jac,
    )
    output_obs = ngmix.Observation(
""", """    psf_obs = _make_coadd_psf_obs(coadd_psf, psf_jac)
    output_obs = ngmix.Observation(
"""), (UT, """def trim_odd_image(im):""", """def _make_coadd_psf_obs(coadd_psf, psf_jac):
    err = np.max(coadd_psf) / 1.0e6
    return ngmix.Observation(
        image=coadd_psf,
        weight=np.full(coadd_psf.shape, 1.0 / err**2),
        jacobian=psf_jac,
    )


def trim_odd_image(im):""")]),
    ('u12-trim', [(UT, """        distances = (
            cen[0] - 0,
            dims[0] - cen[0] - 1,
            cen[1] - 0,
            dims[1] - cen[1] - 1,
        )
        logger.debug('distances: %s' % str(distances))
        min_dist = min(distances)

        start_row = cen[0] - min_dist
        end_row = cen[0] + min_dist
        start_col = cen[1] - min_dist
        end_col = cen[1] + min_dist

        # adding +1 for slices
        new_im = im[
            start_row: end_row + 1,
            start_col: end_col + 1,
        ].copy()
""", """        row_cen, col_cen = cen
        min_dist = min(
            row_cen, dims[0] - 1 - row_cen, col_cen, dims[1] - 1 - col_cen,
        )

        # adding +1 for slices
        rows = slice(row_cen - min_dist, row_cen + min_dist + 1)
        cols = slice(col_cen - min_dist, col_cen + min_dist + 1)
        new_im = im[rows, cols].copy()
""")]),
    ('u12-obs2exp-mask-first', [(UT, """    if exp is None:
        ny, nx = obs.image.shape
        exp = afw_image.ExposureF(nx, ny)

    exp.image.array[:, :] = obs.image

    exp.variance.array[:, :] = np.inf

    if copy_mask_from == 'bmask':
        mask = obs.bmask
    elif copy_mask_from == 'ormask':
        mask = obs.ormask
    else:
        raise RuntimeError(
            f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
        )
    exp.mask.array[:, :] = mask

    w = np.where(obs.weight > 0)
    exp.variance.array[w] = 1.0 / obs.weight[w]

    if copy_psf:
        psf_image = obs.psf.image
        stack_psf = KernelPsf(
            FixedKernel(afw_image.ImageD(psf_image.astype(float)))
        )
        exp.setPsf(stack_psf)
""", """    if exp is None:
        exp = afw_image.ExposureF(obs.image.shape[1], obs.image.shape[0])

    exp.image.array[:, :] = obs.image

    variance = exp.variance.array
    variance[:, :] = np.inf

    if copy_mask_from not in ('bmask', 'ormask'):
        raise RuntimeError(
            f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
        )
    exp.mask.array[:, :] = getattr(obs, copy_mask_from)

    good = obs.weight > 0
    variance[good] = 1.0 / obs.weight[good]

    if copy_psf:
        kernel = FixedKernel(afw_image.ImageD(obs.psf.image.astype(float)))
        exp.setPsf(KernelPsf(kernel))
""")]),
    ('u12-exp2obs-psf-helper', [(UT, """    psf_obj = exp.getPsf()
    psf_image = psf_obj.computeKernelImage(cen).array

    assert psf_image.shape[0] == psf_image.shape[1], 'psf is not square'
    assert psf_image.shape[0] % 2 != 0, 'psf dims are not odd'
    psf_cen = (np.array(psf_image.shape) - 1.0) / 2.0

    psf_jac = jac.copy()
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err = psf_image.max() * 0.0001
    psf_weight = psf_image * 0 + 1.0 / psf_err**2

    psf_obs = ngmix.Observation(
        image=psf_image,
        weight=psf_weight,
        jacobian=psf_jac,
    )

    if copy_mask_to""", """    psf_image = exp.getPsf().computeKernelImage(cen).array
    psf_obs = _psf_image_to_obs(psf_image, jac)

    if copy_mask_to"""), (UT, """def get_jacobian(exp, cen):""", """def _psf_image_to_obs(psf_image, jac):
    ny, nx = psf_image.shape
    assert ny == nx, 'psf is not square'
    assert ny % 2 != 0, 'psf dims are not odd'

    psf_jac = jac.copy()
    psf_jac.set_cen(row=(ny - 1.0) / 2.0, col=(nx - 1.0) / 2.0)

    psf_err = psf_image.max() * 0.0001
    return ngmix.Observation(
        image=psf_image,
        weight=psf_image * 0 + 1.0 / psf_err**2,
        jacobian=psf_jac,
    )


def get_jacobian(exp, cen):""")]),
    ('u12-exp2obs-weight', [(UT, """    dims = exp.image.array.shape
    weight = np.zeros(dims)
    w = np.where(exp.variance.array > 0)
    weight[w] = 1.0 / exp.variance.array[w]

    psf_obj""", """    variance = exp.variance.array
    weight = np.zeros(exp.image.array.shape)
    positive = variance > 0
    weight[positive] = 1.0 / variance[positive]

    psf_obj"""), (UT, """    meta = {}
    if store_exp:
        meta['exposure'] = exp
""", """    meta = {'exposure': exp} if store_exp else {}
""")]),
    ('u12-center', [(UT, """    # force integer location
    pixcen = Point2I(bbox.getCenter())
    skycen = wcs.pixelToSky(Point2D(pixcen))

    if as_double:
        pixcen = Point2D(pixcen)

    return pixcen, skycen
""", """    # force integer location
    pixcen_int = Point2I(bbox.getCenter())
    pixcen_dbl = Point2D(pixcen_int)
    skycen = wcs.pixelToSky(pixcen_dbl)

    return (pixcen_dbl if as_double else pixcen_int), skycen
""")]),
    ('u12-coadd-data-comp', [(UT, """    exps = []
    noise_exps = []
    mfrac_exps = []
    ormasks = []
    for band, coadd_data in enumerate(coadd_data_list):
        exp = coadd_data['coadd_exp']
        noise_exp = coadd_data['coadd_noise_exp']
        mfrac_exp = coadd_data['coadd_mfrac_exp']

        ormasks.append(exp.mask.array.copy())
        exp.mask.array[:, :] = 0
        noise_exp.mask.array[:, :] = 0
        mfrac_exp.mask.array[:, :] = 0

        exps.append(exp)
        noise_exps.append(noise_exp)
        mfrac_exps.append(mfrac_exp)

    mbexp = get_mbexp(exps)
    noise_mbexp = get_mbexp(noise_exps)
    mfrac_mbexp = get_mbexp(mfrac_exps)

    return {
        'mbexp': mbexp,
        'noise_mbexp': noise_mbexp,
        'mfrac_mbexp': mfrac_mbexp,
        'ormasks': ormasks,
    }
""", """    ormasks = []
    all_exps = {'coadd_exp': [], 'coadd_noise_exp': [], 'coadd_mfrac_exp': []}
    for coadd_data in coadd_data_list:
        ormasks.append(coadd_data['coadd_exp'].mask.array.copy())
        for key, exps in all_exps.items():
            exp = coadd_data[key]
            exp.mask.array[:, :] = 0
            exps.append(exp)

    return {
        'mbexp': get_mbexp(all_exps['coadd_exp']),
        'noise_mbexp': get_mbexp(all_exps['coadd_noise_exp']),
        'mfrac_mbexp': get_mbexp(all_exps['coadd_mfrac_exp']),
        'ormasks': ormasks,
    }
""")]),
    ('u12-extract-obs-reorder', [(UT, """    orig_cen = source.getCentroid()

    psf_im = extract_psf_image(exposure=exp, orig_cen=orig_cen)

    # fake the psf pixel noise
    psf_err = psf_im.max() * 0.0001
    psf_wt = psf_im * 0 + 1.0 / psf_err**2

    # use canonical center for the psf
    psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0
    psf_jacob = jacob.copy()
    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])

    # we will have need of the bit names which we can only
    # get from the mask object
    # this is sort of monkey patching, but I'm not sure of
    # a better solution

    meta = {'orig_cen': orig_cen}

    psf_obs = ngmix.Observation(
        psf_im,
        weight=psf_wt,
        jacobian=psf_jacob,
    )
    obs = ngmix.Observation(
        im,
        weight=wt,
        bmask=bmask,
        jacobian=jacob,
        psf=psf_obs,
        meta=meta,
    )

    return obs
""", """    orig_cen = source.getCentroid()
    psf_im = extract_psf_image(exposure=exp, orig_cen=orig_cen)

    return ngmix.Observation(
        im,
        weight=wt,
        bmask=bmask,
        jacobian=jacob,
        psf=_make_centered_psf_obs(psf_im, jacob),
        meta=dict(orig_cen=orig_cen),
    )


def _make_centered_psf_obs(psf_im, jacob):
    # use canonical center for the psf
    row, col = [(n - 1.0) / 2.0 for n in psf_im.shape]
    psf_jacob = jacob.copy()
    psf_jacob.set_cen(row=row, col=col)

    # fake the psf pixel noise
    psf_err = psf_im.max() * 0.0001
    psf_wt = psf_im * 0 + 1.0 / psf_err**2
    return ngmix.Observation(psf_im, weight=psf_wt, jacobian=psf_jacob)
""")]),
    ('u12-deconv-comp', [(UT, """    exps = []
    for exp in mbexp.singles:
        res = task.run(
            exp,
            sources,
            band=exp.getFilter().bandLabel
        )
        exps.append(res.deconvolved)

    return get_mbexp(exps)
""", """    def deconvolve(exp):
        label = exp.getFilter().bandLabel
        return task.run(exp, sources, band=label).deconvolved

    return get_mbexp([deconvolve(exp) for exp in mbexp.singles])
""")]),
    ('u12-masks-module', [(UT, """    import lsst.afw.image as afw_image

    afw_image.Mask.addMaskPlane('BRIGHT')
    mask = ['EDGE', 'NO_DATA', 'BRIGHT']

    return mask
""", """    _add_bright_plane()
    return ['EDGE', 'NO_DATA', 'BRIGHT']


def _add_bright_plane():
    from lsst.afw.image import Mask

    Mask.addMaskPlane('BRIGHT')
""")]),
    ('u12-noise-replacers', [(UT, """        self.noise_replacers = []
        self.exit_stack = ExitStack()

        for exp in self.mbexp.singles:
            replacer = ContextNoiseReplacer(
                exposure=exp,
                sources=self.sources,
                rng=self.rng,
            )
            self.noise_replacers.append(replacer)
            self.exit_stack.enter_context(replacer)
""", """        self.exit_stack = ExitStack()
        self.noise_replacers = []

        for exp in self.mbexp.singles:
            self.noise_replacers.append(
                self.exit_stack.enter_context(
                    ContextNoiseReplacer(exp, self.sources, self.rng)
                )
            )
""")]),
    # model subtractor
    ('s12-source-image', [(MS, """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        exposures = [mbexp[band][bbox] for band in self.bands]
        # return MultibandExposure.fromExposures(self.bands, exposures)
        return util.get_mbexp(exposures)
""", """        mbexp = self._get_images(type)
        return util.get_mbexp([mbexp[band][bbox] for band in self.bands])

    def _get_images(self, type):
        return {'original': self.orig, 'deblended': self.mbexp}[type]
"""), (MS, """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        source = self.sources.find(source_id)
""", """        mbexp = self._get_images(type)
        source = self.sources.find(source_id)
""")]),
    ('s12-add-or-subtract', [(MS, """        mbexp = self.mbexp
        bbox = self.bboxes[source_id]
        heavy = self.heavies[source_id]

        for band in self.bands:

            if type == 'add':
                heavy[band].addTo(mbexp[band].image[bbox])
            else:
                heavy[band].subtractFrom(mbexp[band].image[bbox])
""", """        bbox = self.bboxes[source_id]
        heavies = self.heavies[source_id]
        adding = type == 'add'

        for band in self.bands:
            stamp = self.mbexp[band].image[bbox]
            heavy = heavies[band]
            operate = heavy.addTo if adding else heavy.subtractFrom
            operate(stamp)
""")]),
    ('s12-add-source-split', [(MS, """        self._add_or_subtract_source(source_id, 'add')
        # self._add_or_subtract_source_new(source_id, 'add')
        try:
            yield self.mbexp
        finally:
            self._add_or_subtract_source(source_id, 'subtract')
            # self._add_or_subtract_source_new(source_id, 'subtract')

    def _add_or_subtract_source(self, source_id, type):
        mbexp = self.mbexp
        bbox = self.bboxes[source_id]
        heavy = self.heavies[source_id]

        for band in self.bands:

            if type == 'add':
                heavy[band].addTo(mbexp[band].image[bbox])
            else:
                heavy[band].subtractFrom(mbexp[band].image[bbox])
""", """        self._add_source_model(source_id)
        try:
            yield self.mbexp
        finally:
            self._subtract_source_model(source_id)

    def _band_stamps(self, source_id):
        bbox = self.bboxes[source_id]
        heavy = self.heavies[source_id]
        for band in self.bands:
            yield heavy[band], self.mbexp[band].image[bbox]

    def _add_source_model(self, source_id):
        for heavy, image in self._band_stamps(source_id):
            heavy.addTo(image)

    def _subtract_source_model(self, source_id):
        for heavy, image in self._band_stamps(source_id):
            heavy.subtractFrom(image)

    def _add_or_subtract_source(self, source_id, type):
        if type == 'add':
            self._add_source_model(source_id)
        else:
            self._subtract_source_model(source_id)
""")]),
    ('s12-model-helper', [(MS, """        heavies = self.heavies

        heavy = heavies[source_id]

        exposures = []
        for band in self.bands:
            im = heavy[band].extractImage()
            masked_im = afw_image.MaskedImageF(im.clone())
            exp = afw_image.ExposureF(masked_im)
            exp.setFilter(afw_image.FilterLabel(band))
            exposures.append(exp)

        return util.get_mbexp(exposures)
""", """        heavy = self.heavies[source_id]
        return util.get_mbexp(
            [_make_model_exp(heavy[band], band) for band in self.bands]
        )
"""), (MS, """class ModelSubtractor(""", """def _make_model_exp(heavy, band):
    image = heavy.extractImage().clone()
    exp = afw_image.ExposureF(afw_image.MaskedImageF(image))
    exp.setFilter(afw_image.FilterLabel(band))
    return exp


class ModelSubtractor(""")]),
    ('s12-bbox-early', [(MS, """        if stamp_size is not None:
            fp = self.footprints[source_id]
            peak = fp.getPeaks()[0]

            # note""", """        fp = self.footprints[source_id]
        if stamp_size is None:
            return fp.getBBox()
        else:
            peak = fp.getPeaks()[0]

            # note"""), (MS, """                        f'Use clip=True to clip the bbox to fit'
                    )

        else:
            fp = self.footprints[source_id]
            bbox = fp.getBBox()

        return bbox
""", """                        f'Use clip=True to clip the bbox to fit'
                    )

        return bbox
""")]),
    ('s12-children', [(MS, """        for sid in self.child_ids():
            yield self.sources.find(sid)
""", """        yield from map(self.sources.find, self.child_ids())
"""), (MS, """        for sid in self.heavies:
            yield sid
""", """        yield from self.heavies
""")]),
    ('s12-full-model', [(MS, """        for sid, heavy in self.heavies.items():
            bbox = self.bboxes[sid]
            for band in self.bands:
                heavy[band].addTo(model[band].image[bbox])

        return model
""", """        for sid in self.heavies:
            self._add_to(model, sid)

        return model

    def _add_to(self, mbexp, sid):
        for band in self.bands:
            self.heavies[sid][band].addTo(mbexp[band].image[self.bboxes[sid]])
""")]),
    # fitting
    ('f12-list-wavg', [(FT, """    res = []
    for i, mbobs in enumerate(mbobs_list):

        _res = fit_mbobs_wavg(
            mbobs=mbobs,
            fitter=fitter,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            fwhm_reg=fwhm_reg,
            symmetrize=symmetrize,
        )
        res.append(_res)
""", """    opts = {
        'fitter': fitter,
        'bmask_flags': bmask_flags,
        'shear_bands': shear_bands,
        'fwhm_reg': fwhm_reg,
        'symmetrize': symmetrize,
    }
    res = [fit_mbobs_wavg(mbobs=mbobs, **opts) for mbobs in mbobs_list]
""")]),
    ('f12-wavg-comps', [(FT, """    nband = len(mbobs)
    all_res = []
    all_psf_res = []
    all_is_shear_band = []
    all_wgts = []
    all_flags = []

    if shear_bands is None:
        shear_bands = list(range(nband))

    if fitter.kind == 'am':
        assert len(mbobs) == 1, 'Use only one band for adaptive moments'

    for band in range(nband):
        all_is_shear_band.append(True if band in shear_bands else False)
        fres = _fit_obslist(
            obslist=mbobs[band],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        all_wgts.append(fres["wgt"])
        all_res.append(fres["obj_res"])
        all_psf_res.append(fres["psf_res"])
        all_flags.append(fres["flags"])
""", """    nband = len(mbobs)

    if shear_bands is None:
        shear_bands = range(nband)
    all_is_shear_band = [band in shear_bands for band in range(nband)]

    if fitter.kind == 'am':
        assert nband == 1, 'Use only one band for adaptive moments'

    fits = [
        _fit_obslist(
            obslist=obslist,
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        for obslist in mbobs
    ]
    all_wgts, all_res, all_psf_res, all_flags = (
        [fit[key] for fit in fits]
        for key in ("wgt", "obj_res", "psf_res", "flags")
    )
""")]),
    ('f12-sum-noband', [(FT, """        if all_wgt_res is not None:
            wgt_res = all_wgt_res[iband]
        else:
            wgt_res = None

        if issb:
""", """        wgt_res = None if all_wgt_res is None else all_wgt_res[iband]

        if issb:
"""), (FT, """            if (
                res is not None
                and MOMNAME+"_norm" in res
                and np.isfinite(res[MOMNAME+"_norm"])
            ):
                mom_norm = res[MOMNAME+"_norm"]
            else:
                mom_norm = 1.0
""", """            mom_norm = 1.0
            if res is not None and _has_finite_norm(res):
                mom_norm = res[MOMNAME+"_norm"]
"""), (FT, """                    if (
                        MOMNAME+"_norm" in res
                        and np.isfinite(res[MOMNAME+"_norm"])
                        and MOMNAME+"_norm" in wgt_res
                        and np.isfinite(wgt_res[MOMNAME+"_norm"])
                    ):
""", """                    if _has_finite_norm(res) and _has_finite_norm(wgt_res):
"""), (FT, """def _sum_bands_wavg(
""", """def _has_finite_norm(res):
    name = MOMNAME + "_norm"
    return name in res and np.isfinite(res[name])


def _sum_bands_wavg(
""")]),
    ('f12-sum-ratio-helper', [(FT, """            if (
                all_wgt_res is not None
                and wgt_res is not None
                and res is not None
                and MOMNAME in res
                and MOMNAME in wgt_res
            ):
                if res[MOMNAME][5] != 0:
                    if (
                        MOMNAME+"_norm" in res
                        and np.isfinite(res[MOMNAME+"_norm"])
                        and MOMNAME+"_norm" in wgt_res
                        and np.isfinite(wgt_res[MOMNAME+"_norm"])
                    ):
                        if wgt_res[MOMNAME+"_norm"] == 0:
                            flux_mom_ratio = 1.0
                            final_flags |= procflags.ZERO_WEIGHTS
                        else:
                            flux_mom_ratio = (
                                wgt_res[MOMNAME][5]
                                / wgt_res[MOMNAME+"_norm"]
                                / res[MOMNAME][5]
                                * res[MOMNAME+"_norm"]
                            )
                    else:
                        flux_mom_ratio = wgt_res[MOMNAME][5] / res[MOMNAME][5]
                else:
                    flux_mom_ratio = 1.0
                    final_flags |= procflags.ZERO_WEIGHTS
            else:
                # we do not flag zero weight here since this is a missing band
                # or missign moments or no flux weighting
                flux_mom_ratio = 1.0
""", """            flux_mom_ratio, ratio_flags = _get_flux_ratio(res, wgt_res)
            final_flags |= ratio_flags
"""), (FT, """def _sum_bands_wavg(
""", """def _get_flux_ratio(res, wgt_res):
    if (
        wgt_res is None or res is None
        or MOMNAME not in res or MOMNAME not in wgt_res
    ):
        # we do not flag zero weight here since this is a missing band
        # or missign moments or no flux weighting
        return 1.0, 0

    if res[MOMNAME][5] == 0:
        return 1.0, procflags.ZERO_WEIGHTS

    norm_name = MOMNAME+"_norm"
    for r in (res, wgt_res):
        if norm_name not in r or not np.isfinite(r[norm_name]):
            return wgt_res[MOMNAME][5] / res[MOMNAME][5], 0

    if wgt_res[norm_name] == 0:
        return 1.0, procflags.ZERO_WEIGHTS

    ratio = (
        wgt_res[MOMNAME][5]
        / wgt_res[norm_name]
        / res[MOMNAME][5]
        * res[norm_name]
    )
    return ratio, 0


def _sum_bands_wavg(
""")]),
    ('f12-prior', [(FT, """    T_prior = ngmix.priors.TwoSidedErf(
        minval=-10.0,
        width_at_min=0.03,
        maxval=1.0e6,
        width_at_max=1.0e5,
        rng=rng,
    )
    F_prior = ngmix.priors.TwoSidedErf(
        minval=-1.0e4,
        width_at_min=1.0,
        maxval=1.0e9,
        width_at_max=0.25e8,
        rng=rng,
    )
    F_prior = [F_prior] * nband
""", """    erf = ngmix.priors.TwoSidedErf
    T_prior = erf(
        minval=-10.0, width_at_min=0.03,
        maxval=1.0e6, width_at_max=1.0e5, rng=rng,
    )
    single_F_prior = erf(
        minval=-1.0e4, width_at_min=1.0,
        maxval=1.0e9, width_at_max=25e6, rng=rng,
    )
    F_prior = [single_F_prior for _ in range(nband)]
""")]),
    ('d12-do-metadetect', [(MD, """    md = Metadetect(
        config, mbobs, rng,
        shear_band_combs=shear_band_combs,
        color_key_func=color_key_func,
        color_dep_mbobs=color_dep_mbobs,
        det_band_combs=det_band_combs,
    )
    md.go()
""", """    options = {
        'shear_band_combs': shear_band_combs,
        'det_band_combs': det_band_combs,
        'color_key_func': color_key_func,
        'color_dep_mbobs': color_dep_mbobs,
    }
    md = Metadetect(config=config, mbobs=mbobs, rng=rng, **options)
    md.go()
""")]),
    ('l12-run-config', [(LM, """    config_override = config if config is not None else {}
    config = MetadetectConfig()
    config.setDefaults()

    util.override_config(config, config_override)

    config.freeze()
    config.validate()
    task = MetadetectTask(config=config)
    return task.run(
        mbexp,
        noise_mbexp,
        rng,
        mfrac_mbexp,
        ormasks,
        show=show,
        get_psf_stats=get_psf_stats,
    )
""", """    task = MetadetectTask(config=_build_config(config))
    return task.run(
        mbexp=mbexp,
        noise_mbexp=noise_mbexp,
        rng=rng,
        mfrac_mbexp=mfrac_mbexp,
        ormasks=ormasks,
        show=show,
        get_psf_stats=get_psf_stats,
    )


def _build_config(override):
    full_config = MetadetectConfig()
    full_config.setDefaults()
    util.override_config(full_config, {} if override is None else override)
    full_config.freeze()
    full_config.validate()
    return full_config
""")]),
]
