"""hand-made refactorings of metadetect/lsst/util.py and other lsst modules: second set"""
UT = 'metadetect/lsst/util.py'
REFS = [
    ('u7-heavy-helper', [(UT, """        footprints = {}
        for source in sources:
            parent_id = source.getParent()
            fp = source.getFootprint()
            heavy = afw_det.makeHeavyFootprint(fp, exposure.maskedImage)
            footprints[source.getId()] = (parent_id, heavy)
""", """        def heavy(source):
            return afw_det.makeHeavyFootprint(
                source.getFootprint(), exposure.maskedImage,
            )

        footprints = {
            source.getId(): (source.getParent(), heavy(source))
            for source in sources
        }
""")]),
    ('u7-inserted-try', [(UT, """        self.insertSource(source_id)

        try:
            # usually won't use this yielded value
            yield self.mbexp
        finally:
            self.removeSource(source_id)
""", """        for replacer in self.noise_replacers:
            replacer.insertSource(source_id)

        try:
            # usually won't use this yielded value
            yield self.mbexp
        finally:
            for replacer in self.noise_replacers:
                replacer.removeSource(source_id)
""")]),
    ('u7-enter-context-value', [(UT, """            replacer = ContextNoiseReplacer(
                exposure=exp,
                sources=self.sources,
                rng=self.rng,
            )
            self.noise_replacers.append(replacer)
            self.exit_stack.enter_context(replacer)
""", """            replacer = ContextNoiseReplacer(exp, self.sources, self.rng)
            self.exit_stack.enter_context(replacer)
            self.noise_replacers.append(replacer)
""")]),
    ('u7-noise-init-order', [(UT, """        self.noise_replacers = []
        self.exit_stack = ExitStack()

        for exp in""", """        stack = ExitStack()
        replacers = []
        self.exit_stack = stack
        self.noise_replacers = replacers

        for exp in""")]),
    ('u7-noise-image-var', [(UT, """        corrected_var = variance[use] - signal[use] / mean_gain

        var = np.median(corrected_var)
    else:
        var = np.median(variance[use])

    noise =""", """        use_var = variance[use] - signal[use] / mean_gain
    else:
        use_var = variance[use]

    var = np.median(use_var)
    noise =""")]),
    ('u7-noise-image-mask', [(UT, """    use = np.where(np.isfinite(variance) & np.isfinite(signal))

    if remove""", """    use = np.isfinite(signal) & np.isfinite(variance)

    if remove""")]),
    ('u7-noise-image-order', [(UT, """    noise = rng.normal(scale=np.sqrt(var), size=signal.shape)

    noise_exp.image.array[:, :] = noise
    noise_exp.variance.array[:, :] = var
""", """    noise_exp.variance.array[:, :] = var
    noise_exp.image.array[:, :] = rng.normal(
        loc=0.0, scale=np.sqrt(var), size=exp.image.array.shape,
    )
""")]),
    ('u7-gains-sum', [(UT, """        gains = [amp.getGain() for amp in exp.getDetector().getAmplifiers()]
        mean_gain = np.mean(gains)
""", """        gains = []
        for amp in exp.getDetector().getAmplifiers():
            gains.append(amp.getGain())
        mean_gain = np.mean(gains)
""")]),
    ('u7-stamp-helper', [(UT, """    mbobs = ngmix.MultiBandObsList()
    for band in mbexp.bands:
        subexp = mbexp[band][bbox]
        obs = extract_obs(exp=subexp, source=source)

        obslist = ngmix.ObsList(meta={'band': band})
        obslist.append(obs)
        mbobs.append(obslist)

    return mbobs
""", """    mbobs = ngmix.MultiBandObsList()
    for band in mbexp.bands:
        mbobs.append(_get_stamp_obslist(mbexp[band], band, bbox, source))

    return mbobs


def _get_stamp_obslist(exp, band, bbox, source):
    obslist = ngmix.ObsList(meta={'band': band})
    obslist.append(extract_obs(exp=exp[bbox], source=source))
    return obslist
""")]),
    ('u7-bbox-elif', [(UT, """    exp_bbox = mbexp.getBBox()
    if clip:
        bbox.clip(exp_bbox)
    else:
        if not exp_bbox.contains(bbox):
            source_id = source.getId()
            raise LengthError(
                f'requested stamp size {stamp_size} for source '
                f'{source_id} does not fit into the exposoure.  '
                f'Use clip=True to clip the bbox to fit'
            )

    return bbox
""", """    exp_bbox = mbexp.getBBox()
    if clip:
        bbox.clip(exp_bbox)
        return bbox

    if exp_bbox.contains(bbox):
        return bbox

    raise LengthError(
        f'requested stamp size {stamp_size} for source '
        f'{source.getId()} does not fit into the exposoure.  '
        f'Use clip=True to clip the bbox to fit'
    )
""")]),
    ('u7-bbox-point', [(UT, """    fp = source.getFootprint()
    peak = fp.getPeaks()[0]

    x_peak, y_peak = peak.getIx(), peak.getIy()

    bbox = geom.Box2I(
        geom.Point2I(x_peak, y_peak),
        geom.Extent2I(1, 1),
    )
    bbox.grow(stamp_size // 2)
""", """    peak = source.getFootprint().getPeaks()[0]
    corner = geom.Point2I(peak.getIx(), peak.getIy())
    radius = stamp_size // 2

    bbox = geom.Box2I(corner, geom.Extent2I(1, 1))
    bbox.grow(radius)
""")]),
    ('u7-copy-mbexp-band', [(UT, """    # clone does not copy the psfs
    for band in mbexp.bands:
        psf = try_clone_psf(mbexp[band].getPsf())
        new_mbexp[band].setPsf(psf)
""", """    # clone does not copy the psfs
    for band in mbexp.bands:
        old, new = mbexp[band], new_mbexp[band]
        new.setPsf(try_clone_psf(old.getPsf()))
""")]),
    ('u7-copy-mbexp-meta', [(UT, """    for new_exp, exp in zip(new_mbexp.singles, mbexp.singles):
        new_exp.setFilter(exp.getFilter())
        new_exp.setWcs(exp.getWcs())
""", """    for i, exp in enumerate(mbexp.singles):
        new_exp = new_mbexp.singles[i]
        new_exp.setWcs(exp.getWcs())
        new_exp.setFilter(exp.getFilter())
""")]),
    ('u7-mbexp-meta-helper', [(UT, """    for exp, sexp in zip(exposures, mbexp.singles):
        sexp.setFilter(exp.getFilter())
        sexp.setWcs(exp.getWcs())

    return mbexp
""", """    _copy_filter_and_wcs(exposures, mbexp.singles)

    return mbexp


def _copy_filter_and_wcs(from_exps, to_exps):
    for from_exp, to_exp in zip(from_exps, to_exps):
        to_exp.setFilter(from_exp.getFilter())
        to_exp.setWcs(from_exp.getWcs())
"""), (UT, """    for new_exp, exp in zip(new_mbexp.singles, mbexp.singles):
        new_exp.setFilter(exp.getFilter())
        new_exp.setWcs(exp.getWcs())
""", """    _copy_filter_and_wcs(mbexp.singles, new_mbexp.singles)
""")]),
    ('u7-try-clone-else', [(UT, """    try:
        new_psf = psf.clone()
    except RuntimeError:
        # this happens on some psfs, not sure why
        # proceed without a copy
        new_psf = psf

    return new_psf
""", """    try:
        return psf.clone()
    except RuntimeError:
        # this happens on some psfs, not sure why
        # proceed without a copy
        return psf
""")]),
    ('u7-coadd-setup-outside', [(UT, """    fac = 1.0 / wsum

    coadd_exp.image.array[:, :] *= fac

    # the psf is always normalized
    psf_im *= 1.0 / psf_im.sum()

    coadd_exp.variance.array[:, :] = np.inf
    w = np.where(weight > 0)
    coadd_exp.variance.array[w] = 1 / weight[w]

    coadd_psf = get_stack_kernel_psf(psf_im)
    coadd_exp.setPsf(coadd_psf)
""", """    coadd_exp.image.array[:, :] *= 1.0 / wsum

    coadd_exp.variance.array[:, :] = np.inf
    msk = weight > 0
    coadd_exp.variance.array[msk] = 1 / weight[msk]

    # the psf is always normalized
    psf_im *= 1.0 / psf_im.sum()
    coadd_exp.setPsf(get_stack_kernel_psf(psf_im))
""")]),
    ('u7-coadd-if-some', [(UT, """        w = np.where(exp.variance.array > 0)
        if w[0].size == 0:
            # no usable pixels, this one gets no weight
            continue

        medvar = np.median(exp.variance.array[w])
        this_weight = 1.0 / medvar

        coadd_exp.image.array[w] += exp.image.array[w] * this_weight
        psf_im += this_psfim * this_weight

        weight[w] += 1.0 / exp.variance.array[w]

        wsum += this_weight
""", """        w = np.where(exp.variance.array > 0)
        # when there are no usable pixels, this one gets no weight
        if w[0].size > 0:
            use_var = exp.variance.array[w]
            this_weight = 1.0 / np.median(use_var)

            coadd_exp.image.array[w] += exp.image.array[w] * this_weight
            weight[w] += 1.0 / use_var
            psf_im += this_psfim * this_weight

            wsum += this_weight
""")]),
    ('u7-coadd-first-none', [(UT, """    wsum = 0.0

    for i, exp in enumerate(exposures):
        shape = exp.image.array.shape
""", """    wsum = 0.0
    coadd_exp = None

    for exp in exposures:
        shape = exp.image.array.shape
"""), (UT, """        if i == 0:
            coadd_exp = afw_image""", """        if coadd_exp is None:
            coadd_exp = afw_image""")]),
    ('u7-mbobs-first-none', [(UT, """    meta = {}
    for i, obslist in enumerate(mbobs):
        obs = obslist[0]
        meta.update(obs.meta)

        shape = obs.image.shape

        if i == 0:
            coadd_image = np.zeros(shape, dtype='f4')
            coadd_weight = np.zeros(shape, dtype='f4')

            coadd_psf = np.zeros(obs.psf.image.shape)
""", """    first = mbobs[0][0]
    coadd_image = np.zeros(first.image.shape, dtype='f4')
    coadd_weight = np.zeros(first.image.shape, dtype='f4')
    coadd_psf = np.zeros(first.psf.image.shape)

    meta = {}
    for obslist in mbobs:
        obs = obslist[0]
        meta.update(obs.meta)
""")]),
    ('u7-mbobs-norm', [(UT, """    fac = 1.0 / wsum

    coadd_image[:, :] *= fac

    # the psf is always normalized
    coadd_psf *= 1.0 / coadd_psf.sum()

    # use the jacobians from the last obs
""", """    # the psf is always normalized
    coadd_psf /= coadd_psf.sum()
    coadd_image[:, :] /= wsum

    # use the jacobians from the last obs
""")]),
    ('u7-mbobs-psf-weight', [(UT, """    fake_noise = coadd_psf.max() / 1.0e6
    psf_weight = np.zeros(coadd_psf.shape)
    psf_weight += 1.0 / fake_noise**2
""", """    fake_noise = coadd_psf.max() / 1.0e6
    psf_weight = np.full(coadd_psf.shape, 1.0 / fake_noise**2)
""")]),
    ('u7-trim-guard', [(UT, """    dims = im.shape
    if dims[0] != dims[1]:
        logger.debug""", """    dims = im.shape
    if dims[0] == dims[1]:
        new_im = im
    else:
        logger.debug"""), (UT, """        logger.debug('new dims: %s' % str(new_im.shape))

    else:
        new_im = im

    return new_im
""", """        logger.debug('new dims: %s' % str(new_im.shape))

    return new_im
""")]),
    ('u7-trim-unpack', [(UT, """        distances = (
            cen[0] - 0,
            dims[0] - cen[0] - 1,
            cen[1] - 0,
            dims[1] - cen[1] - 1,
        )
        logger.debug('distances: %s' % str(distances))
        min_dist = min(distances)

        start_row = cen[0] - min_dist
        end_row = cen[0] + min_dist
        start_col = cen[1] - min_dist
        end_col = cen[1] + min_dist
""", """        row, col = cen[0], cen[1]
        distances = (
            row,
            dims[0] - row - 1,
            col,
            dims[1] - col - 1,
        )
        logger.debug('distances: %s' % str(distances))
        min_dist = min(distances)

        start_row, end_row = row - min_dist, row + min_dist
        start_col, end_col = col - min_dist, col + min_dist
""")]),
    ('u7-obs2exp-mask-first', [(UT, """    if exp is None:
        ny, nx = obs.image.shape
        exp = afw_image.ExposureF(nx, ny)

    exp.image.array[:, :] = obs.image

    exp.variance.array[:, :] = np.inf

    if copy_mask_from == 'bmask':
        mask = obs.bmask
    elif copy_mask_from == 'ormask':
        mask = obs.ormask
    else:
        raise RuntimeError(
            f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
        )
    exp.mask.array[:, :] = mask

    w = np""", """    if exp is None:
        ny, nx = obs.image.shape
        exp = afw_image.ExposureF(nx, ny)

    exp.image.array[:, :] = obs.image
    exp.variance.array[:, :] = np.inf

    if copy_mask_from not in ('bmask', 'ormask'):
        raise RuntimeError(
            f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
        )

    if copy_mask_from == 'ormask':
        exp.mask.array[:, :] = obs.ormask
    else:
        exp.mask.array[:, :] = obs.bmask

    w = np""")]),
    ('u7-obs2exp-stack-psf', [(UT, """        psf_image = obs.psf.image
        stack_psf = KernelPsf(
            FixedKernel(afw_image.ImageD(psf_image.astype(float)))
        )
        exp.setPsf(stack_psf)
""", """        exp.setPsf(get_stack_kernel_psf(obs.psf.image))
""")]),
    ('u7-obs2exp-var', [(UT, """    w = np.where(obs.weight > 0)
    exp.variance.array[w] = 1.0 / obs.weight[w]

    if copy_psf""", """    good = obs.weight > 0
    var = exp.variance.array
    var[good] = 1.0 / obs.weight[good]

    if copy_psf""")]),
    ('u7-exp2obs-masks', [(UT, """    if copy_mask_to == 'ormask':
        ormask = exp.mask.array
        bmask = ormask * 0
    elif copy_mask_to == 'bmask':
        bmask = exp.mask.array
        ormask = bmask * 0
    else:""", """    mask = exp.mask.array
    if copy_mask_to == 'ormask':
        ormask, bmask = mask, mask * 0
    elif copy_mask_to == 'bmask':
        ormask, bmask = mask * 0, mask
    else:""")]),
    ('u7-exp2obs-meta', [(UT, """    meta = {}
    if store_exp:
        meta['exposure'] = exp

    return""", """    meta = {'exposure': exp} if store_exp else {}

    return""")]),
    ('u7-exp2obs-psf-helper', [(UT, """    psf_jac = jac.copy()
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err = psf_image.max() * 0.0001
    psf_weight = psf_image * 0 + 1.0 / psf_err**2

    psf_obs = ngmix.Observation(
        image=psf_image,
        weight=psf_weight,
        jacobian=psf_jac,
    )

    if copy""", """    psf_obs = _make_psf_obs(psf_image, jac, psf_cen)

    if copy"""), (UT, """def get_jacobian(exp, cen):
""", """def _make_psf_obs(psf_image, jac, cen):
    row, col = cen
    psf_jac = jac.copy()
    psf_jac.set_cen(row=row, col=col)

    # fake the psf pixel noise
    psf_err = psf_image.max() * 0.0001

    return ngmix.Observation(
        psf_image,
        weight=psf_image * 0 + 1.0 / psf_err**2,
        jacobian=psf_jac,
    )


def get_jacobian(exp, cen):
"""), (UT, """    psf_jacob = jacob.copy()
    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])

""", ''), (UT, """    psf_obs = ngmix.Observation(
        psf_im,
        weight=psf_wt,
        jacobian=psf_jacob,
    )
""", """    psf_obs = _make_psf_obs(psf_im, jacob, psf_cen)
"""), (UT, """    psf_err = psf_im.max() * 0.0001
    psf_wt = psf_im * 0 + 1.0 / psf_err**2
""", '')]),
    ('u7-jacobian-offsets', [(UT, """    relative_cen = cen - geom.Extent2D(xy0)

    # ESS""", """    offset = geom.Extent2D(xy0)
    relative_cen = cen - offset
    dvdx, dvdy = matrix[0, 1], -matrix[0, 0]
    dudx, dudy = matrix[1, 1], -matrix[1, 0]

    # ESS"""), (UT, """        dudx=matrix[1, 1],
        dudy=-matrix[1, 0],
        dvdx=matrix[0, 1],
        dvdy=-matrix[0, 0],
""", """        dudx=dudx,
        dudy=dudy,
        dvdx=dvdx,
        dvdy=dvdy,
""")]),
    ('u7-integer-center', [(UT, """    pixcen = Point2I(bbox.getCenter())
    skycen = wcs.pixelToSky(Point2D(pixcen))

    if as_double:
        pixcen = Point2D(pixcen)

    return pixcen, skycen
""", """    pixcen = Point2I(bbox.getCenter())
    pixcen_double = Point2D(pixcen)
    skycen = wcs.pixelToSky(pixcen_double)

    if as_double:
        return pixcen_double, skycen

    return pixcen, skycen
""")]),
    ('u7-coadd-data-comp', [(UT, """    mbexp = get_mbexp(exps)
    noise_mbexp = get_mbexp(noise_exps)
    mfrac_mbexp = get_mbexp(mfrac_exps)

    return {
        'mbexp': mbexp,
        'noise_mbexp': noise_mbexp,
        'mfrac_mbexp': mfrac_mbexp,
        'ormasks': ormasks,
    }
""", """    return dict(
        mbexp=get_mbexp(exps),
        noise_mbexp=get_mbexp(noise_exps),
        mfrac_mbexp=get_mbexp(mfrac_exps),
        ormasks=ormasks,
    )
""")]),
    ('u7-coadd-data-zero-loop', [(UT, """        exp.mask.array[:, :] = 0
        noise_exp.mask.array[:, :] = 0
        mfrac_exp.mask.array[:, :] = 0

""", """        for this_exp in (exp, noise_exp, mfrac_exp):
            this_exp.mask.array[:, :] = 0

""")]),
    ('u7-coadd-data-keys', [(UT, """    exps = []
    noise_exps = []
    mfrac_exps = []
    ormasks = []
    for band, coadd_data in enumerate(coadd_data_list):
        exp = coadd_data['coadd_exp']
        noise_exp = coadd_data['coadd_noise_exp']
        mfrac_exp = coadd_data['coadd_mfrac_exp']

        ormasks.append(exp.mask.array.copy())
        exp.mask.array[:, :] = 0
        noise_exp.mask.array[:, :] = 0
        mfrac_exp.mask.array[:, :] = 0

        exps.append(exp)
        noise_exps.append(noise_exp)
        mfrac_exps.append(mfrac_exp)
""", """    exps = [data['coadd_exp'] for data in coadd_data_list]
    noise_exps = [data['coadd_noise_exp'] for data in coadd_data_list]
    mfrac_exps = [data['coadd_mfrac_exp'] for data in coadd_data_list]

    ormasks = []
    for exp, noise_exp, mfrac_exp in zip(exps, noise_exps, mfrac_exps):
        ormasks.append(exp.mask.array.copy())
        exp.mask.array[:, :] = 0
        noise_exp.mask.array[:, :] = 0
        mfrac_exp.mask.array[:, :] = 0
""")]),
    ('u7-obs-any-weight', [(UT, """    if np.all(wt <= 0):
        raise AllZero""", """    if not np.any(wt > 0):
        raise AllZero""")]),
    ('u7-obs-wt-order', [(UT, """    im = exp.image.array

    wt = _extract_weight(exp)
    if np.all(wt <= 0):
        raise AllZeroWeightError('all weights <= 0')

    bmask = exp.mask.array
    jacob = _extract_jacobian_at_source(
        exp=exp,
        source=source,
    )

    orig_cen = source.getCentroid()
""", """    wt = _extract_weight(exp)
    if (wt <= 0).all():
        raise AllZeroWeightError('all weights <= 0')

    im, bmask = exp.image.array, exp.mask.array
    orig_cen = source.getCentroid()
    jacob = _extract_jacobian_at_source(exp, source)
""")]),
    ('u7-deconv-comp', [(UT, """    exps = []
    for exp in mbexp.singles:
        res = task.run(
            exp,
            sources,
            band=exp.getFilter().bandLabel
        )
        exps.append(res.deconvolved)

    return get_mbexp(exps)
""", """    return get_mbexp([
        task.run(exp, sources, band=exp.getFilter().bandLabel).deconvolved
        for exp in mbexp.singles
    ])
""")]),
    ('u7-psf-image-helper', [(UT, """    try:
        psfobj = exposure.getPsf()
        psfim = psfobj.computeKernelImage(orig_cen).array
    except InvalidParameterError:
        raise MissingDataError("could not reconstruct PSF")

    psfim = np.asarray(psfim, dtype='f4')

    shape = psfim.shape
""", """    psfim = _draw_psf_image(exposure, orig_cen)

    shape = psfim.shape
"""), (UT, """def _extract_psf_image_fix(exposure, orig_cen):
""", """def _draw_psf_image(exposure, orig_cen):
    try:
        psfobj = exposure.getPsf()
        psfim = psfobj.computeKernelImage(orig_cen).array
    except InvalidParameterError:
        raise MissingDataError("could not reconstruct PSF")

    return np.asarray(psfim, dtype='f4')


def _extract_psf_image_fix(exposure, orig_cen):
""")]),
    ('u7-psf-shape', [(UT, """    shape = psfim.shape
    assert shape[0] == shape[1], 'require square psf images'
    assert shape[0] % 2 != 0, 'require odd psf images'

    return psfim
""", """    nrow, ncol = psfim.shape
    assert nrow == ncol, 'require square psf images'
    assert nrow % 2 == 1, 'require odd psf images'

    return psfim
""")]),
    ('u7-weight-full', [(UT, """    weight = var_image.copy()

    weight[:, :] = 0

    wuse = np.where(var_image > 0)

    if wuse[0].size > 0:
        medvar = np.median(var_image[wuse])
        weight[:, :] = 1.0 / medvar
    else:
        print('    weight is all zero, found none that passed cuts')

    return weight
""", """    wuse = np.where(var_image > 0)
    if wuse[0].size == 0:
        print('    weight is all zero, found none that passed cuts')
        return np.zeros_like(var_image)

    weight = np.zeros_like(var_image)
    weight[:, :] = 1.0 / np.median(var_image[wuse])
    return weight
""")]),
    ('u7-jac-source-early', [(UT, """    if np.isnan(orig_cen.getY()):
        # fall back to integer pixel location
        peak = source.getFootprint().getPeaks()[0]
        orig_cen_i = peak.getI()
        orig_cen = geom.Point2D(
            x=orig_cen_i.getX(),
            y=orig_cen_i.getY(),
        )

    return get_jacobian(exp, orig_cen)
""", """    if not np.isnan(orig_cen.getY()):
        return get_jacobian(exp=exp, cen=orig_cen)

    # fall back to integer pixel location
    peak_cen = source.getFootprint().getPeaks()[0].getI()
    cen = geom.Point2D(x=peak_cen.getX(), y=peak_cen.getY())
    return get_jacobian(exp=exp, cen=cen)
""")]),
    ('u7-override-not', [(UT, """        if isinstance(value, dict):
            subconfig = getattr(config, key)
            # Use recursion to allow for arbitrarily nested config objects.
            override_config(subconfig, value)
        else:
            setattr(config, key, value)
""", """        if not isinstance(value, dict):
            setattr(config, key, value)
            continue

        # Use recursion to allow for arbitrarily nested config objects.
        override_config(getattr(config, key), value)
""")]),
    ('u7-fitter-table', [(UT, """        fwhm = config['weight']['fwhm']

        if meas_type == 'wmom':
            fitter = ngmix.gaussmom.GaussMom(fwhm=fwhm)
        else:
            if meas_type == 'ksigma':
                fitter = ngmix.ksigmamom.KSigmaMom(fwhm=fwhm)
            elif meas_type == 'pgauss':
                fitter = ngmix.prepsfmom.PGaussMom(fwhm=fwhm)
            else:
                raise ValueError("bad meas_type: '%s'" % meas_type)

    return fitter
""", """        fwhm = config['weight']['fwhm']

        if meas_type == 'wmom':
            cls = ngmix.gaussmom.GaussMom
        elif meas_type == 'ksigma':
            cls = ngmix.ksigmamom.KSigmaMom
        elif meas_type == 'pgauss':
            cls = ngmix.prepsfmom.PGaussMom
        else:
            raise ValueError("bad meas_type: '%s'" % meas_type)

        fitter = cls(fwhm=fwhm)

    return fitter
""")]),
    ('u7-fitter-am-helper', [(UT, """    if meas_type == 'am':
        fitter_obj = ngmix.admom.AdmomFitter(rng=rng)
        guesser = ngmix.guessers.GMixPSFGuesser(
            rng=rng,
            ngauss=1,
            guess_from_moms=True,
        )
        fitter = ngmix.runners.Runner(
            fitter=fitter_obj,
            guesser=guesser,
            ntry=2,
        )
        # TODO is there a better way?
        fitter.kind = 'am'
""", """    if meas_type == 'am':
        fitter = _get_am_fitter(rng)
"""), (UT, """class AllZeroWeightError(Exception):
""", """def _get_am_fitter(rng):
    fitter_obj = ngmix.admom.AdmomFitter(rng=rng)
    guesser = ngmix.guessers.GMixPSFGuesser(
        rng=rng,
        ngauss=1,
        guess_from_moms=True,
    )
    fitter = ngmix.runners.Runner(
        fitter=fitter_obj,
        guesser=guesser,
        ntry=2,
    )
    # TODO is there a better way?
    fitter.kind = 'am'
    return fitter


class AllZeroWeightError(Exception):
""")]),
    ('u7-shear-bands-missing', [(UT, """    shear_band_names = config["shear_bands"] or mbexp.bands

    if not all([sb in mbexp.bands for sb in shear_band_names]):
        raise""", """    shear_band_names = config["shear_bands"] or mbexp.bands

    missing = [sb for sb in shear_band_names if sb not in mbexp.bands]
    if len(missing) > 0:
        raise""")]),
    ('u7-shear-bands-loop', [(UT, """    shear_band_indices = [
        i for i, band in enumerate(mbexp.bands)
        if band in shear_band_names
    ]

    return shear_band_indices""", """    shear_band_indices = []
    for i in range(len(mbexp.bands)):
        if mbexp.bands[i] in shear_band_names:
            shear_band_indices.append(i)

    return shear_band_indices""")]),
    ('u7-shear-bands-ite', [(UT, """    shear_band_names = config["shear_bands"] or mbexp.bands
""", """    shear_band_names = config["shear_bands"]
    if not shear_band_names:
        shear_band_names = mbexp.bands
""")]),
    ('u7-stats-mask', [(UT, """    stats_mask = [
        'BAD',
        'EDGE',
        'DETECTED',
        'DETECTED_NEGATIVE',
        'NO_DATA',
        'BRIGHT',
    ]

    return stats_mask
""", """    stats_mask = ['BAD', 'EDGE']
    stats_mask += ['DETECTED', 'DETECTED_NEGATIVE']
    stats_mask += ['NO_DATA', 'BRIGHT']

    return stats_mask
""")]),
]
