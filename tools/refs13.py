"""Refactorings of functions the earlier sets touched least (second round)."""
FT = 'metadetect/fitting.py'
UT = 'metadetect/lsst/util.py'
MK = 'metadetect/masking.py'
SP = 'metadetect/shearpos.py'
MS = 'metadetect/lsst/model_subtractor.py'
LM = 'metadetect/lsst/metadetect.py'
ME = 'metadetect/lsst/measure.py'
MC = 'metadetect/lsst/metacal_exposures.py'
SK = 'metadetect/lsst/skysub.py'
MD = 'metadetect/metadetect.py'
PF = 'metadetect/procflags.py'

REFS = [
    ('a13-domdet-named', [(MD, """    md = Metadetect(
        config, mbobs, rng,
        shear_band_combs=shear_band_combs,
        color_key_func=color_key_func,
        color_dep_mbobs=color_dep_mbobs,
        det_band_combs=det_band_combs,
    )
    md.go()
    return md.result
""", """    options = dict(
        det_band_combs=det_band_combs,
        shear_band_combs=shear_band_combs,
        color_key_func=color_key_func,
        color_dep_mbobs=color_dep_mbobs,
    )
    fitter = Metadetect(config=config, mbobs=mbobs, rng=rng, **options)
    fitter.go()
    result = fitter.result
    return result
""")]),
    ('b13-allmcal-return-in-try', [(MD, """        t0 = time.time()
        try:
            odict = ngmix.metacal.get_all_metacal(
                mbobs,
                rng=self.rng,
                **self['metacal']
            )
        except BootPSFFailure:
            odict = None
        logger.info("metacal took %s seconds", time.time() - t0)

        if self._show and odict is not None:
            import descwl_coadd.vis

            orig_mbobs = mbobs

            for mtype, mbobs in odict.items():
                for band in range(len(mbobs)):

                    obslist = mbobs[band]
                    orig_obslist = orig_mbobs[band]

                    for iobs in range(len(obslist)):
                        obs = obslist[iobs]
                        orig_obs = orig_obslist[iobs]

                        descwl_coadd.vis.show_images(
                            [
                                obs.image,
                                obs.bmask,
                                obs.weight,
                                orig_obs.noise,
                            ],
                            title=mtype,
                        )

        return odict
""", """        start = time.time()
        odict = self._try_metacal(mbobs)
        logger.info("metacal took %s seconds", time.time() - start)

        if odict is None or not self._show:
            return odict

        import descwl_coadd.vis

        for mtype, mcal_mbobs in odict.items():
            for obslist, orig_obslist in zip(mcal_mbobs, mbobs):
                for obs, orig_obs in zip(obslist, orig_obslist):
                    planes = [obs.image, obs.bmask, obs.weight, orig_obs.noise]
                    descwl_coadd.vis.show_images(planes, title=mtype)

        return odict

    def _try_metacal(self, mbobs):
        kw = self['metacal']
        try:
            return ngmix.metacal.get_all_metacal(mbobs, rng=self.rng, **kw)
        except BootPSFFailure:
            return None
""")]),
    ('c13-fg-apod-helper', [(MK, """    ap_mask = np.ones(dims, dtype='f8')
    _do_apodization_mask(
        rows=ym.astype('f8'),
        cols=xm.astype('f8'),
        radius_pixels=rm.astype('f8'),
        ap_mask=ap_mask,
        ap_rad=ap_rad,
    )

    if symmetrize:
        ap_mask *= np.rot90(ap_mask)

    return ap_mask
""", """    holes = _native_holes(xm, ym, rm)
    ap_mask = np.ones(shape=dims, dtype=np.float64)
    _do_apodization_mask(ap_mask=ap_mask, ap_rad=ap_rad, **holes)

    if not symmetrize:
        return ap_mask

    ap_mask *= np.rot90(ap_mask)
    return ap_mask
"""), (MK, """def make_foreground_apodization_mask(
""", """def _native_holes(xm, ym, rm):
    return {
        'cols': xm.astype('f8'),
        'rows': ym.astype('f8'),
        'radius_pixels': rm.astype('f8'),
    }


def make_foreground_apodization_mask(
"""), (MK, """    bmask = np.zeros(dims, dtype='i4')
    _do_mask_foreground(
        rows=ym.astype('f8'),
        cols=xm.astype('f8'),
        radius_pixels=rm.astype('f8'),
        bmask=bmask,
        flag=mask_bit_val,
    )
""", """    bmask = np.zeros(dims, dtype='i4')
    _do_mask_foreground(bmask=bmask, flag=mask_bit_val, **_native_holes(xm, ym, rm))
""")]),
    ('d13-ap-range', [(MK, """    return int(6*ap_rad + 0.5)
""", """    nap = 0.5 + ap_rad * 6
    return int(nap)
""")]),
    ('e13-obj-runner', [(FT, """    prior = _make_ml_prior(rng, scale, nband)

    fitter = ngmix.fitting.Fitter(
        model='gauss',
        prior=prior,
        fit_pars={
            "maxfev": 2000,
            "xtol": 5.0e-5,
            "ftol": 5.0e-5,
        },
    )
    guesser = ngmix.guessers.TPSFFluxGuesser(
        rng=rng,
        T=0.25,
        prior=prior,
    )
    runner = Runner(
        fitter=fitter,
        guesser=guesser,
        ntry=2,
    )

    return runner
""", """    prior = _make_ml_prior(nband=nband, scale=scale, rng=rng)
    tol = 5.0e-5
    fit_pars = dict(maxfev=2000, xtol=tol, ftol=tol)

    return Runner(
        guesser=ngmix.guessers.TPSFFluxGuesser(T=0.25, rng=rng, prior=prior),
        fitter=ngmix.fitting.Fitter('gauss', prior=prior, fit_pars=fit_pars),
        ntry=2,
    )
""")]),
    ('f13-psf-runner', [(FT, """    psf_guesser = SimplePSFGuesser(
        rng=rng,
        guess_from_moms=True,
    )
    psf_fitter = Fitter(
        model="gauss",
        fit_pars={
            "maxfev": 2000,
            "xtol": 1.0e-5,
            "ftol": 1.0e-5,
        },
    )
    psf_runner = PSFRunner(
        fitter=psf_fitter,
        guesser=psf_guesser,
        ntry=2,
    )
    return psf_runner
""", """    lm_pars = {"maxfev": 2000}
    for name in ("xtol", "ftol"):
        lm_pars[name] = 1.0e-5
    parts = {
        "fitter": Fitter(model="gauss", fit_pars=lm_pars),
        "guesser": SimplePSFGuesser(rng=rng, guess_from_moms=True),
    }
    return PSFRunner(ntry=2, **parts)
""")]),
    ('g13-all-psfs-helper', [(FT, """    for obslist in mbobs:
        assert len(obslist) == 1, 'metadetect is not multi-epoch'

        obs = obslist[0]
        runner.go(obs=obs)

        flags = obs.psf.meta['result']['flags']
        if flags != 0:
            raise BootPSFFailure("failed to measure psfs: %s" % flags)
""", """    def _fit_one(obs):
        runner.go(obs=obs)
        flags = obs.psf.meta['result']['flags']
        if flags == 0:
            return
        raise BootPSFFailure("failed to measure psfs: %s" % flags)

    for obslist in mbobs:
        assert len(obslist) == 1, 'metadetect is not multi-epoch'
        _fit_one(obslist[0])
""")]),
    ('h13-fit-obslist', [(FT, """    if len(obslist) == 0:
        # we will flag this later
        res = {}
        res["flags"] = 0
        res["flags"] |= procflags.MISSING_BAND
        res["wgt"] = 0
        res["obj_res"] = None
        res["psf_res"] = None
        return res
    else:
        return _fit_obs(
            obs=obslist[0],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
""", """    if len(obslist) > 0:
        obs = obslist[0]
        return _fit_obs(
            obs=obs, fitter=fitter, bmask_flags=bmask_flags, symmetrize=symmetrize,
        )

    return dict(
        flags=procflags.MISSING_BAND, wgt=0, obj_res=None, psf_res=None,
    )
""")]),
    ('i13-wavg-dtype', [(FT, """    if nband > 1:
        dt += [
            (n("band_flux_flags"), 'i4', nband),
            (n("band_flux"), "f8", nband),
            (n("band_flux_err"), "f8", nband),
        ]
    else:
        dt += [
            (n("band_flux_flags"), 'i4'),
            (n("band_flux"), "f8"),
            (n("band_flux_err"), "f8"),
        ]

    dt += [("shear_bands", "U%d" % MAX_NUM_SHEAR_BANDS)]

    return dt
""", """    shape = (nband,) if nband > 1 else ()
    band_cols = [("band_flux_flags", "i4"), ("band_flux", "f8"), ("band_flux_err", "f8")]
    for name, typ in band_cols:
        if nband > 1:
            dt.append((n(name), typ, nband))
        else:
            dt.append((n(name), typ))

    dt.append(("shear_bands", f"U{MAX_NUM_SHEAR_BANDS:d}"))

    return dt
""")]),
    ('j13-mbobs-wavg-dict', [(FT, """    for band in range(nband):
        all_is_shear_band.append(True if band in shear_bands else False)
        fres = _fit_obslist(
            obslist=mbobs[band],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        all_wgts.append(fres["wgt"])
        all_res.append(fres["obj_res"])
        all_psf_res.append(fres["psf_res"])
        all_flags.append(fres["flags"])
""", """    fit = functools.partial(
        _fit_obslist, fitter=fitter, bmask_flags=bmask_flags, symmetrize=symmetrize,
    )
    for band, obslist in enumerate(mbobs):
        all_is_shear_band.append(band in shear_bands)
        fres = fit(obslist=obslist)
        for key, vals in (
            ("wgt", all_wgts), ("obj_res", all_res),
            ("psf_res", all_psf_res), ("flags", all_flags),
        ):
            vals.append(fres[key])
"""), (FT, "import numpy as np\n", "import functools\nimport numpy as np\n")]),
    ('k13-mbobs-list-wavg', [(FT, """    res = []
    for i, mbobs in enumerate(mbobs_list):

        _res = fit_mbobs_wavg(
            mbobs=mbobs,
            fitter=fitter,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            fwhm_reg=fwhm_reg,
            symmetrize=symmetrize,
        )
        res.append(_res)

    if len(res) > 0:
        return np.hstack(res)
    else:
        return None
""", """    kw = dict(
        fitter=fitter, bmask_flags=bmask_flags, shear_bands=shear_bands,
        fwhm_reg=fwhm_reg, symmetrize=symmetrize,
    )
    res = [fit_mbobs_wavg(mbobs=mbobs, **kw) for mbobs in mbobs_list]
    return np.hstack(res) if res else None
""")]),
    ('l13-admom-check-gen', [(FT, """        for obs in obslist:
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT

    if flags == 0:
        # first we coadd the shear bands
""", """        obs = obslist[0]
        if np.all(obs.weight <= 0):
            flags |= procflags.ZERO_WEIGHTS

        bad_pixels = obs.bmask & bmask_flags
        if bad_pixels.any():
            flags |= procflags.EDGE_HIT

    if flags == 0:
        # first we coadd the shear bands
""")]),
    ('m13-admom-early', [(FT, """    if flags == 0:
        # first we coadd the shear bands
        coadd_obs, coadd_flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
        flags |= coadd_flags

    if flags == 0:
        # then fit the PSF
        try:
            pres = runner.go(coadd_obs.psf)
        except Exception:
            flags |= procflags.PSF_FAILURE
        else:
            res["am_psf_flags"] = pres["flags"]
            if pres["flags"] == 0:
                res["am_psf_g"] = pres["e"]
                res["am_psf_T"] = pres["T"]
""", """    if flags == 0:
        # coadd the shear bands, then fit the PSF
        coadd_obs, flags = make_coadd_obs(mbobs, shear_bands=shear_bands)

    pres = None
    if flags == 0:
        try:
            pres = runner.go(coadd_obs.psf)
        except Exception:
            flags = procflags.PSF_FAILURE

    if pres is not None:
        psf_flags = pres["flags"]
        res["am_psf_flags"] = psf_flags
        if psf_flags == 0:
            res["am_psf_g"] = pres["e"]
            res["am_psf_T"] = pres["T"]
""")]),
    ('n13-ml-prior', [(FT, """    T_prior = ngmix.priors.TwoSidedErf(
        minval=-10.0,
        width_at_min=0.03,
        maxval=1.0e6,
        width_at_max=1.0e5,
        rng=rng,
    )
    F_prior = ngmix.priors.TwoSidedErf(
        minval=-1.0e4,
        width_at_min=1.0,
        maxval=1.0e9,
        width_at_max=0.25e8,
        rng=rng,
    )
    F_prior = [F_prior] * nband
""", """    def _flat(minval, width_at_min, maxval, width_at_max):
        return ngmix.priors.TwoSidedErf(
            minval=minval,
            width_at_min=width_at_min,
            maxval=maxval,
            width_at_max=width_at_max,
            rng=rng,
        )

    T_prior = _flat(-10.0, 0.03, 1.0e6, 1.0e5)
    flux_prior = _flat(-1.0e4, 1.0, 1.0e9, 0.25e8)
    F_prior = [flux_prior for _ in range(nband)]
""")]),
    ('o13-defaults-local', [(ME, """        self.meas.slots.apFlux = None
        self.meas.slots.gaussianFlux = None
        self.meas.slots.calibFlux = None
        self.meas.slots.modelFlux = None

        # goes with SdssShape above
        self.meas.slots.shape = None

        # fix odd issue where it things things are near the edge
        self.meas.plugins['base_SdssCentroid'].binmax = 1
""", """        slots = self.meas.slots
        slots.shape = slots.apFlux = slots.gaussianFlux = None
        slots.calibFlux = slots.modelFlux = None

        # fix odd issue where it things things are near the edge
        plugins = self.meas.plugins
        plugins['base_SdssCentroid'].binmax = 1
"""), (ME, """        self.detect.minPixels = 1
        self.detect.isotropicGrow = True
        self.detect.combinedGrow = True
        self.detect.nSigmaToGrow = 2.4
        self.detect.returnOriginalFootprints = False
        self.detect.includeThresholdMultiplier = 1.0
        self.detect.thresholdPolarity = "positive"
""", """        detect = self.detect
        for name, value in (
            ("minPixels", 1), ("isotropicGrow", True), ("combinedGrow", True),
            ("nSigmaToGrow", 2.4), ("returnOriginalFootprints", False),
            ("includeThresholdMultiplier", 1.0), ("thresholdPolarity", "positive"),
        ):
            setattr(detect, name, value)
""")]),
    ('p13-output-dtype', [(ME, """    dt = [
        ('stamp_size', 'i4'),
        ('row0', 'i4'),  # bbox row start
        ('col0', 'i4'),  # bbox col start
        ('row', 'f4'),  # row in image. Use row0 to get to global pixel coords
        ('col', 'f4'),  # col in image. Use col0 to get to global pixel coords
        ('row_diff', 'f4'),  # difference from peak location
        ('col_diff', 'f4'),  # difference from peak location
        ('ra', 'f8'),
        ('dec', 'f8'),
""", """    dt = [(name, 'i4') for name in ('stamp_size', 'row0', 'col0')]
    dt += [(name, 'f4') for name in ('row', 'col', 'row_diff', 'col_diff')]
    dt += [
        ('ra', 'f8'),
        ('dec', 'f8'),
""")]),
    ('q13-pgauss-fitter', [(ME, """    return ngmix.prepsfmom.PGaussMom(fwhm=pgauss_config['fwhm'])
""", """    fwhm = pgauss_config['fwhm']
    fitter = ngmix.prepsfmom.PGaussMom(fwhm)
    return fitter
""")]),
    ('r13-run-mdet', [(LM, """    config_override = config if config is not None else {}
    config = MetadetectConfig()
    config.setDefaults()

    util.override_config(config, config_override)

    config.freeze()
    config.validate()
    task = MetadetectTask(config=config)
    return task.run(
        mbexp,
        noise_mbexp,
        rng,
        mfrac_mbexp,
        ormasks,
        show=show,
        get_psf_stats=get_psf_stats,
    )
""", """    task = MetadetectTask(config=_make_mdet_config(config))
    return task.run(
        mbexp=mbexp,
        noise_mbexp=noise_mbexp,
        rng=rng,
        mfrac_mbexp=mfrac_mbexp,
        ormasks=ormasks,
        get_psf_stats=get_psf_stats,
        show=show,
    )


def _make_mdet_config(config_override):
    if config_override is None:
        config_override = {}

    mdet_config = MetadetectConfig()
    mdet_config.setDefaults()
    util.override_config(mdet_config, config_override)
    mdet_config.freeze()
    mdet_config.validate()
    return mdet_config
""")]),
    ('s13-noise-replacer', [(UT, """    noise_replacer_config = NoiseReplacerConfig()
    footprints = {
        source.getId(): (source.getParent(), source.getFootprint())
        for source in sources
    }

    # This constructor will replace all detected pixels with noise in the
    # image
    return NoiseReplacer(
        noise_replacer_config,
        exposure=exposure,
        footprints=footprints,
        noiseImage=noise_image,
    )
""", """    footprints = {}
    for source in sources:
        entry = source.getParent(), source.getFootprint()
        footprints[source.getId()] = entry

    # This constructor will replace all detected pixels with noise in the
    # image
    kw = {'noiseImage': noise_image, 'exposure': exposure, 'footprints': footprints}
    return NoiseReplacer(NoiseReplacerConfig(), **kw)
""")]),
    ('t13-mcal-wcs', [(MC, """    jac = get_jacobian(exp=exp, cen=cen)
    return jac.get_galsim_wcs()
""", """    to_wcs = get_jacobian(exp, cen).get_galsim_wcs
    return to_wcs()
"""), (MC, """    psf_obj = exp.getPsf()
    return psf_obj.computeKernelImage(cen).array
""", """    kernel = exp.getPsf().computeKernelImage(cen)
    array = kernel.array
    return array
""")]),
    ('u13-kernel-psf', [(UT, """    return KernelPsf(FixedKernel(afw_image.ImageD(psf_image.astype(float))))
""", """    as_image = afw_image.ImageD(psf_image.astype('f8'))
    kernel = FixedKernel(as_image)
    return KernelPsf(kernel)
""")]),
    ('v13-sky', [(SK, """    bp_to_skip = util.get_stats_mask(exp)
    back_config = SubtractBackgroundConfig(ignoredPixelMask=bp_to_skip)
    back_task = SubtractBackgroundTask(config=back_config)

    # returns background data, but we are ignoring it for now
    background = back_task.run(exp)
    return background
""", """    task = SubtractBackgroundTask(
        config=SubtractBackgroundConfig(
            ignoredPixelMask=util.get_stats_mask(exp),
        )
    )
    return task.run(exp)
""")]),
    ('w13-skysub-setdefault', [(SK, """    if thresh:
        if 'iterate_detection_and_skysub' not in config_override:
            config_override['iterate_detection_and_skysub'] = {}
        if 'detect' not in config_override['iterate_detection_and_skysub']:
            config_override['iterate_detection_and_skysub']['detect'] = {}

        detect_override = config_override['iterate_detection_and_skysub']['detect']
        detect_override['thresholdValue'] = thresh
""", """    if thresh:
        override = config_override
        for key in ('iterate_detection_and_skysub', 'detect'):
            override = override.setdefault(key, {})
        override['thresholdValue'] = thresh
""")]),
    ('x13-get-stamp', [(MS, """        self.check_source_id(source_id)

        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)

        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        exposures = [mbexp[band][bbox] for band in self.bands]
        # return MultibandExposure.fromExposures(self.bands, exposures)
        return util.get_mbexp(exposures)
""", """        self.check_source_id(source_id)

        mbexp = {'original': self.orig, 'deblended': self.mbexp}[type]
        bbox = self.get_bbox(source_id=source_id, stamp_size=stamp_size, clip=clip)

        exposures = []
        for band in self.bands:
            exposures.append(mbexp[band][bbox])
        return util.get_mbexp(exposures)
""")]),
    ('y13-add-source', [(MS, """        self.check_source_id(source_id)

        self._add_or_subtract_source(source_id, 'add')
        # self._add_or_subtract_source_new(source_id, 'add')
        try:
            yield self.mbexp
        finally:
            self._add_or_subtract_source(source_id, 'subtract')
""", """        change = self._add_or_subtract_source

        self.check_source_id(source_id)
        change(source_id, 'add')
        try:
            mbexp = self.mbexp
            yield mbexp
        finally:
            change(source_id, 'subtract')
"""), (MS, """        if source_id not in self.heavies:
            raise ValueError(
                f'source {source_id} is not in the child source list',
            )
""", """        if source_id in self.heavies:
            return

        message = 'source %s is not in the child source list' % source_id
        raise ValueError(message)
""")]),
    ('z13-jac-at-source', [(UT, """    orig_cen = exp.getWcs().skyToPixel(source.getCoord())

    if np.isnan(orig_cen.getY()):
        # fall back to integer pixel location
        peak = source.getFootprint().getPeaks()[0]
        orig_cen_i = peak.getI()
        orig_cen = geom.Point2D(
            x=orig_cen_i.getX(),
            y=orig_cen_i.getY(),
        )

    return get_jacobian(exp, orig_cen)
""", """    wcs = exp.getWcs()
    orig_cen = wcs.skyToPixel(source.getCoord())

    if not np.isnan(orig_cen.getY()):
        return get_jacobian(exp=exp, cen=orig_cen)

    # fall back to integer pixel location
    pixel = source.getFootprint().getPeaks()[0].getI()
    return get_jacobian(exp=exp, cen=geom.Point2D(y=pixel.getY(), x=pixel.getX()))
""")]),
    ('aa13-stats-mask', [(UT, """    stats_mask = [
        'BAD',
        'EDGE',
        'DETECTED',
        'DETECTED_NEGATIVE',
        'NO_DATA',
        'BRIGHT',
    ]

    return stats_mask
""", """    detected = ['DETECTED', 'DETECTED_NEGATIVE']
    return ['BAD', 'EDGE'] + detected + ['NO_DATA', 'BRIGHT']
""")]),
    ('bb13-fg-mask-vector', [(MK, """    for ifg in range(rows.size):
        row = rows[ifg]
        col = cols[ifg]

        rad = radius_pixels[ifg]
        rad2 = rad * rad

        if not _intersects(row, col, rad, nrows, ncols):
            continue

        for irow in range(nrows):
            rowdiff2 = (row - irow)**2
            for icol in range(ncols):

                r2 = rowdiff2 + (col - icol)**2
                if r2 < rad2:
                    bmask[irow, icol] |= flag
                    nmasked += 1
""", """    for row, col, rad in zip(rows, cols, radius_pixels):
        if _intersects(row, col, rad, nrows, ncols):
            rad2 = rad**2
            for irow in range(nrows):
                drow = irow - row
                for icol in range(ncols):
                    dcol = icol - col
                    if not drow**2 + dcol**2 < rad2:
                        continue
                    nmasked += 1
                    bmask[irow, icol] |= flag
""")]),
    ('cc13-fixnoise-helper', [(MC, """    for shear_type in types:
        exp = mdict[shear_type]
        nexp = noise_mdict[shear_type]

        exp.image.array[:, :] += nexp.image.array[:, :]
        exp.variance.array[:, :] *= 2

    return mdict, noise_mdict
""", """    for shear_type in types:
        _add_noise_exp(mdict[shear_type], noise_mdict[shear_type])

    return mdict, noise_mdict


def _add_noise_exp(exp, nexp):
    image = exp.image.array
    image += nexp.image.array
    variance = exp.variance.array
    variance *= 2
""")]),
    ('dd13-heavy-return', [(MS, """    # Update xy0 with the origin of the sources box
    xy0 = geom.Point2I(model.yx0[-1], model.yx0[-2])
    # Create the spans for the footprint
    valid = np.max(model.data, axis=0) != 0
    valid = Mask(valid.astype(np.int32), xy0=xy0)
    spans = SpanSet.fromMask(valid)

    # Create the MultibandHeavyFootprint and
    # add the location of the source to the peak catalog.
    foot = afwFootprint(spans)
    foot.addPeak(source.center[1], source.center[0], np.max(model.data))
    if model.n_bands == 1:
        image = afwImage(
            array=model.data[0],
            xy0=valid.getBBox().getMin(),
            dtype=model.dtype,
        )
        maskedImage = MaskedImage(image, dtype=model.dtype)
        heavy = makeHeavyFootprint(foot, maskedImage)
    else:
        # BUG fix:  was blend.bands
        model = MultibandImage(
            blend.observation.bands, model.data, valid.getBBox(),
        )
        heavy = MultibandFootprint.fromImages(
            blend.observation.bands, model, footprint=foot
        )
    return heavy
""", """    # Create the spans for the footprint
    y0, x0 = model.yx0[-2], model.yx0[-1]
    nonzero = model.data.max(axis=0) != 0
    valid = Mask(nonzero.astype(np.int32), xy0=geom.Point2I(x0, y0))

    # Create the MultibandHeavyFootprint and
    # add the location of the source to the peak catalog.
    foot = afwFootprint(SpanSet.fromMask(valid))
    foot.addPeak(source.center[1], source.center[0], model.data.max())
    if model.n_bands != 1:
        bands = blend.observation.bands
        mbimage = MultibandImage(bands, model.data, valid.getBBox())
        return MultibandFootprint.fromImages(bands, mbimage, footprint=foot)

    image = afwImage(
        array=model.data[0], xy0=valid.getBBox().getMin(), dtype=model.dtype,
    )
    return makeHeavyFootprint(foot, MaskedImage(image, dtype=model.dtype))
""")]),
    ('ee13-detdeb-setdefault', [(ME, """    config_override = deepcopy(config) if config is not None else {}
    if thresh:
        if 'detect' not in config_override:
            config_override['detect'] = {}
        config_override['detect']['thresholdValue'] = thresh

    config = DetectAndDeblendConfig()

    if deblender == "scarlet":
        config.deblend.retarget(ScarletDeblendTask)
        config.deblend.processSingles = True

    config.setDefaults()

    util.override_config(config, config_override)

    config.freeze()
    config.validate()
    task = DetectAndDeblendTask(config=config)
    if rng is not None:
        task.rng = rng
    return task
""", """    overrides = {} if config is None else deepcopy(config)
    if thresh:
        overrides.setdefault('detect', {})['thresholdValue'] = thresh

    task_config = DetectAndDeblendConfig()

    if deblender == "scarlet":
        deblend = task_config.deblend
        deblend.retarget(ScarletDeblendTask)
        task_config.deblend.processSingles = True

    task_config.setDefaults()
    util.override_config(task_config, overrides)
    task_config.freeze()
    task_config.validate()

    task = DetectAndDeblendTask(config=task_config)
    if rng is None:
        return task
    task.rng = rng
    return task
""")]),
    ('ff13-mask-apodize', [(MK, """    msk = ap_mask < 1
    if np.any(msk):
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image *= ap_mask
                    obs.noise *= ap_mask
                    obs.bmask[msk] |= mask_bit_val
                    if hasattr(obs, "mfrac"):
                        obs.mfrac[msk] = 1.0
                    if np.all(msk):
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False
""", """    msk = ap_mask < 1
    if not msk.any():
        return

    for obs in (obs for obslist in mbobs for obs in obslist):
        # the pixels list will be reset upon exiting
        with obs.writeable():
            for plane in (obs.image, obs.noise):
                plane *= ap_mask
            obs.bmask[msk] |= mask_bit_val
            if hasattr(obs, "mfrac"):
                obs.mfrac[msk] = 1.0
            if msk.all():
                obs.ignore_zero_weight = False
            obs.weight[msk] = 0.0
            if not np.any(obs.weight != 0):
                obs.ignore_zero_weight = False
""")]),
    ('gg13-flags-str', [(PF, """    return ngmix.flags.get_flags_str(val, name_map=NAME_MAP)
""", """    flagstr = ngmix.flags.get_flags_str(name_map=NAME_MAP, val=val)
    return flagstr
"""), (PF, """for k, v in list(NAME_MAP.items()):
    NAME_MAP[v] = k
""", """NAME_MAP.update({v: k for k, v in NAME_MAP.items()})
""")]),
    ('hh13-galsim-shear-table', [(SP, """    if shear_str == '1p':
        shear = galsim.Shear(g1=+step, g2=0.00)
    elif shear_str == '1m':
        shear = galsim.Shear(g1=-step, g2=0.00)
    elif shear_str == '2p':
        shear = galsim.Shear(g1=0.00, g2=+step)
    elif shear_str == '2m':
        shear = galsim.Shear(g1=0.00, g2=-step)
    else:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    return shear
""", """    g1, g2 = 0.00, 0.00
    if shear_str == '1p':
        g1 = step
    elif shear_str == '1m':
        g1 = -step
    elif shear_str == '2p':
        g2 = step
    elif shear_str == '2m':
        g2 = -step
    else:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    return galsim.Shear(g1=g1, g2=g2)
""")]),
]
