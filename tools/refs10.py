"""Behaviour-preserving edits of lsst/measure.py, lsst/metadetect.py, lsst/masking.py, lsst/configs.py, shearpos.py and util.py"""
ME = 'metadetect/lsst/measure.py'
MD = 'metadetect/lsst/metadetect.py'
LM = 'metadetect/lsst/masking.py'
CF = 'metadetect/lsst/configs.py'
SP = 'metadetect/shearpos.py'
UT = 'metadetect/util.py'
REFS = [
    ('a10-run-single-first', [(ME, """        if len(mbexp.singles) > 1:
            detexp = util.coadd_exposures(mbexp.singles)
            if detexp is None:
                return [], None, None
        else:
            detexp = mbexp.singles[0]
""", """        singles = mbexp.singles
        if len(singles) <= 1:
            detexp = singles[0]
        else:
            detexp = util.coadd_exposures(singles)

            if detexp is None:
                return [], None, None
""")]),
    ('a10-run-detexp-helper', [(ME, """        if len(mbexp.singles) > 1:
            detexp = util.coadd_exposures(mbexp.singles)
            if detexp is None:
                return [], None, None
        else:
            detexp = mbexp.singles[0]

        # background measurement within the detection code requires ExposureF
        if not isinstance(detexp, afw_image.ExposureF):
            detexp = afw_image.ExposureF(detexp, deep=True)
""", """        detexp = self._get_detexp(mbexp)
        if detexp is None:
            return [], None, None
"""), (ME, """    def _run_with_sdss(self, detexp):
""", """    def _get_detexp(self, mbexp):
        if len(mbexp.singles) > 1:
            detexp = util.coadd_exposures(mbexp.singles)
            if detexp is None:
                return None
        else:
            detexp = mbexp.singles[0]

        # background measurement within the detection code requires ExposureF
        if not isinstance(detexp, afw_image.ExposureF):
            detexp = afw_image.ExposureF(detexp, deep=True)
        return detexp

    def _run_with_sdss(self, detexp):
""")]),
    ('a10-sdss-early', [(ME, """        result = self.detect.run(table, detexp)

        if result is not None:
            sources = result.sources
            self.deblend.run(detexp, sources)
""", """        result = self.detect.run(table, detexp)
        if result is None:
            return []

        if True:
            sources = result.sources
            self.deblend.run(detexp, sources)
"""), (ME, """            #             self.meas.callMeasure(source, detexp)

        else:
            sources = []

        return sources

""", """            #             self.meas.callMeasure(source, detexp)

        return sources

""")]),
    ('a10-scarlet-early', [(ME, """        if result is not None:
            orig_sources = result.sources

            mbexp_deconvolved = util.make_deconvolved_mbexp(
                mbexp, orig_sources,
            )

            scl_res = self.deblend.run(
                mExposure=mbexp,
                mDeconvolved=mbexp_deconvolved,
                mergedSources=orig_sources,
            )

            model_data = scl_res.scarletModelData
            sources = scl_res.deblendedCatalog

            # we need to attach footprints in order to do basic measurements as
            # well as do the deblending

            updateCatalogFootprints(
                modelData=model_data,
                catalog=sources,
                band='i',
                removeScarletData=False,
                updateFluxColumns=True,
            )

        else:
            sources = []
            model_data = None

        return sources, model_data
""", """        if result is None:
            return [], None

        scl_res = self.deblend.run(
            mExposure=mbexp,
            mDeconvolved=util.make_deconvolved_mbexp(mbexp, result.sources),
            mergedSources=result.sources,
        )

        # we need to attach footprints in order to do basic measurements as
        # well as do the deblending

        updateCatalogFootprints(
            modelData=scl_res.scarletModelData,
            catalog=scl_res.deblendedCatalog,
            band='i',
            removeScarletData=False,
            updateFluxColumns=True,
        )

        return scl_res.deblendedCatalog, scl_res.scarletModelData
""")]),
    ('a10-task-override', [(ME, """    config_override = deepcopy(config) if config is not None else {}
    if thresh:
        if 'detect' not in config_override:
            config_override['detect'] = {}
        config_override['detect']['thresholdValue'] = thresh
""", """    if config is None:
        config_override = {}
    else:
        config_override = deepcopy(config)

    if thresh:
        config_override.setdefault('detect', {})['thresholdValue'] = thresh
""")]),
    ('a10-task-build-helper', [(ME, """    config = DetectAndDeblendConfig()

    if deblender == "scarlet":
        config.deblend.retarget(ScarletDeblendTask)
        config.deblend.processSingles = True

    config.setDefaults()

    util.override_config(config, config_override)

    config.freeze()
    config.validate()
    task = DetectAndDeblendTask(config=config)
    if rng is not None:
        task.rng = rng
    return task


def measure(
""", """    task = DetectAndDeblendTask(
        config=_get_full_detect_config(deblender, config_override),
    )
    if rng is not None:
        task.rng = rng
    return task


def _get_full_detect_config(deblender, override):
    config = DetectAndDeblendConfig()

    if deblender == "scarlet":
        config.deblend.retarget(ScarletDeblendTask)
        config.deblend.processSingles = True

    config.setDefaults()
    util.override_config(config, override)
    config.freeze()
    config.validate()
    return config


def measure(
""")]),
    ('a10-measure-psf-runner-helper', [(ME, """            psf_fitter = ngmix.admom.AdmomFitter(rng=rng)
            psf_guesser = ngmix.guessers.GMixPSFGuesser(
                rng=rng,
                ngauss=1,
                guess_from_moms=True,
            )
            psf_runner = ngmix.runners.PSFRunner(
                fitter=psf_fitter,
                guesser=psf_guesser,
                ntry=4,
            )

            this_gauss_res = fit_mbobs_gauss(
                mbobs=mbobs,
                bmask_flags=0,
                psf_runner=psf_runner,
""", """            this_gauss_res = fit_mbobs_gauss(
                mbobs=mbobs,
                bmask_flags=0,
                psf_runner=_make_psf_runner(rng),
"""), (ME, """def _get_extractor(mbexp""", """def _make_psf_runner(rng):
    return ngmix.runners.PSFRunner(
        fitter=ngmix.admom.AdmomFitter(rng=rng),
        guesser=ngmix.guessers.GMixPSFGuesser(
            rng=rng, ngauss=1, guess_from_moms=True,
        ),
        ntry=4,
    )


def _get_extractor(mbexp""")]),
    ('a10-measure-stamp-helper', [(ME, """        stamp_flags = 0
        try:
            # mbobs = util.get_stamp_mbobs(
            #     mbexp=mbexp,
            #     source=source,
            #     stamp_size=config['stamp_size'],
            # )
            with extractor.add_source(source_id):
                mbobs = extractor.get_mbobs(
                    source_id=source_id,
                    stamp_size=config['stamp_size'],
                )
        except LengthError as err:
            # This is raised when a bbox hits an edge
            LOG.debug('%s', err)
            stamp_flags = EDGE_HIT
        except util.AllZeroWeightError as err:
            # failure creating some observation due to all weights being zero
            # across the stamp
            LOG.info('%s', err)
            stamp_flags = ZERO_WEIGHTS

        if stamp_flags != 0:
""", """        mbobs, stamp_flags = _extract_mbobs(
            extractor, source_id, config['stamp_size'],
        )

        if mbobs is None:
"""), (ME, """def _get_extractor(mbexp""", """def _extract_mbobs(extractor, source_id, stamp_size):
    try:
        with extractor.add_source(source_id):
            mbobs = extractor.get_mbobs(
                source_id=source_id, stamp_size=stamp_size,
            )
        return mbobs, 0
    except LengthError as err:
        # This is raised when a bbox hits an edge
        LOG.debug('%s', err)
        return None, EDGE_HIT
    except util.AllZeroWeightError as err:
        # failure creating some observation due to all weights being zero
        # across the stamp
        LOG.info('%s', err)
        return None, ZERO_WEIGHTS


def _get_extractor(mbexp""")]),
    ('a10-measure-stamp-helper2', [(ME, """        stamp_flags = 0
        try:
            # mbobs = util.get_stamp_mbobs(
            #     mbexp=mbexp,
            #     source=source,
            #     stamp_size=config['stamp_size'],
            # )
            with extractor.add_source(source_id):
                mbobs = extractor.get_mbobs(
                    source_id=source_id,
                    stamp_size=config['stamp_size'],
                )
        except LengthError as err:
            # This is raised when a bbox hits an edge
            LOG.debug('%s', err)
            stamp_flags = EDGE_HIT
        except util.AllZeroWeightError as err:
            # failure creating some observation due to all weights being zero
            # across the stamp
            LOG.info('%s', err)
            stamp_flags = ZERO_WEIGHTS

        if stamp_flags != 0:
""", """        mbobs, stamp_flags = _extract_mbobs(
            extractor, source_id, config['stamp_size'],
        )

        if stamp_flags != 0:
"""), (ME, """def _get_extractor(mbexp""", """def _extract_mbobs(extractor, source_id, stamp_size):
    mbobs = None
    flags = 0
    try:
        with extractor.add_source(source_id):
            mbobs = extractor.get_mbobs(
                source_id=source_id, stamp_size=stamp_size,
            )
    except LengthError as err:
        # This is raised when a bbox hits an edge
        LOG.debug('%s', err)
        flags = EDGE_HIT
    except util.AllZeroWeightError as err:
        # failure creating some observation due to all weights being zero
        # across the stamp
        LOG.info('%s', err)
        flags = ZERO_WEIGHTS

    return mbobs, flags


def _get_extractor(mbexp""")]),
    ('a10-measure-fit-else-try', [(ME, """        if stamp_flags != 0:

            this_gauss_res = get_wavg_output_struct(
                nband=nband,
                model='gauss',
                shear_bands=shear_band_indices,
            )
            this_pgauss_res = get_wavg_output_struct(
                nband=nband,
                model='pgauss',
            )

        else:

            # TODO do something""", """        if stamp_flags:
            this_pgauss_res = get_wavg_output_struct(nband, 'pgauss')
            this_gauss_res = get_wavg_output_struct(
                nband=nband,
                shear_bands=shear_band_indices,
                model='gauss',
            )
        else:

            # TODO do something""")]),
    ('a10-measure-no-results-early', [(ME, """    if len(results) > 0:
        results = eu.numpy_util.combine_arrlist(results)
    else:
        results = None

    return results


def _get_extractor""", """    if not results:
        return None

    return eu.numpy_util.combine_arrlist(results)


def _get_extractor""")]),
    ('a10-measure-nband-singles', [(ME, """    nband = len(mbexp.bands)
    shear_band_indices = util.extract_shear_band_indices(
        mbexp=mbexp,
        config=config,
    )
    exp_bbox = mbexp.getBBox()
    wcs = mbexp.singles[0].getWcs()
    results = []
""", """    results = []
    stamp_size = config['stamp_size']
    wcs = mbexp.singles[0].getWcs()
    exp_bbox = mbexp.getBBox()
    shear_band_indices = util.extract_shear_band_indices(
        config=config, mbexp=mbexp,
    )
    nband = len(mbexp.bands)
"""), (ME, """                    stamp_size=config['stamp_size'],
                )
        except""", """                    stamp_size=stamp_size,
                )
        except"""), (ME, """            stamp_size=config['stamp_size'],
            exp_bbox=exp_bbox,""", """            stamp_size=stamp_size,
            exp_bbox=exp_bbox,""")]),
    ('a10-combined-comp', [(ME, """    skip = ['pgauss_g', 'pgauss_g_cov', 'shear_bands']
    keep_dt = [('stamp_flags', 'i4')]

    for pdt in pgauss_res.dtype.descr:

        n = pdt[0]

        if 'psf' in n or n in skip:
            continue

        keep_dt.append(pdt)
""", """    skip = ('pgauss_g', 'pgauss_g_cov', 'shear_bands')
    keep_dt = [('stamp_flags', 'i4')] + [
        pdt for pdt in pgauss_res.dtype.descr
        if 'psf' not in pdt[0] and pdt[0] not in skip
    ]
""")]),
    ('a10-combined-copy-skip', [(ME, """    for n in pgauss_res.dtype.names:
        if n in out.dtype.names and n != "shear_bands":
            out[n] = pgauss_res[n]
""", """    for name in pgauss_res.dtype.names:
        if name == 'shear_bands' or name not in out.dtype.names:
            continue
        out[name] = pgauss_res[name]
""")]),
    ('a10-bmask-one', [(ME, """    peak = source.getFootprint().getPeaks()[0]
    orig_cen = peak.getI()
    maskval = exposure.mask[orig_cen]
    return maskval
""", """    return exposure.mask[source.getFootprint().getPeaks()[0].getI()]
""")]),
    ('a10-struct-zip', [(ME, """    for subdt in dt:
        name = subdt[0]
        dtype = subdt[1]

        if 'flags' in name:
            output[name] = NO_ATTEMPT
        elif name in ('bmask', 'ormask'):
            output[name] = 0
        elif dtype[0] == 'i':
            output[name] = -9999
        else:
            output[name] = np.nan
""", """    for name, dtype, *_ in dt:
        if 'flags' in name:
            value = NO_ATTEMPT
        elif name == 'bmask' or name == 'ormask':
            value = 0
        elif dtype.startswith('i'):
            value = -9999
        else:
            value = np.nan
        output[name] = value
""")]),
    ('a10-output-offset-floats', [(ME, """    if np.isnan(orig_cen.getY()):
        orig_cen = peak.getCentroid()
        cen_offset = geom.Point2D(np.nan, np.nan)
    else:
        cen_offset = geom.Point2D(
            orig_cen.getX() - peak_loc.getX(),
            orig_cen.getY() - peak_loc.getY(),
        )
""", """    if not np.isnan(orig_cen.getY()):
        xoff = orig_cen.getX() - peak_loc.getX()
        yoff = orig_cen.getY() - peak_loc.getY()
    else:
        orig_cen = peak.getCentroid()
        xoff = yoff = np.nan

    cen_offset = geom.Point2D(xoff, yoff)
""")]),
    ('a10-output-detected-first', [(ME, """    output['stamp_size'] = stamp_size
    output['row0'] = exp_bbox.getBeginY()
    output['col0'] = exp_bbox.getBeginX()
    output['row'] = orig_cen.getY()
    output['col'] = orig_cen.getX()
    output['row_diff'] = cen_offset.getY()
    output['col_diff'] = cen_offset.getX()

    output['ra'] = skypos.getRa().asDegrees()
    output['dec'] = skypos.getDec().asDegrees()

    # remove DETECTED bit, it is just clutter since all detected
    # objects have this bit set
    detected = afw_image.Mask.getPlaneBitMask('DETECTED')
    output['bmask'] = bmask & ~detected
""", """    # remove DETECTED bit, it is just clutter since all detected
    # objects have this bit set
    detected = afw_image.Mask.getPlaneBitMask('DETECTED')

    values = {
        'stamp_size': stamp_size,
        'row0': exp_bbox.getBeginY(),
        'col0': exp_bbox.getBeginX(),
        'row': orig_cen.getY(),
        'col': orig_cen.getX(),
        'row_diff': cen_offset.getY(),
        'col_diff': cen_offset.getX(),
        'ra': skypos.getRa().asDegrees(),
        'dec': skypos.getDec().asDegrees(),
        'bmask': bmask & ~detected,
    }
    for name, value in values.items():
        output[name] = value
""")]),
    ('b10-run-mdet-ifexp', [(MD, """        if config['metacal']['reconv_type'] == 'fitgauss':
            perband_psf_stats = psf_stats['perband']
        else:
            perband_psf_stats = None
""", """        perband_psf_stats = None
        if config['metacal']['reconv_type'] == 'fitgauss':
            perband_psf_stats = psf_stats['perband']
""")]),
    ('b10-run-process-helper', [(MD, """        result = {}
        for shear_str, mcal_mbexp in mdict.items():
            res = detect_deblend_and_measure(
                mbexp=mcal_mbexp,
                config=config,
                rng=rng,
                show=show,
            )

            if res is not None:
                band = mcal_mbexp.bands[0]
                exp = mcal_mbexp[band]

                add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
                add_ormask(ormask, res)
                add_original_psf(psf_stats, res)

            result[shear_str] = res
""", """        result = {
            shear_str: _process_one(
                mcal_mbexp, config, rng, show, mfrac, ormask, psf_stats,
            )
            for shear_str, mcal_mbexp in mdict.items()
        }
"""), (MD, """def detect_deblend_and_measure(
""", """def _process_one(mbexp, config, rng, show, mfrac, ormask, psf_stats):
    res = detect_deblend_and_measure(
        mbexp=mbexp,
        config=config,
        rng=rng,
        show=show,
    )

    if res is not None:
        exp = mbexp[mbexp.bands[0]]

        add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
        add_ormask(ormask, res)
        add_original_psf(psf_stats, res)

    return res


def detect_deblend_and_measure(
""")]),
    ('b10-run-continue', [(MD, """            if res is not None:
                band = mcal_mbexp.bands[0]
                exp = mcal_mbexp[band]

                add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
                add_ormask(ormask, res)
                add_original_psf(psf_stats, res)

            result[shear_str] = res
""", """            result[shear_str] = res

            if res is None:
                continue

            exp = mcal_mbexp[mcal_mbexp.bands[0]]

            add_original_psf(psf_stats, res)
            add_ormask(ormask, res)
            add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
""")]),
    ('b10-run-subtract-first', [(MD, """        ormask = combine_ormasks(mbexp, ormasks)
        mfrac, wgts = get_mfrac_mbexp(mbexp=mbexp, mfrac_mbexp=mfrac_mbexp)

        if self.config.subtract_sky:
""", """        mfrac, wgts = get_mfrac_mbexp(mbexp=mbexp, mfrac_mbexp=mfrac_mbexp)
        ormask = combine_ormasks(mbexp, ormasks)

        if self.config.subtract_sky:
""")]),
    ('b10-detect-return', [(MD, """    results = measure.measure(
        mbexp=mbexp,
        model_data=model_data,
        meas_task=dbtask.meas,
        detexp=detexp,
        sources=sources,
        config=config,
        rng=rng,
        show=show,
    )

    return results
""", """    return measure.measure(
        mbexp,
        detexp,
        sources,
        model_data,
        dbtask.meas,
        config,
        rng,
        show,
    )
""")]),
    ('b10-mfrac-early', [(MD, """    if np.any(mfrac > 0):
        # we are""", """    if not np.any(mfrac > 0):
        res['mfrac'] = 0
    else:
        # we are"""), (MD, """            fwhm=config.get('mfrac_fwhm', None),
        )
    else:
        res['mfrac'] = 0
""", """            fwhm=config.get('mfrac_fwhm'),
        )
""")]),
    ('b10-mfrac-xy', [(MD, """        res['mfrac'] = measure_weighted_mfrac(
            mfrac=mfrac,
            x=res['col'] - res['col0'],
            y=res['row'] - res['row0'],
            jac=jac,
            fwhm=config.get('mfrac_fwhm', None),
        )
""", """        fwhm = config['mfrac_fwhm'] if 'mfrac_fwhm' in config else None
        local_x = res['col'] - res['col0']
        local_y = res['row'] - res['row0']
        res['mfrac'] = measure_weighted_mfrac(
            jac=jac, mfrac=mfrac, x=local_x, y=local_y, fwhm=fwhm,
        )
""")]),
    ('b10-wm-bounds', [(MD, """        xstart = ix - box_rad
        xend = max(ix + box_rad + 1, 0)
        ystart = iy - box_rad
        yend = max(iy + box_rad + 1, 0)

        if xstart < 0:
            xstart = 0
        if ystart < 0:
            ystart = 0
        if xend > nx:
            xend = nx
        if yend > ny:
            yend = ny
""", """        xstart = max(ix - box_rad, 0)
        ystart = max(iy - box_rad, 0)
        xend = min(max(ix + box_rad + 1, 0), nx)
        yend = min(max(iy + box_rad + 1, 0), ny)
""")]),
    ('b10-wm-window-helper', [(MD, """        ix = int(np.floor(x[i] + 0.5))
        iy = int(np.floor(y[i] + 0.5))

        xstart = ix - box_rad
        xend = max(ix + box_rad + 1, 0)
        ystart = iy - box_rad
        yend = max(iy + box_rad + 1, 0)

        if xstart < 0:
            xstart = 0
        if ystart < 0:
            ystart = 0
        if xend > nx:
            xend = nx
        if yend > ny:
            yend = ny
""", """        xstart, xend = _get_window(x[i], box_rad, nx)
        ystart, yend = _get_window(y[i], box_rad, ny)
"""), (MD, """def add_ormask(""", """def _get_window(pos, rad, n):
    ipos = int(np.floor(pos + 0.5))
    start = ipos - rad
    end = max(ipos + rad + 1, 0)

    if start < 0:
        start = 0
    if end > n:
        end = n

    return start, end


def add_ormask(""")]),
    ('b10-wm-zip', [(MD, """    for i in range(x.shape[0]):
        ix = int(np.floor(x[i] + 0.5))
        iy = int(np.floor(y[i] + 0.5))
""", """    for i, (xval, yval) in enumerate(zip(x, y)):
        ix = int(np.floor(xval + 0.5))
        iy = int(np.floor(yval + 0.5))
""")]),
    ('b10-wm-prealloc', [(MD, """    mfracs = []
    for i in range(x.shape[0]):
""", """    mfracs = np.ones(x.shape[0])
    for i in range(x.shape[0]):
"""), (MD, """        if sub_mfrac.size == 0:
            mfracs.append(1.0)
        else:
            cy""", """        if sub_mfrac.size != 0:
            cy"""), (MD, """            mfracs.append(stats["sums"][5] / stats["wsum"])

    return np.array(mfracs)
""", """            mfracs[i] = stats["sums"][5] / stats["wsum"]

    return mfracs
""")]),
    ('b10-wm-one-helper', [(MD, """        sub_mfrac = mfrac[ystart:yend, xstart:xend]
        if sub_mfrac.size == 0:
            mfracs.append(1.0)
        else:
            cy, cx = (y[i] - ystart, x[i] - xstart)
            this_jac = jac.copy()
            this_jac.set_cen(row=cy, col=cx)

            obs = ngmix.Observation(
                image=sub_mfrac,
                jacobian=this_jac,
            )

            stats = gauss_wgt.get_weighted_sums(obs, maxrad=box_rad)

            # this is the weighted average in the image using the
            # Gaussian as the weight.
            mfracs.append(stats["sums"][5] / stats["wsum"])

    return np.array(mfracs)
""", """        mfracs.append(
            _get_weighted_mean(
                image=mfrac[ystart:yend, xstart:xend],
                row=y[i] - ystart,
                col=x[i] - xstart,
                jac=jac,
                wgt=gauss_wgt,
                maxrad=box_rad,
            )
        )

    return np.array(mfracs)


def _get_weighted_mean(image, row, col, jac, wgt, maxrad):
    if image.size == 0:
        return 1.0

    this_jac = jac.copy()
    this_jac.set_cen(row=row, col=col)

    obs = ngmix.Observation(image, jacobian=this_jac)
    stats = wgt.get_weighted_sums(obs, maxrad=maxrad)

    # this is the weighted average in the image using the
    # Gaussian as the weight.
    return stats["sums"][5] / stats["wsum"]
""")]),
    ('b10-ormask-helper', [(MD, """        row_diff = res['row'][i] - res['row0'][i]
        col_diff = res['col'][i] - res['col0'][i]
        local_row = int(np.floor(row_diff + 0.5))
        local_col = int(np.floor(col_diff + 0.5))

        # centroids can land outside the image
        local_row = min(max(local_row, 0), nrow - 1)
        local_col = min(max(local_col, 0), ncol - 1)

        res['ormask'][i] = ormask[local_row, local_col]
""", """        local_row = _nearest_pixel(res['row'][i] - res['row0'][i], nrow)
        local_col = _nearest_pixel(res['col'][i] - res['col0'][i], ncol)
        res['ormask'][i] = ormask[local_row, local_col]


def _nearest_pixel(pos, n):
    # centroids can land outside the image
    return min(max(int(np.floor(pos + 0.5)), 0), n - 1)
""")]),
    ('b10-ormask-elif', [(MD, """        # centroids can land outside the image
        local_row = min(max(local_row, 0), nrow - 1)
        local_col = min(max(local_col, 0), ncol - 1)
""", """        # centroids can land outside the image
        if local_row < 0:
            local_row = 0
        if local_row > nrow - 1:
            local_row = nrow - 1
        if local_col < 0:
            local_col = 0
        if local_col > ncol - 1:
            local_col = ncol - 1
""")]),
    ('b10-ormask-elif2', [(MD, """        # centroids can land outside the image
        local_row = min(max(local_row, 0), nrow - 1)
        local_col = min(max(local_col, 0), ncol - 1)
""", """        # centroids can land outside the image
        local_row = max(min(local_row, nrow - 1), 0)
        local_col = max(min(local_col, ncol - 1), 0)
""")]),
    ('b10-orig-psf-loop', [(MD, """    res['psfrec_flags'][:] = psf_stats['flags']
    res['psfrec_navg'][:] = psf_stats['navg']
    res['psfrec_g'][:, 0] = psf_stats['g1']
    res['psfrec_g'][:, 1] = psf_stats['g2']
    res['psfrec_T'][:] = psf_stats['T']
""", """    for name in ('flags', 'navg', 'T'):
        res['psfrec_' + name][:] = psf_stats[name]

    for i, name in enumerate(('g1', 'g2')):
        res['psfrec_g'][:, i] = psf_stats[name]
""")]),
    ('b10-orig-psf-nocolon', [(MD, """    res['psfrec_flags'][:] = psf_stats['flags']
    res['psfrec_navg'][:] = psf_stats['navg']
""", """    res['psfrec_flags'] = psf_stats['flags']
    res['psfrec_navg'] = psf_stats['navg']
""")]),
    ('b10-combine-slices', [(MD, """    if ormasks is None:
        bands = mbexp.bands
        dims = mbexp[bands[0]].image.array.shape
        ormask = np.zeros(dims, dtype='i4')
    else:
        for imask, tormask in enumerate(ormasks):
            if imask == 0:
                ormask = tormask.copy()
            else:
                ormask |= tormask

    return ormask
""", """    if ormasks is None:
        band0 = mbexp.bands[0]
        return np.zeros(mbexp[band0].image.array.shape, dtype='i4')

    ormask = ormasks[0].copy()
    for tormask in ormasks[1:]:
        ormask |= tormask

    return ormask
""")]),
    ('b10-getmfrac-helper', [(MD, """        varray = exp.variance.array
        w = np.where(np.isfinite(varray) & (varray > 0))

        if w[0].size == 0:
            raise ValueError('no variance are finite')

        var = np.median(exp.variance.array[w])
        wgt = 1 / var
        wgts.append(wgt)
        wsum += wgt

        if mfrac_exp is None:
            mfrac_image = np.zeros(varray.shape)
        else:
            mfrac_image = mfrac_exp.image.array
""", """        wgt = _get_median_weight(exp)
        wgts.append(wgt)
        wsum += wgt

        if mfrac_exp is not None:
            mfrac_image = mfrac_exp.image.array
        else:
            mfrac_image = np.zeros(exp.variance.array.shape)
"""), (MD, """def fit_original_psfs_mbexp(""", """def _get_median_weight(exp):
    varray = exp.variance.array
    w = np.where(np.isfinite(varray) & (varray > 0))

    if w[0].size == 0:
        raise ValueError('no variance are finite')

    return 1 / np.median(varray[w])


def fit_original_psfs_mbexp(""")]),
    ('b10-getmfrac-mask', [(MD, """        w = np.where(np.isfinite(varray) & (varray > 0))

        if w[0].size == 0:
            raise ValueError('no variance are finite')

        var = np.median(exp.variance.array[w])
""", """        good = np.isfinite(varray) & (varray > 0)

        if not np.any(good):
            raise ValueError('no variance are finite')

        var = np.median(varray[good])
""")]),
    ('b10-getmfrac-divide', [(MD, """    mfrac *= 1.0 / wsum

    return mfrac, wgts
""", """    return mfrac / wsum, wgts
""")]),
    ('b10-getmfrac-wsum', [(MD, """        wgt = 1 / var
        wgts.append(wgt)
        wsum += wgt

        if mfrac_exp is None:""", """        wgt = 1 / var
        wgts.append(wgt)

        if mfrac_exp is None:"""), (MD, """    mfrac *= 1.0 / wsum
""", """    mfrac *= 1.0 / sum(wgts)
"""), (MD, """    wgts = []

    wsum = 0.0

    if mfrac_mbexp""", """    wgts = []

    if mfrac_mbexp""")]),
    ('b10-origpsf-one-helper', [(MD, """            cen, _ = util.get_integer_center(
                wcs=exp.getWcs(),
                bbox=exp.getBBox(),
                as_double=True,
            )
            jac = util.get_jacobian(exp=exp, cen=cen)

            psf_im = util.extract_psf_image(exp, cen)

            psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0
            psf_jacob = jac.copy()
            psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])

            psf_obs = ngmix.Observation(
                psf_im,
                jacobian=psf_jacob,
            )
            res = runner.go(obs=psf_obs)
""", """            res = runner.go(obs=_get_center_psf_obs(exp))
"""), (MD, """def fit_original_psfs_mbexp(""", """def _get_center_psf_obs(exp):
    cen, _ = util.get_integer_center(
        wcs=exp.getWcs(),
        bbox=exp.getBBox(),
        as_double=True,
    )
    psf_im = util.extract_psf_image(exp, cen)

    psf_jacob = util.get_jacobian(exp=exp, cen=cen).copy()
    row, col = (np.array(psf_im.shape) - 1.0) / 2.0
    psf_jacob.set_cen(row=row, col=col)

    return ngmix.Observation(psf_im, jacobian=psf_jacob)


def fit_original_psfs_mbexp(""")]),
    ('b10-origpsf-sums-after', [(MD, """        e1 = e1sum / wsum
        e2 = e2sum / wsum
        T = Tsum / wsum

        flags = 0

        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
""", """        flags = 0
        T = Tsum / wsum
        e1, e2 = e1sum / wsum, e2sum / wsum
        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
""")]),
    ('b10-origpsf-skip-nonshear', [(MD, """            if iband in shear_band_indices:
                perband['is_shear_band'][iband] = True
                navg += 1
                wsum += wgt
                e1sum += e1 * wgt
                e2sum += e2 * wgt
                Tsum += T * wgt
""", """            is_shear_band = iband in shear_band_indices
            perband['is_shear_band'][iband] = is_shear_band
            if not is_shear_band:
                continue

            navg += 1
            wsum += wgt
            Tsum += T * wgt
            e1sum += e1 * wgt
            e2sum += e2 * wgt
""")]),
    ('b10-origpsf-enumerate', [(MD, """        for iband, exp, wgt in zip(range(nband), mbexp, wgts):
""", """        for iband, (exp, wgt) in enumerate(zip(mbexp, wgts)):
""")]),
    ('b10-origpsf-fail-chain', [(MD, """        flags = procflags.PSF_FAILURE
        e1 = -9999.0
        e2 = -9999.0
        g1 = -9999.0
        g2 = -9999.0
        T = -9999.0

        perband = None
""", """        perband = None
        flags = procflags.PSF_FAILURE
        e1 = e2 = g1 = g2 = T = -9999.0
""")]),
    ('b10-validate-types', [(MD, """        if not set(self.types).issubset({"noshear", "1p", "1m", "2p", "2m"}):
            raise""", """        allowed = {"noshear", "1p", "1m", "2p", "2m"}
        if set(self.types) - allowed:
            raise""")]),
    ('c10-edge-helper', [(LM, """            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= edge

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0
""", """            _apodize_exp(mbexp[band], msk, ap_mask, edge)
            if noise_mbexp is not None:
                _apodize_exp(noise_mbexp[band], msk, ap_mask, edge)

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= edge

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0


def _apodize_exp(exp, msk, ap_mask, bits):
    exp.image.array[msk] *= ap_mask[msk]
    exp.variance.array[msk] = np.inf
    exp.mask.array[msk] |= bits
""")]),
    ('c10-edge-ormask-once', [(LM, """                exp.mask.array[msk] |= edge

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= edge

            if mfrac_mbexp""", """                exp.mask.array[msk] |= edge

            if mfrac_mbexp"""), (LM, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge
""", """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        if ormasks is not None:
            for ormask in ormasks:
                ormask[msk] |= edge

        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge
""")]),
    ('c10-bright-shared-helper', [(LM, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:

            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= bright

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= bright

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0
""", """    _apodize(mbexp, ap_mask, bright, noise_mbexp, mfrac_mbexp, ormasks)
"""), (LM, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= edge

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0

""", """    _apodize(mbexp, ap_mask, edge, noise_mbexp, mfrac_mbexp, ormasks)


def _apodize(mbexp, ap_mask, bits, noise_mbexp, mfrac_mbexp, ormasks):
    msk = np.where(ap_mask < 1)
    if msk[0].size == 0:
        return

    for band in mbexp.bands:
        exps = [mbexp[band]]
        if noise_mbexp is not None:
            exps.append(noise_mbexp[band])

        for exp in exps:
            exp.image.array[msk] *= ap_mask[msk]
            exp.variance.array[msk] = np.inf
            exp.mask.array[msk] |= bits

        if ormasks is not None:
            for ormask in ormasks:
                ormask[msk] |= bits

        if mfrac_mbexp is not None:
            mfrac_mbexp[band].image.array[msk] = 1.0

""")]),
    ('c10-bright-exp0', [(LM, """    wcs = mbexp[bands[0]].getWcs()
    xy0 = mbexp[bands[0]].getXY0()
""", """    exp0 = mbexp[bands[0]]
    wcs = exp0.getWcs()
    xy0 = exp0.getXY0()
"""), (LM, """    xm -= xy0.x
    ym -= xy0.y
    rm = bright_info['radius_pixels']

    dims = mbexp[bands[0]].image.array.shape
""", """    xm = xm - xy0.x
    ym = ym - xy0.y
    rm = bright_info['radius_pixels']

    dims = exp0.image.array.shape
""")]),
    ('c10-bright-expanded-two', [(LM, """            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.mask.array[:, :] |= expanded_bmask

            if ormasks""", """            mbexp[band].mask.array[:, :] |= expanded_bmask
            if noise_mbexp is not None:
                noise_mbexp[band].mask.array[:, :] |= expanded_bmask

            if ormasks""")]),
    ('e10-config-none-early', [(CF, """    if config is not None:
        for key in config:
            if key not in DEFAULT_MDET_CONFIG:
                raise ValueError('bad key in mdet config: %s' % key)

            # deal with sub-configs
            if key in ['detect', 'metacal', 'pgauss']:
                new_config[key].update(config[key])
            else:
                new_config[key] = config[key]
""", """    if config is None:
        config = {}

    for key, value in config.items():
        if key not in new_config:
            raise ValueError(f'bad key in mdet config: {key}')

        # deal with sub-configs
        if key in ('detect', 'metacal', 'pgauss'):
            new_config[key].update(value)
        else:
            new_config[key] = value
""")]),
    ('e10-config-verify-loop', [(CF, """    _verify_pgauss_config(new_config['pgauss'])
    _verify_detect_config(new_config['detect'])

    return new_config


def _verify_detect_config(config):

    name = 'detect'
    _check_required_keywords(
        config=config, required_keys=['thresh'], name=name,
    )

    _check_keywords(config=config, allowed_keys=['thresh'], name=name)


def _verify_pgauss_config(config):

    name = 'pgauss'
    _check_required_keywords(
        config=config,
        required_keys=['fwhm'],
        name=name,
    )
    _check_keywords(
        config=config,
        allowed_keys=['fwhm'],
        name=name,
    )
""", """    for name, keys in (('pgauss', ['fwhm']), ('detect', ['thresh'])):
        _verify_keys(new_config[name], keys, name)

    return new_config


def _verify_keys(config, keys, name):
    _check_required_keywords(config=config, required_keys=keys, name=name)
    _check_keywords(config=config, allowed_keys=keys, name=name)
""")]),
    ('e10-check-sets', [(CF, """    for key in required_keys:
        if key not in config:
            raise ValueError(f'key "{key}" must be present in {name} config')
""", """    missing = [key for key in required_keys if key not in config]
    if missing:
        raise ValueError(
            f'key "{missing[0]}" must be present in {name} config'
        )
""")]),
    ('f10-shear-shared', [(SP, """    shear = get_galsim_shear(shear_str, step)

    # this is the matrix that does shearing in u, v
    a = shear.getMatrix()

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(a, pos)
    assert out.shape[1] == u.shape[0]
    u_sheared = out[0, :] + u_cen
    v_sheared = out[1, :] + v_cen

    # undo the WCS to get to image coords
    rows_sheared, cols_sheared = jac.get_rowcol(v=v_sheared, u=u_sheared)

    return rows_sheared, cols_sheared
""", """    # this is the matrix that does shearing in u, v
    matrix = get_galsim_shear(shear_str, step).getMatrix()
    return _transform_positions(rows, cols, matrix, jac, dims)


def _transform_positions(rows, cols, matrix, jac, dims):
    # we need the canonical image center in (u, v) for undoing the
    # shearing
    v_cen, u_cen = jac.get_vu(
        row=(dims[0] - 1) / 2,
        col=(dims[1] - 1) / 2,
    )

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # subtract and then add the canonical center in u, v
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    out = np.dot(matrix, np.vstack((u, v)))
    assert out.shape[1] == u.shape[0]

    # undo the WCS to get to image coords
    return jac.get_rowcol(v=out[1] + v_cen, u=out[0] + u_cen)
"""), (SP, """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(ainv, pos)
    assert out.shape[1] == u.shape[0]
    u_unsheared = out[0] + u_cen
    v_unsheared = out[1] + v_cen

    # undo the WCS to get to image coords
    rows_unsheared, cols_unsheared = \\
        jac.get_rowcol(v=v_unsheared, u=u_unsheared)

    return rows_unsheared, cols_unsheared
""", """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())
    return _transform_positions(rows, cols, ainv, jac, dims)
""")]),
    ('f10-shear-obs-inline', [(SP, """    jac = obs.jacobian
    dims = obs.image.shape

    return shear_positions(
        rows=rows, cols=cols, shear_str=shear_str, jac=jac, dims=dims,
        step=step,
    )
""", """    return shear_positions(
        rows, cols, shear_str, obs.jacobian, obs.image.shape, step=step,
    )
""")]),
    ('f10-galsim-g1g2', [(SP, """    if shear_str == '1p':
        shear = galsim.Shear(g1=+step, g2=0.00)
    elif shear_str == '1m':
        shear = galsim.Shear(g1=-step, g2=0.00)
    elif shear_str == '2p':
        shear = galsim.Shear(g1=0.00, g2=+step)
    elif shear_str == '2m':
        shear = galsim.Shear(g1=0.00, g2=-step)
    else:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    return shear
""", """    g1, g2 = 0.0, 0.0
    if shear_str == '1p':
        g1 = step
    elif shear_str == '1m':
        g1 = -step
    elif shear_str == '2p':
        g2 = step
    elif shear_str == '2m':
        g2 = -step
    else:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    return galsim.Shear(g1=g1, g2=g2)
""")]),
    ('f10-galsim-table', [(SP, """    if shear_str == '1p':
        shear = galsim.Shear(g1=+step, g2=0.00)
    elif shear_str == '1m':
        shear = galsim.Shear(g1=-step, g2=0.00)
    elif shear_str == '2p':
        shear = galsim.Shear(g1=0.00, g2=+step)
    elif shear_str == '2m':
        shear = galsim.Shear(g1=0.00, g2=-step)
    else:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    return shear
""", """    signs = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
    if shear_str not in signs:
        raise ValueError('can only convert 1p,1m,2p,2m to galsim Shear')

    s1, s2 = signs[shear_str]
    return galsim.Shear(g1=s1 * step, g2=s2 * step)
""")]),
    ('f10-center-array', [(SP, """    # this is the matrix that undoes shearing in u, v
    ainv = np.linalg.inv(shear.getMatrix())

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2
""", """    # this is the matrix that undoes shearing in u, v
    matrix = shear.getMatrix()
    ainv = np.linalg.inv(matrix)

    # we need the canonical image center in (u, v) for undoing the
    # shearing

    nrow, ncol = dims
    row_cen = 0.5 * (nrow - 1)
    col_cen = 0.5 * (ncol - 1)
""")]),
    ('g10-namer-flags', [(UT, """        if front == '':
            front = None
        if back == '' or back == 'noshear':
            back = None

        self.front = front
        self.back = back

        if self.front is None and self.back is None:
            self.nomod = True
        else:
            self.nomod = False
""", """        self.front = None if front == '' else front
        self.back = None if back in ('', 'noshear') else back
        self.nomod = self.front is None and self.back is None
""")]),
    ('g10-namer-call', [(UT, """        n = name
        if not self.nomod:
            if self.front is not None:
                n = '%s_%s' % (self.front, n)
            if self.back is not None:
                n = '%s_%s' % (n, self.back)

        return n""", """        if self.nomod:
            return name

        if self.front is not None:
            name = f'{self.front}_{name}'
        if self.back is not None:
            name = f'{name}_{self.back}'

        return name""")]),
    ('g10-namer-join', [(UT, """        n = name
        if not self.nomod:
            if self.front is not None:
                n = '%s_%s' % (self.front, n)
            if self.back is not None:
                n = '%s_%s' % (n, self.back)

        return n""", """        parts = [self.front, name, self.back]
        return '_'.join(part for part in parts if part is not None)""")]),
]
