ME = 'metadetect/lsst/measure.py'
MD = 'metadetect/lsst/metadetect.py'
MS = 'metadetect/lsst/model_subtractor.py'
PH = 'metadetect/lsst/photometry.py'

REFS = [
    ('photo-early', [(PH, """    if res is not None:
        band = mbexp.bands[0]
        exp = mbexp[band]

        add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
        add_ormask(ormask, res)
        add_original_psf(psf_stats, res)

    return res
""", """    if res is None:
        return None

    exp = mbexp[mbexp.bands[0]]
    add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
    add_ormask(ormask, res)
    add_original_psf(psf_stats, res)

    return res
""")]),
    ('photo-thresh', [(PH, """    if config['subtract_sky']:
        subtract_sky_mbexp(mbexp=mbexp, thresh=config['detect']['thresh'])
""", """    thresh = config['detect']['thresh']

    if config['subtract_sky']:
        subtract_sky_mbexp(mbexp=mbexp, thresh=thresh)
"""), (PH, """    dbtask = measure.get_detect_and_deblend_task(
        thresh=config['detect']['thresh'],
""", """    dbtask = measure.get_detect_and_deblend_task(
        thresh=thresh,
""")]),
    ('photo-reorder', [(PH, """    ormask = combine_ormasks(mbexp, ormasks)
    mfrac, wgts = get_mfrac_mbexp(mbexp, mfrac_mbexp)
""", """    mfrac, wgts = get_mfrac_mbexp(mbexp, mfrac_mbexp)
    ormask = combine_ormasks(mbexp, ormasks)
""")]),
    ('meas-detexp-helper', [(ME, """        if len(mbexp.singles) > 1:
            detexp = util.coadd_exposures(mbexp.singles)
            if detexp is None:
                return [], None, None
        else:
            detexp = mbexp.singles[0]

        # background measurement within the detection code requires ExposureF
        if not isinstance(detexp, afw_image.ExposureF):
            detexp = afw_image.ExposureF(detexp, deep=True)
""", """        detexp = self._get_detexp(mbexp)
        if detexp is None:
            return [], None, None
"""), (ME, """    def _run_with_sdss(self, detexp):
""", """    def _get_detexp(self, mbexp):
        if len(mbexp.singles) > 1:
            detexp = util.coadd_exposures(mbexp.singles)
            if detexp is None:
                return None
        else:
            detexp = mbexp.singles[0]

        # background measurement within the detection code requires ExposureF
        if not isinstance(detexp, afw_image.ExposureF):
            detexp = afw_image.ExposureF(detexp, deep=True)

        return detexp

    def _run_with_sdss(self, detexp):
""")]),
    ('meas-sdss-early', [(ME, """        if result is not None:
            sources = result.sources
            self.deblend.run(detexp, sources)
""", """        if result is None:
            return []

        sources = result.sources
        self.deblend.run(detexp, sources)
"""), (ME, """        else:
            sources = []

        return sources

    def _run_with_scarlet""", """        return sources

    def _run_with_scarlet""")]),
    ('meas-scarlet-early', [(ME, """        result = self.detect.run(table, detexp)

        if result is not None:
            orig_sources = result.sources

            mbexp_deconvolved = util.make_deconvolved_mbexp(
                mbexp, orig_sources,
            )

            scl_res = self.deblend.run(
                mExposure=mbexp,
                mDeconvolved=mbexp_deconvolved,
                mergedSources=orig_sources,
            )

            model_data = scl_res.scarletModelData
            sources = scl_res.deblendedCatalog

            # we need to attach footprints in order to do basic measurements as
            # well as do the deblending

            updateCatalogFootprints(
                modelData=model_data,
                catalog=sources,
                band='i',
                removeScarletData=False,
                updateFluxColumns=True,
            )

        else:
            sources = []
            model_data = None

        return sources, model_data
""", """        result = self.detect.run(table, detexp)
        if result is None:
            return [], None

        mbexp_deconvolved = util.make_deconvolved_mbexp(mbexp, result.sources)

        scl_res = self.deblend.run(
            mExposure=mbexp,
            mDeconvolved=mbexp_deconvolved,
            mergedSources=result.sources,
        )

        # we need to attach footprints in order to do basic measurements as
        # well as do the deblending
        updateCatalogFootprints(
            modelData=scl_res.scarletModelData,
            catalog=scl_res.deblendedCatalog,
            band='i',
            removeScarletData=False,
            updateFluxColumns=True,
        )

        return scl_res.deblendedCatalog, scl_res.scarletModelData
""")]),
    ('meas-stamp-helper', [(ME, """        stamp_flags = 0
        try:
            # mbobs = util.get_stamp_mbobs(
            #     mbexp=mbexp,
            #     source=source,
            #     stamp_size=config['stamp_size'],
            # )
            with extractor.add_source(source_id):
                mbobs = extractor.get_mbobs(
                    source_id=source_id,
                    stamp_size=config['stamp_size'],
                )
        except LengthError as err:
            # This is raised when a bbox hits an edge
            LOG.debug('%s', err)
            stamp_flags = EDGE_HIT
        except util.AllZeroWeightError as err:
            # failure creating some observation due to all weights being zero
            # across the stamp
            LOG.info('%s', err)
            stamp_flags = ZERO_WEIGHTS

        if stamp_flags != 0:
""", """        mbobs, stamp_flags = _get_stamp(
            extractor, source_id, config['stamp_size'],
        )

        if stamp_flags != 0:
"""), (ME, """def _get_extractor(mbexp, sources, model_data):
""", """def _get_stamp(extractor, source_id, stamp_size):
    mbobs = None
    stamp_flags = 0
    try:
        with extractor.add_source(source_id):
            mbobs = extractor.get_mbobs(
                source_id=source_id,
                stamp_size=stamp_size,
            )
    except LengthError as err:
        # This is raised when a bbox hits an edge
        LOG.debug('%s', err)
        stamp_flags = EDGE_HIT
    except util.AllZeroWeightError as err:
        # failure creating some observation due to all weights being zero
        # across the stamp
        LOG.info('%s', err)
        stamp_flags = ZERO_WEIGHTS

    return mbobs, stamp_flags


def _get_extractor(mbexp, sources, model_data):
""")]),
    ('meas-psf-helper', [(ME, """            # TODO do something with bmask_flags?
            psf_fitter = ngmix.admom.AdmomFitter(rng=rng)
            psf_guesser = ngmix.guessers.GMixPSFGuesser(
                rng=rng,
                ngauss=1,
                guess_from_moms=True,
            )
            psf_runner = ngmix.runners.PSFRunner(
                fitter=psf_fitter,
                guesser=psf_guesser,
                ntry=4,
            )

            this_gauss_res""", """            # TODO do something with bmask_flags?
            psf_runner = _get_psf_runner(rng)

            this_gauss_res"""), (ME, """def _get_extractor(mbexp, sources, model_data):
""", """def _get_psf_runner(rng):
    return ngmix.runners.PSFRunner(
        fitter=ngmix.admom.AdmomFitter(rng=rng),
        guesser=ngmix.guessers.GMixPSFGuesser(
            rng=rng,
            ngauss=1,
            guess_from_moms=True,
        ),
        ntry=4,
    )


def _get_extractor(mbexp, sources, model_data):
""")]),
    ('meas-if-swap', [(ME, """        if stamp_flags != 0:

            this_gauss_res = get_wavg_output_struct(
                nband=nband,
                model='gauss',
                shear_bands=shear_band_indices,
            )
            this_pgauss_res = get_wavg_output_struct(
                nband=nband,
                model='pgauss',
            )

        else:

            # TODO do something with bmask_flags?
            psf_fitter = ngmix.admom.AdmomFitter(rng=rng)
            psf_guesser = ngmix.guessers.GMixPSFGuesser(
                rng=rng,
                ngauss=1,
                guess_from_moms=True,
            )
            psf_runner = ngmix.runners.PSFRunner(
                fitter=psf_fitter,
                guesser=psf_guesser,
                ntry=4,
            )

            this_gauss_res = fit_mbobs_gauss(
                mbobs=mbobs,
                bmask_flags=0,
                psf_runner=psf_runner,
                rng=rng,
                shear_bands=shear_band_indices,
            )

            this_pgauss_res = fit_mbobs_wavg(
                mbobs=mbobs,
                fitter=pgauss_fitter,
                bmask_flags=0,
            )
""", """        if stamp_flags == 0:
            # TODO do something with bmask_flags?
            psf_fitter = ngmix.admom.AdmomFitter(rng=rng)
            psf_guesser = ngmix.guessers.GMixPSFGuesser(
                rng=rng,
                ngauss=1,
                guess_from_moms=True,
            )
            psf_runner = ngmix.runners.PSFRunner(
                fitter=psf_fitter,
                guesser=psf_guesser,
                ntry=4,
            )

            this_gauss_res = fit_mbobs_gauss(
                mbobs=mbobs,
                bmask_flags=0,
                psf_runner=psf_runner,
                rng=rng,
                shear_bands=shear_band_indices,
            )

            this_pgauss_res = fit_mbobs_wavg(
                mbobs=mbobs,
                fitter=pgauss_fitter,
                bmask_flags=0,
            )
        else:
            this_gauss_res = get_wavg_output_struct(
                nband=nband,
                model='gauss',
                shear_bands=shear_band_indices,
            )
            this_pgauss_res = get_wavg_output_struct(
                nband=nband,
                model='pgauss',
            )
""")]),
    ('meas-returns', [(ME, """    if len(results) > 0:
        results = eu.numpy_util.combine_arrlist(results)
    else:
        results = None

    return results
""", """    if not results:
        return None

    return eu.numpy_util.combine_arrlist(results)
""")]),
    ('meas-extractor-returns', [(ME, """    if model_data is not None:
        LOG.info('Using ModelSubtractor to get stamps')
        mbobs_extractor = ModelSubtractor(
            mbexp=mbexp,
            sources=sources,
            model_data=model_data,
        )
    else:
        LOG.info('Using MBObsExtractor to get stamps')
        mbobs_extractor = MBObsExtractor(mbexp, sources)

    return mbobs_extractor
""", """    if model_data is None:
        LOG.info('Using MBObsExtractor to get stamps')
        return MBObsExtractor(mbexp=mbexp, sources=sources)

    LOG.info('Using ModelSubtractor to get stamps')
    return ModelSubtractor(
        mbexp=mbexp, sources=sources, model_data=model_data,
    )
""")]),
    ('meas-struct-comp', [(ME, """    keep_dt = [('stamp_flags', 'i4')]

    for pdt in pgauss_res.dtype.descr:

        n = pdt[0]

        if 'psf' in n or n in skip:
            continue

        keep_dt.append(pdt)
""", """    keep_dt = [('stamp_flags', 'i4')] + [
        pdt for pdt in pgauss_res.dtype.descr
        if 'psf' not in pdt[0] and pdt[0] not in skip
    ]
""")]),
    ('meas-struct-copy', [(ME, """    for n in pgauss_res.dtype.names:
        if n in out.dtype.names and n != "shear_bands":
            out[n] = pgauss_res[n]

    return out
""", """    for name in pgauss_res.dtype.names:
        if name == "shear_bands" or name not in out.dtype.names:
            continue
        out[name] = pgauss_res[name]

    return out
""")]),
    ('meas-bmasks-comp', [(ME, """    bmasks = []
    for source in sources:
        bmask = get_bmask(source=source, exposure=exposure)
        bmasks.append(bmask)
    return bmasks
""", """    return [get_bmask(source=source, exposure=exposure) for source in sources]
""")]),
    ('meas-peak-helper', [(ME, """    peak = source.getFootprint().getPeaks()[0]
    orig_cen = peak.getI()
    maskval = exposure.mask[orig_cen]
    return maskval
""", """    return exposure.mask[_get_peak(source).getI()]


def _get_peak(source):
    return source.getFootprint().getPeaks()[0]
"""), (ME, """    peak = source.getFootprint().getPeaks()[0]
    peak_loc = peak.getI()
""", """    peak = _get_peak(source)
    peak_loc = peak.getI()
""")]),
    ('meas-default-helper', [(ME, """    for subdt in dt:
        name = subdt[0]
        dtype = subdt[1]

        if 'flags' in name:
            output[name] = NO_ATTEMPT
        elif name in ('bmask', 'ormask'):
            output[name] = 0
        elif dtype[0] == 'i':
            output[name] = -9999
        else:
            output[name] = np.nan

    return output
""", """    for subdt in dt:
        name, dtype = subdt[:2]
        output[name] = _get_default(name, dtype)

    return output


def _get_default(name, dtype):
    if 'flags' in name:
        return NO_ATTEMPT
    if name in ('bmask', 'ormask'):
        return 0
    if dtype[0] == 'i':
        return -9999
    return np.nan
""")]),
    ('meas-output-xy', [(ME, """    if np.isnan(orig_cen.getY()):
        orig_cen = peak.getCentroid()
        cen_offset = geom.Point2D(np.nan, np.nan)
    else:
        cen_offset = geom.Point2D(
            orig_cen.getX() - peak_loc.getX(),
            orig_cen.getY() - peak_loc.getY(),
        )

    skypos = wcs.pixelToSky(orig_cen)
""", """    if not np.isnan(orig_cen.getY()):
        dx = orig_cen.getX() - peak_loc.getX()
        dy = orig_cen.getY() - peak_loc.getY()
        cen_offset = geom.Point2D(dx, dy)
    else:
        orig_cen = peak.getCentroid()
        cen_offset = geom.Point2D(np.nan, np.nan)

    skypos = wcs.pixelToSky(orig_cen)
""")]),
    ('meas-output-order', [(ME, """    output['stamp_size'] = stamp_size
    output['row0'] = exp_bbox.getBeginY()
    output['col0'] = exp_bbox.getBeginX()
    output['row'] = orig_cen.getY()
    output['col'] = orig_cen.getX()
    output['row_diff'] = cen_offset.getY()
    output['col_diff'] = cen_offset.getX()

    output['ra'] = skypos.getRa().asDegrees()
    output['dec'] = skypos.getDec().asDegrees()

    # remove DETECTED bit, it is just clutter since all detected
    # objects have this bit set
    detected = afw_image.Mask.getPlaneBitMask('DETECTED')
    output['bmask'] = bmask & ~detected
""", """    # remove DETECTED bit, it is just clutter since all detected
    # objects have this bit set
    detected = afw_image.Mask.getPlaneBitMask('DETECTED')

    values = {
        'stamp_size': stamp_size,
        'row0': exp_bbox.getBeginY(),
        'col0': exp_bbox.getBeginX(),
        'row': orig_cen.getY(),
        'col': orig_cen.getX(),
        'row_diff': cen_offset.getY(),
        'col_diff': cen_offset.getX(),
        'ra': skypos.getRa().asDegrees(),
        'dec': skypos.getDec().asDegrees(),
        'bmask': bmask & ~detected,
    }
    for name, value in values.items():
        output[name] = value
""")]),
    ('meas-thresh-setdefault', [(ME, """    if thresh:
        if 'detect' not in config_override:
            config_override['detect'] = {}
        config_override['detect']['thresholdValue'] = thresh
""", """    if thresh:
        config_override.setdefault('detect', {})['thresholdValue'] = thresh
""")]),
    ('mdet-attach-helper', [(MD, """            if res is not None:
                band = mcal_mbexp.bands[0]
                exp = mcal_mbexp[band]

                add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
                add_ormask(ormask, res)
                add_original_psf(psf_stats, res)

            result[shear_str] = res
""", """            if res is not None:
                _attach(config, mfrac, ormask, psf_stats, mcal_mbexp, res)

            result[shear_str] = res
"""), (MD, """def detect_deblend_and_measure(
""", """def _attach(config, mfrac, ormask, psf_stats, mbexp, res):
    exp = mbexp[mbexp.bands[0]]

    add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
    add_ormask(ormask, res)
    add_original_psf(psf_stats, res)


def detect_deblend_and_measure(
""")]),
    ('mdet-perband-ifexp', [(MD, """        metacal_types = config['metacal'].get('types', None)

        if config['metacal']['reconv_type'] == 'fitgauss':
            perband_psf_stats = psf_stats['perband']
        else:
            perband_psf_stats = None
""", """        metacal_config = config['metacal']
        metacal_types = metacal_config.get('types')

        perband_psf_stats = None
        if metacal_config['reconv_type'] == 'fitgauss':
            perband_psf_stats = psf_stats['perband']
""")]),
    ('mdet-mfrac-early', [(MD, """    if np.any(mfrac > 0):

        cen, _ = util.get_integer_center(
            wcs=exp.getWcs(),
            bbox=exp.getBBox(),
            as_double=True,
        )
        jac = util.get_jacobian(exp=exp, cen=cen)

        res['mfrac'] = measure_weighted_mfrac(
            mfrac=mfrac,
            x=res['col'] - res['col0'],
            y=res['row'] - res['row0'],
            jac=jac,
            fwhm=config.get('mfrac_fwhm', None),
        )
    else:
        res['mfrac'] = 0
""", """    if not np.any(mfrac > 0):
        res['mfrac'] = 0
        return

    cen, _ = util.get_integer_center(exp.getWcs(), exp.getBBox(), as_double=True)
    jac = util.get_jacobian(exp, cen)

    x = res['col'] - res['col0']
    y = res['row'] - res['row0']
    res['mfrac'] = measure_weighted_mfrac(
        mfrac=mfrac, x=x, y=y, jac=jac, fwhm=config.get('mfrac_fwhm'),
    )
""")]),
    ('mdet-wmfrac-minmax', [(MD, """        xstart = ix - box_rad
        xend = max(ix + box_rad + 1, 0)
        ystart = iy - box_rad
        yend = max(iy + box_rad + 1, 0)

        if xstart < 0:
            xstart = 0
        if ystart < 0:
            ystart = 0
        if xend > nx:
            xend = nx
        if yend > ny:
            yend = ny
""", """        xstart = max(ix - box_rad, 0)
        xend = min(max(ix + box_rad + 1, 0), nx)
        ystart = max(iy - box_rad, 0)
        yend = min(max(iy + box_rad + 1, 0), ny)
""")]),
    ('mdet-wmfrac-helper', [(MD, """        xstart = ix - box_rad
        xend = max(ix + box_rad + 1, 0)
        ystart = iy - box_rad
        yend = max(iy + box_rad + 1, 0)

        if xstart < 0:
            xstart = 0
        if ystart < 0:
            ystart = 0
        if xend > nx:
            xend = nx
        if yend > ny:
            yend = ny
""", """        xstart, xend = _get_range(ix, box_rad, nx)
        ystart, yend = _get_range(iy, box_rad, ny)
"""), (MD, """def measure_weighted_mfrac(
""", """def _get_range(cen, rad, n):
    start = cen - rad
    end = max(cen + rad + 1, 0)

    if start < 0:
        start = 0
    if end > n:
        end = n

    return start, end


def measure_weighted_mfrac(
""")]),
    ('mdet-wmfrac-continue', [(MD, """        if sub_mfrac.size == 0:
            mfracs.append(1.0)
        else:
            cy, cx = (y[i] - ystart, x[i] - xstart)
            this_jac = jac.copy()
            this_jac.set_cen(row=cy, col=cx)

            obs = ngmix.Observation(
                image=sub_mfrac,
                jacobian=this_jac,
            )

            stats = gauss_wgt.get_weighted_sums(obs, maxrad=box_rad)
""", """        if sub_mfrac.size == 0:
            mfracs.append(1.0)
            continue

        else:
            this_jac = jac.copy()
            this_jac.set_cen(row=y[i] - ystart, col=x[i] - xstart)

            obs = ngmix.Observation(
                image=sub_mfrac,
                jacobian=this_jac,
            )

            stats = gauss_wgt.get_weighted_sums(obs, maxrad=box_rad)
""")]),
    ('mdet-wmfrac-zip', [(MD, """    for i in range(x.shape[0]):
        ix = int(np.floor(x[i] + 0.5))
        iy = int(np.floor(y[i] + 0.5))
""", """    for xval, yval in zip(x, y):
        ix = int(np.floor(xval + 0.5))
        iy = int(np.floor(yval + 0.5))
"""), (MD, """            cy, cx = (y[i] - ystart, x[i] - xstart)
""", """            cy, cx = (yval - ystart, xval - xstart)
""")]),
    ('mdet-ormask-clip', [(MD, """        local_row = int(np.floor(row_diff + 0.5))
        local_col = int(np.floor(col_diff + 0.5))

        local_row = min(max(local_row, 0), nrow - 1)
        local_col = min(max(local_col, 0), ncol - 1)

        res['ormask'][i] = ormask[local_row, local_col]
""", """        local_row = _clip(int(np.floor(row_diff + 0.5)), nrow)
        local_col = _clip(int(np.floor(col_diff + 0.5)), ncol)

        res['ormask'][i] = ormask[local_row, local_col]


def _clip(ind, size):
    if ind < 0:
        return 0
    if ind > size - 1:
        return size - 1
    return ind
""")]),
    ('mdet-ormask-arrays', [(MD, """    for i in range(res.size):
        row_diff = res['row'][i] - res['row0'][i]
        col_diff = res['col'][i] - res['col0'][i]
        local_row""", """    row_diffs = res['row'] - res['row0']
    col_diffs = res['col'] - res['col0']
    for i in range(res.size):
        row_diff = row_diffs[i]
        col_diff = col_diffs[i]
        local_row""")]),
    ('mdet-psf-loop', [(MD, """    res['psfrec_g'][:, 0] = psf_stats['g1']
    res['psfrec_g'][:, 1] = psf_stats['g2']
    res['psfrec_T'][:] = psf_stats['T']
""", """    res['psfrec_T'][:] = psf_stats['T']
    for i, name in enumerate(['g1', 'g2']):
        res['psfrec_g'][:, i] = psf_stats[name]
""")]),
    ('mdet-psf-names', [(MD, """    res['psfrec_flags'][:] = psf_stats['flags']
    res['psfrec_navg'][:] = psf_stats['navg']
    res['psfrec_g'][:, 0] = psf_stats['g1']
    res['psfrec_g'][:, 1] = psf_stats['g2']
    res['psfrec_T'][:] = psf_stats['T']
""", """    for name in ('flags', 'navg', 'T'):
        res[f'psfrec_{name}'][:] = psf_stats[name]

    res['psfrec_g'][:, 0] = psf_stats['g1']
    res['psfrec_g'][:, 1] = psf_stats['g2']
""")]),
    ('mdet-combine-none', [(MD, """        for imask, tormask in enumerate(ormasks):
            if imask == 0:
                ormask = tormask.copy()
            else:
                ormask |= tormask
""", """        ormask = ormasks[0].copy()
        for tormask in ormasks[1:]:
            ormask |= tormask
""")]),
    ('mdet-combine-early', [(MD, """    if ormasks is None:
        bands = mbexp.bands
        dims = mbexp[bands[0]].image.array.shape
        ormask = np.zeros(dims, dtype='i4')
    else:
        for imask, tormask in enumerate(ormasks):
            if imask == 0:
                ormask = tormask.copy()
            else:
                ormask |= tormask

    return ormask
""", """    if ormasks is None:
        exp = mbexp[mbexp.bands[0]]
        return np.zeros(exp.image.array.shape, dtype='i4')

    ormask = None
    for tormask in ormasks:
        if ormask is None:
            ormask = tormask.copy()
        else:
            ormask |= tormask

    return ormask
""")]),
    ('mdet-mfrac-weight-helper', [(MD, """        varray = exp.variance.array
        w = np.where(np.isfinite(varray) & (varray > 0))

        if w[0].size == 0:
            raise ValueError('no variance are finite')

        var = np.median(exp.variance.array[w])
        wgt = 1 / var
        wgts.append(wgt)
""", """        varray = exp.variance.array
        wgt = _get_wgt(varray)
        wgts.append(wgt)
"""), (MD, """def get_mfrac_mbexp(mbexp, mfrac_mbexp):
""", """def _get_wgt(varray):
    good = np.isfinite(varray) & (varray > 0)
    if not np.any(good):
        raise ValueError('no variance are finite')

    return 1 / np.median(varray[good])


def get_mfrac_mbexp(mbexp, mfrac_mbexp):
""")]),
    ('mdet-mfrac-wsum', [(MD, """    mfrac *= 1.0 / wsum

    return mfrac, wgts
""", """    mfrac /= wsum

    return mfrac, wgts
""")]),
    ('mdet-mfrac-sum', [(MD, """        wgts.append(wgt)
        wsum += wgt

        if mfrac_exp""", """        wgts.append(wgt)

        if mfrac_exp"""), (MD, """    mfrac *= 1.0 / wsum
""", """    mfrac *= 1.0 / sum(wgts)
"""), (MD, """    wgts = []

    wsum = 0.0

    if mfrac_mbexp""", """    wgts = []

    if mfrac_mbexp""")]),
    ('mdet-fit-enumerate', [(MD, """        for iband, exp, wgt in zip(range(nband), mbexp, wgts):
""", """        for iband, (exp, wgt) in enumerate(zip(mbexp, wgts)):
""")]),
    ('mdet-fit-helper', [(MD, """            cen, _ = util.get_integer_center(
                wcs=exp.getWcs(),
                bbox=exp.getBBox(),
                as_double=True,
            )
            jac = util.get_jacobian(exp=exp, cen=cen)

            psf_im = util.extract_psf_image(exp, cen)

            psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0
            psf_jacob = jac.copy()
            psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])

            psf_obs = ngmix.Observation(
                psf_im,
                jacobian=psf_jacob,
            )
            res = runner.go(obs=psf_obs)
""", """            psf_obs = _get_psf_obs(exp)
            res = runner.go(obs=psf_obs)
"""), (MD, """def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
""", """def _get_psf_obs(exp):
    cen, _ = util.get_integer_center(
        wcs=exp.getWcs(),
        bbox=exp.getBBox(),
        as_double=True,
    )
    jac = util.get_jacobian(exp=exp, cen=cen)

    psf_im = util.extract_psf_image(exp, cen)

    psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0
    psf_jacob = jac.copy()
    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])

    return ngmix.Observation(
        psf_im,
        jacobian=psf_jacob,
    )


def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
""")]),
    ('mdet-fit-else', [(MD, """        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)

    except (BootPSFFailure, GMixRangeError):
        flags = procflags.PSF_FAILURE
        e1 = -9999.0
        e2 = -9999.0
        g1 = -9999.0
        g2 = -9999.0
        T = -9999.0

        perband = None
    else:
""", """        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)

    except (BootPSFFailure, GMixRangeError):
        flags = procflags.PSF_FAILURE
        e1 = e2 = g1 = g2 = T = -9999.0
        perband = None
    else:
""")]),
    ('mdet-fit-continue', [(MD, """            if iband in shear_band_indices:
                perband['is_shear_band'][iband] = True
                navg += 1
""", """            is_shear_band = iband in shear_band_indices
            perband['is_shear_band'][iband] = is_shear_band
            if is_shear_band:
                navg += 1
""")]),
    ('mdet-detect-return', [(MD, """    results = measure.measure(
        mbexp=mbexp,
        model_data=model_data,
        meas_task=dbtask.meas,
        detexp=detexp,
        sources=sources,
        config=config,
        rng=rng,
        show=show,
    )

    return results
""", """    return measure.measure(
        mbexp=mbexp,
        detexp=detexp,
        sources=sources,
        model_data=model_data,
        meas_task=dbtask.meas,
        config=config,
        rng=rng,
        show=show,
    )
""")]),
    ('mdet-config-or', [(MD, """    config_override = config if config is not None else {}
    config = MetadetectConfig()
    config.setDefaults()

    util.override_config(config, config_override)

    config.freeze()
    config.validate()
    task = MetadetectTask(config=config)
""", """    mdet_config = MetadetectConfig()
    mdet_config.setDefaults()

    if config is not None:
        util.override_config(mdet_config, config)

    mdet_config.freeze()
    mdet_config.validate()
    task = MetadetectTask(config=mdet_config)
""")]),
    ('mdet-valid-types', [(MD, """        if not set(self.types).issubset({"noshear", "1p", "1m", "2p", "2m"}):
            raise""", """        allowed = {"noshear", "1p", "1m", "2p", "2m"}
        if not set(self.types).issubset(allowed):
            raise""")]),
    ('ms-two-loops', [(MS, """        for band in self.bands:

            if type == 'add':
                heavy[band].addTo(mbexp[band].image[bbox])
            else:
                heavy[band].subtractFrom(mbexp[band].image[bbox])
""", """        for band in self.bands:
            image = mbexp[band].image[bbox]
            if type == 'add':
                heavy[band].addTo(image)
            else:
                heavy[band].subtractFrom(image)
""")]),
    ('ms-select-helper', [(MS, """        self.check_source_id(source_id)

        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)

        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        exposures = [mbexp[band][bbox] for band in self.bands]
        return util.get_mbexp(exposures)
""", """        self.check_source_id(source_id)

        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)
        mbexp = self._get_source_mbexp(type)

        exposures = [mbexp[band][bbox] for band in self.bands]
        return util.get_mbexp(exposures)

    def _get_source_mbexp(self, type):
        return self.orig if type == 'original' else self.mbexp
"""), (MS, """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        source = self.sources.find(source_id)
""", """        mbexp = self._get_source_mbexp(type)

        source = self.sources.find(source_id)
""")]),
    ('ms-model-comp', [(MS, """        exposures = []
        for band in self.bands:
            im = heavy[band].extractImage()
            masked_im = afw_image.MaskedImageF(im.clone())
            exp = afw_image.ExposureF(masked_im)
            exp.setFilter(afw_image.FilterLabel(band))
            exposures.append(exp)

        return util.get_mbexp(exposures)
""", """        return util.get_mbexp([
            self._get_band_model(heavy, band) for band in self.bands
        ])

    def _get_band_model(self, heavy, band):
        im = heavy[band].extractImage()
        masked_im = afw_image.MaskedImageF(im.clone())
        exp = afw_image.ExposureF(masked_im)
        exp.setFilter(afw_image.FilterLabel(band))
        return exp
""")]),
    ('ms-full-model', [(MS, """        for sid, heavy in self.heavies.items():
            bbox = self.bboxes[sid]
            for band in self.bands:
                heavy[band].addTo(model[band].image[bbox])

        return model
""", """        for sid in self.heavies:
            heavy = self.heavies[sid]
            for band in self.bands:
                heavy[band].addTo(model[band].image[self.bboxes[sid]])

        return model
""")]),
    ('ms-bbox-early', [(MS, """        if stamp_size is not None:
            fp = self.footprints[source_id]
            peak = fp.getPeaks()[0]
""", """        fp = self.footprints[source_id]
        if stamp_size is not None:
            peak = fp.getPeaks()[0]
"""), (MS, """        else:
            fp = self.footprints[source_id]
            bbox = fp.getBBox()

        return bbox
""", """        else:
            bbox = fp.getBBox()

        return bbox
""")]),
    ('ms-bbox-elif', [(MS, """            exp_bbox = self.mbexp.getBBox()
            if clip:
                bbox.clip(exp_bbox)
            else:
                if not exp_bbox.contains(bbox):
                    raise LengthError(
                        f'requested stamp size {stamp_size} for source '
                        f'{source_id} does not fit into the exposoure.  '
                        f'Use clip=True to clip the bbox to fit'
                    )
""", """            exp_bbox = self.mbexp.getBBox()
            if clip:
                bbox.clip(exp_bbox)
            elif not exp_bbox.contains(bbox):
                raise LengthError(
                    f'requested stamp size {stamp_size} for source '
                    f'{source_id} does not fit into the exposoure.  '
                    f'Use clip=True to clip the bbox to fit'
                )
""")]),
    ('ms-build-helper', [(MS, """                for scl_source in blend.sources:
                    sid = scl_source.metadata['id']
                    source = self.sources.find(sid)
                    footprint = source.getFootprint()
                    bbox = footprint.getBBox()

                    heavy = scarletModelToHeavy(source=scl_source, blend=blend)

                    for band in bands:
                        heavy[band].subtractFrom(self.mbexp[band].image[bbox])

                    self.bboxes[sid] = bbox
                    self.heavies[sid] = heavy
                    self.footprints[sid] = footprint
""", """                for scl_source in blend.sources:
                    self._subtract_one(scl_source, blend, bands)

    def _subtract_one(self, scl_source, blend, bands):
        sid = scl_source.metadata['id']
        footprint = self.sources.find(sid).getFootprint()
        bbox = footprint.getBBox()

        heavy = scarletModelToHeavy(source=scl_source, blend=blend)

        self.footprints[sid] = footprint
        self.bboxes[sid] = bbox
        self.heavies[sid] = heavy

        for band in bands:
            heavy[band].subtractFrom(self.mbexp[band].image[bbox])
""")]),
    ('ms-heavy-merge', [(MS, """    if useFlux:
        bbox = source.flux_weighted_image.bbox
    else:
        bbox = source.bbox.grow((dh, dw))
    overlap = bbox & blend.observation.bbox
    if useFlux:
        model = source.get_model(use_flux=True).project(bbox=overlap)
    else:
        model = source.get_model().project(bbox=overlap)
        model = blend.observation.convolve(model, mode="real")
""", """    observation = blend.observation
    if useFlux:
        overlap = source.flux_weighted_image.bbox & observation.bbox
        model = source.get_model(use_flux=True).project(bbox=overlap)
    else:
        overlap = source.bbox.grow((dh, dw)) & observation.bbox
        model = observation.convolve(
            source.get_model().project(bbox=overlap), mode="real",
        )
""")]),
]
