SK = 'metadetect/lsst/skysub.py'
UT = 'metadetect/lsst/util.py'
CF = 'metadetect/lsst/configs.py'
MK = 'metadetect/lsst/masking.py'
MX = 'metadetect/lsst/mbobs_extractor.py'
MC = 'metadetect/lsst/metacal_exposures.py'

REFS = [
    ('skysub-helper-log', [(SK, """        except LSSTRuntimeError as err:
            err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
            self.detect.log.warn(err)
            result = None
        except TaskError as err:
            err = str(err).replace('lsst.pipe.base.task.TaskError:', '')
            self.detect.log.warn(err)
            result = None

        return result
""", """        except LSSTRuntimeError as err:
            self._warn(err, 'lsst::pex::exceptions::RuntimeError:')
            result = None
        except TaskError as err:
            self._warn(err, 'lsst.pipe.base.task.TaskError:')
            result = None

        return result

    def _warn(self, err, prefix):
        message = str(err).replace(prefix, '')
        self.detect.log.warn(message)
""")]),
    ('skysub-return-early', [(SK, """            meta = exposure.getMetadata()

            # this is the overall sky we subtracted in all iterations
            meta['BGMEAN'] = sky_meas
        except LSSTRuntimeError as err:
            err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
            self.detect.log.warn(err)
            result = None
        except TaskError as err:
            err = str(err).replace('lsst.pipe.base.task.TaskError:', '')
            self.detect.log.warn(err)
            result = None

        return result
""", """            # this is the overall sky we subtracted in all iterations
            exposure.getMetadata()['BGMEAN'] = sky_meas
            return result
        except LSSTRuntimeError as err:
            err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
            self.detect.log.warn(err)
        except TaskError as err:
            err = str(err).replace('lsst.pipe.base.task.TaskError:', '')
            self.detect.log.warn(err)

        return None
""")]),
    ('skysub-iteration-helper', [(SK, """            for i in range(self.config.niter):
                self.back.run(exposure)
                result = self.detect.run(table, exposure)

                sky_meas += exposure.getMetadata()['BGMEAN']
""", """            for _ in range(self.config.niter):
                result, sky = self._iterate(table, exposure)
                sky_meas = sky_meas + sky
"""), (SK, """class SubtractSkyMbExpConfig(Config):
""", """    def _iterate(self, table, exposure):
        self.back.run(exposure)
        result = self.detect.run(table, exposure)
        return result, exposure.getMetadata()['BGMEAN']


class SubtractSkyMbExpConfig(Config):
""")]),
    ('skysub-setdefault', [(SK, """        if 'iterate_detection_and_skysub' not in config_override:
            config_override['iterate_detection_and_skysub'] = {}
        if 'detect' not in config_override['iterate_detection_and_skysub']:
            config_override['iterate_detection_and_skysub']['detect'] = {}

        detect_override = config_override['iterate_detection_and_skysub']['detect']
        detect_override['thresholdValue'] = thresh
""", """        sky_override = config_override.setdefault('iterate_detection_and_skysub', {})
        detect_override = sky_override.setdefault('detect', {})
        detect_override['thresholdValue'] = thresh
""")]),
    ('skysub-copy-if', [(SK, """    config_override = deepcopy(config) if config is not None else {}

    if thresh:
        if""", """    if config is None:
        config_override = {}
    else:
        config_override = deepcopy(config)

    if thresh:
        if""")]),
    ('skysub-iter-return-direct', [(SK, """    if niter:
        config_override['niter'] = niter

    config = IterateDetectionSkySubConfig()
    config.setDefaults()

    util.override_config(config, config_override)

    task = IterateDetectionSkySubTask(config=config)
    result = task.run(exposure)
    return result
""", """    # niter is at least one here
    config_override['niter'] = niter

    config = IterateDetectionSkySubConfig()
    config.setDefaults()

    util.override_config(config, config_override)

    return IterateDetectionSkySubTask(config=config).run(exposure)
""")]),
    ('configs-subkeys', [(CF, """        for key in config:
            if key not in DEFAULT_MDET_CONFIG:
                raise ValueError('bad key in mdet config: %s' % key)

            # deal with sub-configs
            if key in ['detect', 'metacal', 'pgauss']:
                new_config[key].update(config[key])
            else:
                new_config[key] = config[key]
""", """        for key, value in config.items():
            if key not in DEFAULT_MDET_CONFIG:
                raise ValueError(f'bad key in mdet config: {key}')

            # deal with sub-configs
            if key in ('detect', 'metacal', 'pgauss'):
                new_config[key].update(value)
            else:
                new_config[key] = value
""")]),
    ('configs-check-first', [(CF, """        for key in config:
            if key not in DEFAULT_MDET_CONFIG:
                raise ValueError('bad key in mdet config: %s' % key)

            # deal with sub-configs
""", """        for key in config:
            if key not in new_config:
                raise ValueError('bad key in mdet config: %s' % key)

            # deal with sub-configs
""")]),
    ('configs-helper', [(CF, """def _verify_detect_config(config):

    name = 'detect'
    _check_required_keywords(
        config=config, required_keys=['thresh'], name=name,
    )

    _check_keywords(config=config, allowed_keys=['thresh'], name=name)


def _verify_pgauss_config(config):

    name = 'pgauss'
    _check_required_keywords(
        config=config,
        required_keys=['fwhm'],
        name=name,
    )
    _check_keywords(
        config=config,
        allowed_keys=['fwhm'],
        name=name,
    )
""", """def _verify_detect_config(config):
    _check_exact(config, ['thresh'], 'detect')


def _verify_pgauss_config(config):
    _check_exact(config, ['fwhm'], 'pgauss')


def _check_exact(config, keys, name):
    _check_required_keywords(config=config, required_keys=keys, name=name)
    _check_keywords(config=config, allowed_keys=keys, name=name)
""")]),
    ('configs-any', [(CF, """    for key in config:
        if key not in allowed_keys:
            raise ValueError(f'key "{key}" not allowed in {name} config')
""", """    bad = [key for key in config if key not in allowed_keys]
    if bad:
        raise ValueError(f'key "{bad[0]}" not allowed in {name} config')
""")]),
    ('lmask-helper', [(MK, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:

            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= bright

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= bright

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0

    expanded""", """    _apply(bands, mbexp, noise_mbexp, mfrac_mbexp, ormasks, ap_mask, bright)

    expanded"""), (MK, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= edge

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0
""", """    _apply(bands, mbexp, noise_mbexp, mfrac_mbexp, ormasks, ap_mask, edge)


def _apply(bands, mbexp, noise_mbexp, mfrac_mbexp, ormasks, ap_mask, bit):
    msk = np.where(ap_mask < 1)
    if msk[0].size == 0:
        return

    for band in bands:
        exps = [mbexp[band]]
        if noise_mbexp is not None:
            exps.append(noise_mbexp[band])

        for exp in exps:
            exp.image.array[msk] *= ap_mask[msk]
            exp.variance.array[msk] = np.inf
            exp.mask.array[msk] |= bit

        if ormasks is not None:
            for ormask in ormasks:
                ormask[msk] |= bit

        if mfrac_mbexp is not None:
            mfrac_mbexp[band].image.array[msk] = 1.0
""")]),
    ('lmask-reorder', [(MK, """            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge

            if ormasks is not None:
                for ormask in ormasks:
                    ormask[msk] |= edge

            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0
""", """            if mfrac_mbexp is not None:
                mfrac_mbexp[band].image.array[msk] = 1.0

            for exp in exps:
                exp.mask.array[msk] |= edge
                exp.variance.array[msk] = np.inf
                exp.image.array[msk] *= ap_mask[msk]

        if ormasks is not None:
            for ormask in ormasks:
                ormask[msk] |= edge
""")]),
    ('lmask-exp0', [(MK, """    wcs = mbexp[bands[0]].getWcs()
    xy0 = mbexp[bands[0]].getXY0()
""", """    exp0 = mbexp[bands[0]]
    wcs = exp0.getWcs()
    xy0 = exp0.getXY0()
"""), (MK, """    dims = mbexp[bands[0]].image.array.shape
""", """    dims = exp0.image.array.shape
""")]),
    ('lmask-two-ifs', [(MK, """            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.mask.array[:, :] |= expanded_bmask
""", """            mbexp[band].mask.array[:, :] |= expanded_bmask
            if noise_mbexp is not None:
                noise_mbexp[band].mask.array[:, :] |= expanded_bmask
""")]),
    ('lmask-mbexps', [(MK, """        for band in bands:
            exps = [mbexp[band]]
            if noise_mbexp is not None:
                exps.append(noise_mbexp[band])

            for exp in exps:
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge
""", """        mbexps = [mbexp]
        if noise_mbexp is not None:
            mbexps.append(noise_mbexp)

        for band in bands:
            for this_mbexp in mbexps:
                exp = this_mbexp[band]
                exp.image.array[msk] *= ap_mask[msk]
                exp.variance.array[msk] = np.inf
                exp.mask.array[msk] |= edge
""")]),
    ('extractor-set-comp', [(MX, """        self._child_ids = set()
        for source in sources:
            if source['deblend_nChild'] == 0:
                self._child_ids.add(source.getId())
""", """        self._child_ids = {
            source.getId()
            for source in sources
            if source['deblend_nChild'] == 0
        }
""")]),
    ('extractor-loop-stamp', [(MX, """        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
        return util.get_mbexp(exposures)
""", """        exposures = []
        for band in self.mbexp.bands:
            exp = self.mbexp[band]
            exposures.append(exp[bbox])

        return util.get_mbexp(exposures)
""")]),
    ('extractor-bbox-helper', [(MX, """        self.check_source_id(source_id)

        source = self.sources.find(source_id)

        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        exposures""", """        source, bbox = self._find(source_id, stamp_size, clip)

        exposures"""), (MX, """        self.check_source_id(source_id)

        source = self.sources.find(source_id)

        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        mbobs = ngmix.MultiBandObsList()
""", """        source, bbox = self._find(source_id, stamp_size, clip)

        mbobs = ngmix.MultiBandObsList()
"""), (MX, """    def children(self):
""", """    def _find(self, source_id, stamp_size, clip):
        self.check_source_id(source_id)
        source = self.sources.find(source_id)
        bbox = util.get_bbox(
            mbexp=self.mbexp, source=source, stamp_size=stamp_size, clip=clip,
        )
        return source, bbox

    def children(self):
""")]),
    ('extractor-yield-from', [(MX, """        for sid in self._child_ids:
            yield sid
""", """        yield from self._child_ids
""")]),
    ('metacal-dictcomp', [(MC, """    mdict_with_explists = {}
    for shear_type in types:
        mdict_with_explists[shear_type] = []
""", """    mdict_with_explists = {shear_type: [] for shear_type in types}
"""), (MC, """    mdict = {}
    for shear_type in types:
        # this properly copies over the wcs and filter label
        mdict[shear_type] = get_mbexp(mdict_with_explists[shear_type])

    return mdict
""", """    return {
        shear_type: get_mbexp(mdict_with_explists[shear_type])
        for shear_type in types
    }
""")]),
    ('metacal-items', [(MC, """        for shear_type in this_mdict:
            exp = this_mdict[shear_type]
            mdict_with_explists[shear_type].append(exp)
""", """        for shear_type, sheared_exp in this_mdict.items():
            mdict_with_explists[shear_type].append(sheared_exp)
""")]),
    ('metacal-fixnoise-zip', [(MC, """    for shear_type in mdict:
        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            exp.image.array[:, :] += nexp.image.array[:, :]
            exp.variance.array[:, :] *= 2
""", """    for shear_type, sheared_mbexp in mdict.items():
        noise_sheared_mbexp = noise_mdict[shear_type]
        for exp, nexp in zip(sheared_mbexp, noise_sheared_mbexp):
            exp.variance.array[:, :] *= 2
            exp.image.array[:, :] += nexp.image.array
""")]),
    ('metacal-fixnoise-helper', [(MC, """        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            exp.image.array[:, :] += nexp.image.array[:, :]
            exp.variance.array[:, :] *= 2

    return mdict, noise_mdict
""", """        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            _add_noise(exp, nexp)

    return mdict, noise_mdict


def _add_noise(exp, nexp):
    exp.image.array[:, :] += nexp.image.array[:, :]
    exp.variance.array[:, :] *= 2
"""), (MC, """        exp = mdict[shear_type]
        nexp = noise_mdict[shear_type]

        exp.image.array[:, :] += nexp.image.array[:, :]
        exp.variance.array[:, :] *= 2
""", """        _add_noise(mdict[shear_type], noise_mdict[shear_type])
""")]),
    ('metacal-target-helper', [(MC, """    if psf_stats is not None:
        gauss_psf = _get_fitgauss_target_psf(
            e1=psf_stats['e1'],
            e2=psf_stats['e2'],
            T=psf_stats['T'],
            flux=psf_flux,
        )
    else:
        gauss_psf = _get_gauss_target_psf(psf_int, flux=psf_flux)
""", """    gauss_psf = _get_target_psf(psf_int, psf_flux, psf_stats)
"""), (MC, """def _get_metacal_exp(
""", """def _get_target_psf(psf_int, psf_flux, psf_stats):
    if psf_stats is None:
        return _get_gauss_target_psf(psf_int, flux=psf_flux)

    return _get_fitgauss_target_psf(
        e1=psf_stats['e1'],
        e2=psf_stats['e2'],
        T=psf_stats['T'],
        flux=psf_flux,
    )


def _get_metacal_exp(
""")]),
    ('metacal-shear-table', [(MC, """    if shear_type == '1p':
        shear = galsim.Shear(g1=STEP)
    elif shear_type == '1m':
        shear = galsim.Shear(g1=-STEP)
    elif shear_type == '2p':
        shear = galsim.Shear(g2=STEP)
    elif shear_type == '2m':
        shear = galsim.Shear(g2=-STEP)
    else:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    return shear
""", """    kwargs = {
        '1p': {'g1': STEP},
        '1m': {'g1': -STEP},
        '2p': {'g2': STEP},
        '2m': {'g2': -STEP},
    }
    if shear_type not in kwargs:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    return galsim.Shear(**kwargs[shear_type])
""")]),
    ('metacal-shear-returns', [(MC, """    if shear_type == '1p':
        shear = galsim.Shear(g1=STEP)
    elif shear_type == '1m':
        shear = galsim.Shear(g1=-STEP)
    elif shear_type == '2p':
        shear = galsim.Shear(g2=STEP)
    elif shear_type == '2m':
        shear = galsim.Shear(g2=-STEP)
    else:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    return shear
""", """    if shear_type not in ('1p', '1m', '2p', '2m'):
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    step = STEP if shear_type[1] == 'p' else -STEP
    if shear_type[0] == '1':
        return galsim.Shear(g1=step)
    return galsim.Shear(g2=step)
""")]),
    ('metacal-rot-inline', [(MC, """    eimage = exp.image.array.copy()
    if rot:
        eimage = np.rot90(eimage, k=1)
""", """    if rot:
        eimage = np.rot90(exp.image.array.copy(), k=1)
    else:
        eimage = exp.image.array.copy()
""")]),
    ('util-replacer-dictcomp', [(UT, """        footprints = {}
        for source in sources:
            parent_id = source.getParent()
            fp = source.getFootprint()
            heavy = afw_det.makeHeavyFootprint(fp, exposure.maskedImage)
            footprints[source.getId()] = (parent_id, heavy)
        # footprints = {
""", """        footprints = {
            source.getId(): (
                source.getParent(),
                afw_det.makeHeavyFootprint(
                    source.getFootprint(), exposure.maskedImage,
                ),
            )
            for source in sources
        }
        # footprints = {
""")]),
    ('util-extract-list', [(UT, """    exps = []
    noise_exps = []
    mfrac_exps = []
    ormasks = []
    for band, coadd_data in enumerate(coadd_data_list):
        exp = coadd_data['coadd_exp']
        noise_exp = coadd_data['coadd_noise_exp']
        mfrac_exp = coadd_data['coadd_mfrac_exp']

        ormasks.append(exp.mask.array.copy())
        exp.mask.array[:, :] = 0
        noise_exp.mask.array[:, :] = 0
        mfrac_exp.mask.array[:, :] = 0

        exps.append(exp)
        noise_exps.append(noise_exp)
        mfrac_exps.append(mfrac_exp)

    mbexp""", """    exps = [data['coadd_exp'] for data in coadd_data_list]
    noise_exps = [data['coadd_noise_exp'] for data in coadd_data_list]
    mfrac_exps = [data['coadd_mfrac_exp'] for data in coadd_data_list]

    ormasks = []
    for exp, noise_exp, mfrac_exp in zip(exps, noise_exps, mfrac_exps):
        ormasks.append(exp.mask.array.copy())
        for this_exp in (exp, noise_exp, mfrac_exp):
            this_exp.mask.array[:, :] = 0

    mbexp""")]),
    ('util-weight', [(UT, """    weight = var_image.copy()

    weight[:, :] = 0

    wuse = np.where(var_image > 0)

    if wuse[0].size > 0:
        medvar = np.median(var_image[wuse])
        weight[:, :] = 1.0 / medvar
    else:
        print('    weight is all zero, found none that passed cuts')

    return weight
""", """    weight = var_image.copy()

    good = var_image > 0

    if np.any(good):
        weight[:, :] = 1.0 / np.median(var_image[good])
    else:
        weight[:, :] = 0
        print('    weight is all zero, found none that passed cuts')

    return weight
""")]),
    ('util-fitter-returns', [(UT, """        fitter = ngmix.runners.Runner(
            fitter=fitter_obj,
            guesser=guesser,
            ntry=2,
        )
        # TODO is there a better way?
        fitter.kind = 'am'

    elif meas_type == 'gauss':
        fitter = 'gauss'
    else:
        fwhm = config['weight']['fwhm']

        if meas_type == 'wmom':
            fitter = ngmix.gaussmom.GaussMom(fwhm=fwhm)
        else:
            if meas_type == 'ksigma':
                fitter = ngmix.ksigmamom.KSigmaMom(fwhm=fwhm)
            elif meas_type == 'pgauss':
                fitter = ngmix.prepsfmom.PGaussMom(fwhm=fwhm)
            else:
                raise ValueError("bad meas_type: '%s'" % meas_type)

    return fitter
""", """        fitter = ngmix.runners.Runner(
            fitter=fitter_obj,
            guesser=guesser,
            ntry=2,
        )
        # TODO is there a better way?
        fitter.kind = 'am'
        return fitter

    if meas_type == 'gauss':
        return 'gauss'

    fwhm = config['weight']['fwhm']

    if meas_type == 'wmom':
        return ngmix.gaussmom.GaussMom(fwhm=fwhm)
    if meas_type == 'ksigma':
        return ngmix.ksigmamom.KSigmaMom(fwhm=fwhm)
    if meas_type == 'pgauss':
        return ngmix.prepsfmom.PGaussMom(fwhm=fwhm)

    raise ValueError("bad meas_type: '%s'" % meas_type)
""")]),
    ('util-shear-bands-loop', [(UT, """    if not all([sb in mbexp.bands for sb in shear_band_names]):
        raise RuntimeError(
            "Not all requested bands for shear are available. "
            f"Bands `{shear_band_names}` were requested but the only "
            f"bands available are `{mbexp.bands}`."
        )

    shear_band_indices = [
        i for i, band in enumerate(mbexp.bands)
        if band in shear_band_names
    ]

    return shear_band_indices
""", """    for sb in shear_band_names:
        if sb not in mbexp.bands:
            raise RuntimeError(
                "Not all requested bands for shear are available. "
                f"Bands `{shear_band_names}` were requested but the only "
                f"bands available are `{mbexp.bands}`."
            )

    shear_band_indices = []
    for i, band in enumerate(mbexp.bands):
        if band in shear_band_names:
            shear_band_indices.append(i)

    return shear_band_indices
""")]),
    ('util-shear-bands-any', [(UT, """    if not all([sb in mbexp.bands for sb in shear_band_names]):
""", """    if any(sb not in mbexp.bands for sb in shear_band_names):
""")]),
    ('util-override-order', [(UT, """        if isinstance(value, dict):
            subconfig = getattr(config, key)
            # Use recursion to allow for arbitrarily nested config objects.
            override_config(subconfig, value)
        else:
            setattr(config, key, value)
""", """        if not isinstance(value, dict):
            setattr(config, key, value)
            continue
        # Use recursion to allow for arbitrarily nested config objects.
        override_config(getattr(config, key), value)
""")]),
    ('util-jac-names', [(UT, """    dm_jac = wcs.linearizePixelToSky(cen, geom.arcseconds)
    matrix = dm_jac.getLinear().getMatrix()

    relative_cen = cen - geom.Extent2D(xy0)
""", """    linear = wcs.linearizePixelToSky(cen, geom.arcseconds).getLinear()
    offset = geom.Extent2D(xy0)
    relative_cen = cen - offset
    matrix = linear.getMatrix()
""")]),
    ('util-psf-try-narrow', [(UT, """    try:
        psfobj = exposure.getPsf()
        psfim = psfobj.computeKernelImage(orig_cen).array
    except InvalidParameterError:
        raise MissingDataError("could not reconstruct PSF")

    psfim = np.asarray(psfim, dtype='f4')

    shape = psfim.shape
    assert shape[0] == shape[1], 'require square psf images'
    assert shape[0] % 2 != 0, 'require odd psf images'

    return psfim
""", """    try:
        kernel_image = exposure.getPsf().computeKernelImage(orig_cen).array
    except InvalidParameterError:
        raise MissingDataError("could not reconstruct PSF")

    psfim = np.asarray(kernel_image, dtype='f4')

    nrow, ncol = psfim.shape
    assert nrow == ncol, 'require square psf images'
    assert nrow % 2 != 0, 'require odd psf images'

    return psfim
""")]),
    ('util-obs-reorder', [(UT, """    # use canonical center for the psf
    psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0
    psf_jacob = jacob.copy()
    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])

    # we will have need of the bit names which we can only
    # get from the mask object
    # this is sort of monkey patching, but I'm not sure of
    # a better solution

    meta = {'orig_cen': orig_cen}

    psf_obs = ngmix.Observation(
        psf_im,
        weight=psf_wt,
        jacobian=psf_jacob,
    )
    obs = ngmix.Observation(
        im,
        weight=wt,
        bmask=bmask,
        jacobian=jacob,
        psf=psf_obs,
        meta=meta,
    )

    return obs
""", """    # use canonical center for the psf
    psf_jacob = jacob.copy()
    row, col = (np.array(psf_im.shape) - 1.0) / 2.0
    psf_jacob.set_cen(row=row, col=col)

    psf_obs = ngmix.Observation(psf_im, weight=psf_wt, jacobian=psf_jacob)

    return ngmix.Observation(
        im,
        weight=wt,
        bmask=exp.mask.array,
        jacobian=jacob,
        psf=psf_obs,
        meta={'orig_cen': orig_cen},
    )
""")]),
    ('util-deconv-comp', [(UT, """    exps = []
    for exp in mbexp.singles:
        res = task.run(
            exp,
            sources,
            band=exp.getFilter().bandLabel
        )
        exps.append(res.deconvolved)

    return get_mbexp(exps)
""", """    return get_mbexp([
        task.run(exp, sources, band=exp.getFilter().bandLabel).deconvolved
        for exp in mbexp.singles
    ])
""")]),
]
