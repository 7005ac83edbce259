"""hand-made refactorings of metacal_exposures, model_subtractor, skysub, mbobs_extractor, photometry: second set"""
MX = 'metadetect/lsst/metacal_exposures.py'
MS = 'metadetect/lsst/model_subtractor.py'
SK = 'metadetect/lsst/skysub.py'
ME = 'metadetect/lsst/mbobs_extractor.py'
PH = 'metadetect/lsst/photometry.py'
REFS = [
    ('x8-fixnoise-outer-order', [(MX, """    mdict = get_metacal_mbexps(
        mbexp=mbexp, psf_stats=psf_stats, types=types,
    )
    noise_mdict = get_metacal_mbexps(
        mbexp=noise_mbexp, psf_stats=psf_stats, types=types, rot=True,
    )
    for shear_type in mdict:
        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            exp.image.array[:, :] += nexp.image.array[:, :]
            exp.variance.array[:, :] *= 2
""", """    mdict = get_metacal_mbexps(mbexp, types, False, psf_stats)
    noise_mdict = get_metacal_mbexps(noise_mbexp, types, True, psf_stats)

    for shear_type, this_mbexp in mdict.items():
        for exp, nexp in zip(this_mbexp, noise_mdict[shear_type]):
            exp.variance.array[:, :] *= 2
            exp.image.array[:, :] += nexp.image.array
""")]),
    ('x8-add-noise-helper', [(MX, """    for shear_type in types:
        exp = mdict[shear_type]
        nexp = noise_mdict[shear_type]

        exp.image.array[:, :] += nexp.image.array[:, :]
        exp.variance.array[:, :] *= 2

    return mdict, noise_mdict
""", """    for shear_type in types:
        _add_noise(mdict[shear_type], noise_mdict[shear_type])

    return mdict, noise_mdict


def _add_noise(exp, nexp):
    exp.image.array[:, :] += nexp.image.array[:, :]
    exp.variance.array[:, :] *= 2
"""), (MX, """        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            exp.image.array[:, :] += nexp.image.array[:, :]
            exp.variance.array[:, :] *= 2
""", """        for exp, nexp in zip(mdict[shear_type], noise_mdict[shear_type]):
            _add_noise(exp, nexp)
""")]),
    ('x8-mbexps-stats-expr', [(MX, """        if psf_stats is not None:
            psf_band_stats = psf_stats[iband]
        else:
            psf_band_stats = None

        this_mdict = get_metacal_exps(
            exp, psf_stats=psf_band_stats, types=types, rot=rot,
        )

        for shear_type in this_mdict:
            exp = this_mdict[shear_type]
            mdict_with_explists[shear_type].append(exp)
""", """        this_mdict = get_metacal_exps(
            exp,
            psf_stats=psf_stats[iband] if psf_stats is not None else None,
            types=types,
            rot=rot,
        )

        for shear_type, sheared_exp in this_mdict.items():
            mdict_with_explists[shear_type].append(sheared_exp)
""")]),
    ('x8-mbexps-dict-comps', [(MX, """    mdict_with_explists = {}
    for shear_type in types:
        mdict_with_explists[shear_type] = []

    for iband""", """    mdict_with_explists = {shear_type: [] for shear_type in types}

    for iband"""), (MX, """    mdict = {}
    for shear_type in types:
        mdict[shear_type] = get_mbexp(mdict_with_explists[shear_type])

    return mdict


def get_metacal_exps_fix""", """    return {
        shear_type: get_mbexp(explist)
        for shear_type, explist in mdict_with_explists.items()
    }


def get_metacal_exps_fix""")]),
    ('x8-mbexps-bands-first', [(MX, """    mdict_with_explists = {}
    for shear_type in types:
        mdict_with_explists[shear_type] = []

    for iband, band in enumerate(mbexp.bands):
        exp = mbexp[band]

        if psf_stats is not None:
            psf_band_stats = psf_stats[iband]
        else:
            psf_band_stats = None

        this_mdict = get_metacal_exps(
            exp, psf_stats=psf_band_stats, types=types, rot=rot,
        )

        for shear_type in this_mdict:
            exp = this_mdict[shear_type]
            mdict_with_explists[shear_type].append(exp)

    mdict = {}
    for shear_type in types:
        mdict[shear_type] = get_mbexp(mdict_with_explists[shear_type])

    return mdict
""", """    band_mdicts = []
    for iband, band in enumerate(mbexp.bands):
        if psf_stats is not None:
            psf_band_stats = psf_stats[iband]
        else:
            psf_band_stats = None

        band_mdicts.append(get_metacal_exps(
            mbexp[band], psf_stats=psf_band_stats, types=types, rot=rot,
        ))

    mdict = {}
    for shear_type in types:
        mdict[shear_type] = get_mbexp([
            band_mdict[shear_type] for band_mdict in band_mdicts
        ])

    return mdict
""")]),
    ('x8-assert-if', [(MX, """    if psf_stats is not None:
        assert len(psf_stats) == len(mbexp), (
            f'psf_stats with len {len(psf_stats)} is '
            f'a mismatch for mbexp len {len(mbexp)}'
        )
""", """    assert psf_stats is None or len(psf_stats) == len(mbexp), (
        f'psf_stats with len {len(psf_stats)} is '
        f'a mismatch for mbexp len {len(mbexp)}'
    )
""")]),
    ('x8-exps-rot-else', [(MX, """    eimage = exp.image.array.copy()
    if rot:
        eimage = np.rot90(eimage, k=1)

    image = galsim""", """    if rot:
        eimage = np.rot90(exp.image.array.copy(), k=1)
    else:
        eimage = exp.image.array.copy()

    image = galsim""")]),
    ('x8-exps-deconv-names', [(MX, """    image_int_nopsf = galsim.Convolve(
        galsim.InterpolatedImage(image, x_interpolant=INTERP),
        galsim.Deconvolve(psf_int),
    )
""", """    image_int = galsim.InterpolatedImage(image, x_interpolant=INTERP)
    psf_inv = galsim.Deconvolve(psf_int)
    image_int_nopsf = galsim.Convolve(image_int, psf_inv)
""")]),
    ('x8-exps-gauss-if', [(MX, """    if psf_stats is not None:
        gauss_psf = _get_fitgauss_target_psf(
            e1=psf_stats['e1'],
            e2=psf_stats['e2'],
            T=psf_stats['T'],
            flux=psf_flux,
        )
    else:
        gauss_psf = _get_gauss_target_psf(psf_int, flux=psf_flux)

    dilation = 1.0 + 2.0 * STEP
    psf_dilated = gauss_psf.dilate(dilation)
""", """    if psf_stats is None:
        gauss_psf = _get_gauss_target_psf(psf_int, flux=psf_flux)
    else:
        gauss_psf = _get_fitgauss_target_psf(
            psf_stats['e1'], psf_stats['e2'], psf_stats['T'], psf_flux,
        )

    psf_dilated = gauss_psf.dilate(1.0 + 2.0 * STEP)
""")]),
    ('x8-exps-dilate-helper', [(MX, """    dilation = 1.0 + 2.0 * STEP
    psf_dilated = gauss_psf.dilate(dilation)

    psf_dilated_image = psf_image.copy()
    psf_dilated.drawImage(image=psf_dilated_image, method='no_pixel')

    mdict = {}""", """    psf_dilated, psf_dilated_image = _dilate_psf(gauss_psf, psf_image)

    mdict = {}"""), (MX, """def _get_metacal_exp(
""", """def _dilate_psf(psf, image):
    dilated = psf.dilate(1.0 + 2.0 * STEP)
    dilated_image = image.copy()
    dilated.drawImage(image=dilated_image, method='no_pixel')
    return dilated, dilated_image


def _get_metacal_exp(
""")]),
    ('x8-exp-shear-inline', [(MX, """    if shear_type == 'noshear':
        obj = image_int_nopsf
    else:
        shear = get_shear_from_type(shear_type)
        obj = image_int_nopsf.shear(shear)

    shimage = image.copy()
    galsim.Convolve(obj, psf_dilated).drawImage(
        image=shimage, method='no_pixel',
    )
""", """    obj = image_int_nopsf
    if shear_type != 'noshear':
        obj = obj.shear(get_shear_from_type(shear_type))

    shimage = image.copy()
    conv = galsim.Convolve(obj, psf_dilated)
    conv.drawImage(image=shimage, method='no_pixel')
""")]),
    ('x8-exp-psf-first', [(MX, """    sexp = afw_image.ExposureD(exp, deep=True)

    if shear_type""", """    sexp = afw_image.ExposureD(exp, deep=True)
    sexp.setPsf(get_stack_kernel_psf(psf_dilated_image.array))

    if shear_type"""), (MX, """    sexp.image.array[:, :] = simage

    stack_psf = get_stack_kernel_psf(psf_dilated_image.array)
    sexp.setPsf(stack_psf)
    return sexp
""", """    sexp.image.array[:, :] = simage
    return sexp
""")]),
    ('x8-shear-signs', [(MX, """    if shear_type == '1p':
        shear = galsim.Shear(g1=STEP)
    elif shear_type == '1m':
        shear = galsim.Shear(g1=-STEP)
    elif shear_type == '2p':
        shear = galsim.Shear(g2=STEP)
    elif shear_type == '2m':
        shear = galsim.Shear(g2=-STEP)
    else:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    return shear
""", """    if shear_type not in ('1p', '1m', '2p', '2m'):
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    g = STEP if shear_type in ('1p', '2p') else -STEP
    if shear_type in ('1p', '1m'):
        return galsim.Shear(g1=g)

    return galsim.Shear(g2=g)
""")]),
    ('x8-shear-dict', [(MX, """    if shear_type == '1p':
        shear = galsim.Shear(g1=STEP)
    elif shear_type == '1m':
        shear = galsim.Shear(g1=-STEP)
    elif shear_type == '2p':
        shear = galsim.Shear(g2=STEP)
    elif shear_type == '2m':
        shear = galsim.Shear(g2=-STEP)
    else:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    return shear
""", """    shears = {
        '1p': {'g1': STEP},
        '1m': {'g1': -STEP},
        '2p': {'g2': STEP},
        '2m': {'g2': -STEP},
    }
    if shear_type not in shears:
        raise ValueError('shear type should be noshear, 1p, 1m, 2p, 2m')

    return galsim.Shear(**shears[shear_type])
""")]),
    ('x8-sigma', [(MX, """    dilation = _get_ellip_dilation(e1, e2, T)
    T_dilated = T * dilation
    sigma = np.sqrt(T_dilated / 2.0)

    return galsim.Gaussian(
        sigma=sigma,
        flux=flux,
    )
""", """    T_dilated = _get_ellip_dilation(e1, e2, T) * T
    return galsim.Gaussian(flux=flux, sigma=np.sqrt(0.5 * T_dilated))
""")]),
    ('x8-kernel-inline', [(MX, """    psf_image_array = get_psf_kernel_image(exp=exp, cen=cen)
    psf_flux""", """    psf_image_array = exp.getPsf().computeKernelImage(cen).array
    psf_flux""")]),
    ('s8-init-order', [(MS, """        self.orig = mbexp
        self.model_data = model_data

        # we will work with this copy rather than the original
        self.mbexp = util.copy_mbexp(mbexp)

        self.sources = sources

        self.bands = mbexp.bands
""", """        self.sources = sources
        self.model_data = model_data
        self.bands = mbexp.bands

        # we will work with this copy rather than the original
        self.orig = mbexp
        self.mbexp = util.copy_mbexp(mbexp)
""")]),
    ('s8-children-gen', [(MS, """        for sid in self.child_ids():
            yield self.sources.find(sid)

    def child_ids(self):
        \"\"\"
        Generator that yields child ids
        \"\"\"
        for sid in self.heavies:
            yield sid
""", """        for source_id in self.heavies:
            yield self.sources.find(source_id)

    def child_ids(self):
        \"\"\"
        Generator that yields child ids
        \"\"\"
        yield from self.heavies
""")]),
    ('s8-add-sub-split', [(MS, """        for band in self.bands:

            if type == 'add':
                heavy[band].addTo(mbexp[band].image[bbox])
            else:
                heavy[band].subtractFrom(mbexp[band].image[bbox])
""", """        if type == 'add':
            for band in self.bands:
                heavy[band].addTo(mbexp[band].image[bbox])
        else:
            for band in self.bands:
                heavy[band].subtractFrom(mbexp[band].image[bbox])
""")]),
    ('s8-add-sub-image', [(MS, """        for band in self.bands:

            if type == 'add':
                heavy[band].addTo(mbexp[band].image[bbox])
            else:
                heavy[band].subtractFrom(mbexp[band].image[bbox])
""", """        for band in self.bands:
            band_heavy = heavy[band]
            image = mbexp[band].image[bbox]

            if type != 'add':
                band_heavy.subtractFrom(image)
            else:
                band_heavy.addTo(image)
""")]),
    ('s8-which-mbexp', [(MS, """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        exposures = [mbexp[band][bbox] for band in self.bands]
        # return MultibandExposure.fromExposures(self.bands, exposures)
        return util.get_mbexp(exposures)
""", """        mbexp = self._get_mbexp_of_type(type)

        exposures = []
        for band in self.bands:
            exposures.append(mbexp[band][bbox])
        return util.get_mbexp(exposures)

    def _get_mbexp_of_type(self, type):
        if type == 'original':
            return self.orig
        return self.mbexp
"""), (MS, """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        source =""", """        mbexp = self._get_mbexp_of_type(type)

        source =""")]),
    ('s8-mbobs-order', [(MS, """        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)

        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        source = self.sources.find(source_id)
        mbobs = ngmix.MultiBandObsList()
""", """        mbexp = self.orig if type == 'original' else self.mbexp
        source = self.sources.find(source_id)
        bbox = self.get_bbox(source_id, stamp_size, clip)

        mbobs = ngmix.MultiBandObsList()
""")]),
    ('s8-model-helper', [(MS, """        exposures = []
        for band in self.bands:
            im = heavy[band].extractImage()
            masked_im = afw_image.MaskedImageF(im.clone())
            exp = afw_image.ExposureF(masked_im)
            exp.setFilter(afw_image.FilterLabel(band))
            exposures.append(exp)

        return util.get_mbexp(exposures)
""", """        return util.get_mbexp([
            self._heavy_to_exp(heavy[band], band) for band in self.bands
        ])

    @staticmethod
    def _heavy_to_exp(heavy, band):
        im = heavy.extractImage().clone()
        exp = afw_image.ExposureF(afw_image.MaskedImageF(im))
        exp.setFilter(afw_image.FilterLabel(band))
        return exp
""")]),
    ('s8-full-model', [(MS, """        for sid, heavy in self.heavies.items():
            bbox = self.bboxes[sid]
            for band in self.bands:
                heavy[band].addTo(model[band].image[bbox])

        return model
""", """        for sid in self.heavies:
            for band in self.bands:
                image = model[band].image[self.bboxes[sid]]
                self.heavies[sid][band].addTo(image)

        return model
""")]),
    ('s8-bbox-early', [(MS, """        if stamp_size is not None:
            fp = self.footprints[source_id]
            peak = fp.getPeaks()[0]
""", """        fp = self.footprints[source_id]
        if stamp_size is None:
            bbox = fp.getBBox()
        else:
            peak = fp.getPeaks()[0]
"""), (MS, """            if clip:
                bbox.clip(exp_bbox)
            else:
                if not exp_bbox.contains(bbox):
                    raise LengthError(
                        f'requested stamp size {stamp_size} for source '
                        f'{source_id} does not fit into the exposoure.  '
                        f'Use clip=True to clip the bbox to fit'
                    )

        else:
            fp = self.footprints[source_id]
            bbox = fp.getBBox()

        return bbox
""", """            if clip:
                bbox.clip(exp_bbox)
            elif not exp_bbox.contains(bbox):
                raise LengthError(
                    f'requested stamp size {stamp_size} for source '
                    f'{source_id} does not fit into the exposoure.  '
                    f'Use clip=True to clip the bbox to fit'
                )

        return bbox
""")]),
    ('s8-build-helper', [(MS, """                for scl_source in blend.sources:
                    # this id is same as catalog source getId()
                    sid = scl_source.metadata['id']
                    source = self.sources.find(sid)
                    footprint = source.getFootprint()
                    bbox = footprint.getBBox()

                    heavy = scarletModelToHeavy(source=scl_source, blend=blend)

                    for band in bands:
                        heavy[band].subtractFrom(self.mbexp[band].image[bbox])

                    self.bboxes[sid] = bbox
                    self.heavies[sid] = heavy
                    self.footprints[sid] = footprint
""", """                for scl_source in blend.sources:
                    self._subtract_source(scl_source, blend, bands)

    def _subtract_source(self, scl_source, blend, bands):
        # this id is same as catalog source getId()
        sid = scl_source.metadata['id']
        footprint = self.sources.find(sid).getFootprint()
        bbox = footprint.getBBox()

        heavy = scarletModelToHeavy(source=scl_source, blend=blend)

        for band in bands:
            heavy[band].subtractFrom(self.mbexp[band].image[bbox])

        self.footprints[sid] = footprint
        self.heavies[sid] = heavy
        self.bboxes[sid] = bbox
""")]),
    ('s8-build-local-dicts', [(MS, """        self.heavies = {}
        self.footprints = {}
        self.bboxes = {}

        model_data = self.model_data
""", """        heavies = {}
        footprints = {}
        bboxes = {}

        model_data = self.model_data
"""), (MS, """                    self.bboxes[sid] = bbox
                    self.heavies[sid] = heavy
                    self.footprints[sid] = footprint

""", """                    bboxes[sid] = bbox
                    heavies[sid] = heavy
                    footprints[sid] = footprint

        self.heavies = heavies
        self.footprints = footprints
        self.bboxes = bboxes

""")]),
    ('s8-heavy-branches', [(MS, """    if useFlux:
        bbox = source.flux_weighted_image.bbox
    else:
        bbox = source.bbox.grow((dh, dw))
    # Only use the portion of the convolved model that fits in the image
    overlap = bbox & blend.observation.bbox
    # Load the full multiband model in the larger box
    if useFlux:
        # The flux weighted model is already convolved, so we just load it
        model = source.get_model(use_flux=True).project(bbox=overlap)
    else:
        model = source""", """    if useFlux:
        bbox = source.flux_weighted_image.bbox
        # Only use the portion of the convolved model that fits in the image
        overlap = bbox & blend.observation.bbox
        # The flux weighted model is already convolved, so we just load it
        model = source.get_model(use_flux=True).project(bbox=overlap)
    else:
        bbox = source.bbox.grow((dh, dw))
        overlap = bbox & blend.observation.bbox
        model = source""")]),
    ('s8-heavy-bands-return', [(MS, """        heavy = makeHeavyFootprint(foot, maskedImage)
    else:
        # BUG fix:  was blend.bands
        model = MultibandImage(
            blend.observation.bands, model.data, valid.getBBox(),
        )
        heavy = MultibandFootprint.fromImages(
            blend.observation.bands, model, footprint=foot
        )
    return heavy""", """        return makeHeavyFootprint(foot, maskedImage)

    # BUG fix:  was blend.bands
    bands = blend.observation.bands
    model = MultibandImage(bands, model.data, valid.getBBox())
    return MultibandFootprint.fromImages(bands, model, footprint=foot)""")]),
    ('k8-niter-early', [(SK, """            sky_meas = 0.0
            for i in range(self.config.niter):
                self.back.run(exposure)
                result = self.detect.run(table, exposure)

                sky_meas += exposure.getMetadata()['BGMEAN']

            meta = exposure.getMetadata()

            # this is the overall sky we subtracted in all iterations
            meta['BGMEAN'] = sky_meas
""", """            sky_meas = 0.0
            niter = self.config.niter
            for _ in range(niter):
                self.back.run(exposure)
                result = self.detect.run(table, exposure)

                meta = exposure.getMetadata()
                sky_meas = sky_meas + meta['BGMEAN']

            # this is the overall sky we subtracted in all iterations
            exposure.getMetadata()['BGMEAN'] = sky_meas
""")]),
    ('k8-while', [(SK, """            for i in range(self.config.niter):
                self.back.run(exposure)
                result = self.detect.run(table, exposure)

                sky_meas += exposure.getMetadata()['BGMEAN']
""", """            i = 0
            while i < self.config.niter:
                self.back.run(exposure)
                result = self.detect.run(table, exposure)

                sky_meas += exposure.getMetadata()['BGMEAN']
                i += 1
""")]),
    ('k8-handler-helper', [(SK, """        except LSSTRuntimeError as err:
            err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
            self.detect.log.warn(err)
            result = None
        except TaskError as err:
            err = str(err).replace('lsst.pipe.base.task.TaskError:', '')
            self.detect.log.warn(err)
            result = None

        return result
""", """        except LSSTRuntimeError as err:
            self._warn(err, 'lsst::pex::exceptions::RuntimeError:')
            return None
        except TaskError as err:
            self._warn(err, 'lsst.pipe.base.task.TaskError:')
            return None

        return result

    def _warn(self, err, prefix):
        self.detect.log.warn(str(err).replace(prefix, ''))
""")]),
    ('k8-override-iter', [(SK, """        if 'iterate_detection_and_skysub' not in config_override:
            config_override['iterate_detection_and_skysub'] = {}
        if 'detect' not in config_override['iterate_detection_and_skysub']:
            config_override['iterate_detection_and_skysub']['detect'] = {}

        detect_override = config_override['iterate_detection_and_skysub']['detect']
        detect_override['thresholdValue'] = thresh
""", """        iter_override = config_override.setdefault(
            'iterate_detection_and_skysub', {},
        )
        iter_override.setdefault('detect', {})['thresholdValue'] = thresh
""")]),
    ('k8-override-none', [(SK, """    config_override = deepcopy(config) if config is not None else {}

    if thresh:""", """    if config is None:
        config_override = {}
    else:
        config_override = deepcopy(config)

    if thresh:""")]),
    ('k8-task-helper', [(SK, """    task = IterateDetectionSkySubTask(config=config)
    result = task.run(exposure)
    return result
""", """    return IterateDetectionSkySubTask(config=config).run(exposure=exposure)
""")]),
    ('k8-niter-default', [(SK, """    # set threshold
    if 'detect' not in config_override:
        config_override['detect'] = {}
    config_override['detect']['thresholdValue'] = thresh

    if niter:
        config_override['niter'] = niter
""", """    # niter is at least 1
    config_override['niter'] = niter

    # set threshold
    detect_override = config_override.get('detect', {})
    detect_override['thresholdValue'] = thresh
    config_override['detect'] = detect_override
""")]),
    ('e8-child-update', [(ME, """        self._child_ids = set()
        for source in sources:
            if source['deblend_nChild'] == 0:
                self._child_ids.add(source.getId())
""", """        child_ids = set()
        for source in sources:
            if source['deblend_nChild'] != 0:
                continue
            child_ids.add(source.getId())
        self._child_ids = child_ids
""")]),
    ('e8-source-bbox-helper', [(ME, """        self.check_source_id(source_id)

        source = self.sources.find(source_id)

        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
        return util.get_mbexp(exposures)
""", """        _, bbox = self._get_source_and_bbox(source_id, stamp_size, clip)

        return util.get_mbexp(
            [self.mbexp[band][bbox] for band in self.mbexp.bands]
        )

    def _get_source_and_bbox(self, source_id, stamp_size, clip):
        self.check_source_id(source_id)

        source = self.sources.find(source_id)
        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )
        return source, bbox
"""), (ME, """        self.check_source_id(source_id)

        source = self.sources.find(source_id)

        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        mbobs =""", """        source, bbox = self._get_source_and_bbox(source_id, stamp_size, clip)

        mbobs =""")]),
    ('e8-use-util', [(ME, """        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        mbobs = ngmix.MultiBandObsList()

        for band in self.mbexp.bands:
            subexp = self.mbexp[band][bbox]
            obs = util.extract_obs(exp=subexp, source=source)

            obslist = ngmix.ObsList(meta={'band': band})
            obslist.append(obs)
            mbobs.append(obslist)

        return mbobs""", """        return util.get_stamp_mbobs(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )"""), (ME, "        import ngmix\n\n", '')]),
    ('p8-none-early', [(PH, """    if res is not None:
        band = mbexp.bands[0]
        exp = mbexp[band]

        add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
        add_ormask(ormask, res)
        add_original_psf(psf_stats, res)

    return res""", """    if res is None:
        return None

    add_original_psf(psf_stats=psf_stats, res=res)
    add_ormask(ormask=ormask, res=res)
    add_mfrac(
        config=config, mfrac=mfrac, res=res, exp=mbexp[mbexp.bands[0]],
    )

    return res""")]),
    ('p8-detect-conf', [(PH, """    if config['subtract_sky']:
        subtract_sky_mbexp(mbexp=mbexp, thresh=config['detect']['thresh'])
""", """    thresh = config['detect']['thresh']
    if config['subtract_sky']:
        subtract_sky_mbexp(mbexp, thresh)
"""), (PH, """        thresh=config['detect']['thresh'],
        deblender""", """        thresh=thresh,
        deblender""")]),
]
