"""Restructurings of the drivers and of the LSST side."""
MD = 'metadetect/metadetect.py'
ME = 'metadetect/lsst/measure.py'
SK = 'metadetect/lsst/skysub.py'
UT = 'metadetect/lsst/util.py'
LM = 'metadetect/lsst/metadetect.py'
EX = 'metadetect/lsst/mbobs_extractor.py'
PH = 'metadetect/lsst/photometry.py'

REFS = [
    ('a15-go-usable-helper', [(MD, """        mfrac = self._get_mfrac(self.mbobs)
        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True

        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if (not np.any(mfrac < 1)) or any_all_zero_weight or any_all_masked:
            self._result = None
            return
""", """        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if not self._is_measurable():
            self._result = None
            return
"""), (MD, """    def _go_bands(self, shear_bands, mcal_res, det_bands):
""", """    def _is_measurable(self):
        mfrac = self._get_mfrac(self.mbobs)
        if not np.any(mfrac < 1):
            return False

        nodet_flags = self['nodet_flags']
        for obsl in self.mbobs:
            for obs in obsl:
                all_masked = np.all((obs.bmask & nodet_flags) != 0)
                if all_masked or np.all(obs.weight == 0):
                    return False

        return True

    def _go_bands(self, shear_bands, mcal_res, det_bands):
""")]),
    ('a15-go-setdefault', [(MD, """            if res is not None:
                for k, v in res.items():
                    if v is None:
                        continue
                    if k not in all_res:
                        all_res[k] = []
                    all_res[k].append(v)

        for k in all_res:
            all_res[k] = np.hstack(all_res[k])
""", """            if res is None:
                continue

            for k, v in res.items():
                if v is not None:
                    all_res.setdefault(k, []).append(v)

        all_res = {k: np.hstack(parts) for k, parts in all_res.items()}
""")]),
    ('a15-go-types', [(MD, """        for mcal_type in self['metacal'].get(
            "types", ngmix.metacal.METACAL_MINIMAL_TYPES
        ):
            if mcal_type not in all_res:
                # this can happen if we do not detect sources for one of the
                # metacal images
                all_res[mcal_type] = None

        self._result = all_res
""", """        mcal_types = self['metacal'].get(
            "types", ngmix.metacal.METACAL_MINIMAL_TYPES
        )
        for mcal_type in mcal_types:
            # this can happen if we do not detect sources for one of the
            # metacal images
            all_res.setdefault(mcal_type, None)

        self._result = all_res
""")]),
    ('a15-go-func', [(MD, """        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            if self.color_key_func is not None and self.color_dep_mbobs is not None:
                res = self._go_bands_with_color(shear_bands, mcal_res, det_bands)
            else:
                res = self._go_bands(shear_bands, mcal_res, det_bands)
            if res""", """        use_color = (
            self.color_key_func is not None and self.color_dep_mbobs is not None
        )
        go_func = self._go_bands_with_color if use_color else self._go_bands

        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            res = go_func(shear_bands, mcal_res, det_bands)
            if res""")]),
    ('b15-bands-kw', [(MD, """            cat, mbobs_list = self._do_detect(
                shear_mbobs,
                det_bands,
            )
            _result[shear_str] = self._measure(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                det_bands=det_bands,
                cat=cat,
                shear_str=shear_str,
                mfrac=kdata["mfrac"],
                bmask=kdata["bmask"],
                ormask=kdata["ormask"],
                psf_stats=kdata["psf_stats"],
            )

        return _result
""", """            detected = self._do_detect(shear_mbobs, det_bands)
            _result[shear_str] = self._measure(
                cat=detected[0],
                mbobs_list=detected[1],
                shear_bands=shear_bands,
                det_bands=det_bands,
                shear_str=shear_str,
                **{
                    name: kdata[name]
                    for name in ("mfrac", "bmask", "ormask", "psf_stats")
                }
            )

        return _result
""")]),
    ('c15-color-row-helper', [(MD, """                _medsifier = detect.CatalogMEDSifier(
                    kdata["mcal_res"][shear_str],
                    cat['x'][i:i+1],
                    cat['y'][i:i+1],
                    cat['box_size'][i:i+1],
                )
                mbm = _medsifier.get_multiband_meds()
                mbobs_list = mbm.get_mbobs_list(
                    weight_type=self["meds"].get("weight_type", "weight"),
                )

                _data = self._measure(
                    mbobs_list=mbobs_list,
                    shear_bands=shear_bands,
                    det_bands=det_bands,
                    cat=cat[i:i+1],
                    shear_str=shear_str,
""", """                row = slice(i, i + 1)
                mbobs_list = self._get_mbobs_list_at(
                    kdata["mcal_res"][shear_str], cat, row,
                )

                _data = self._measure(
                    mbobs_list=mbobs_list,
                    shear_bands=shear_bands,
                    det_bands=det_bands,
                    cat=cat[row],
                    shear_str=shear_str,
"""), (MD, """    def _get_mbobs_data(self, key, shear_bands):
""", """    def _get_mbobs_list_at(self, mbobs, cat, row):
        medsifier = detect.CatalogMEDSifier(
            mbobs, cat['x'][row], cat['y'][row], cat['box_size'][row],
        )
        return medsifier.get_multiband_meds().get_mbobs_list(
            weight_type=self["meds"].get("weight_type", "weight"),
        )

    def _get_mbobs_data(self, key, shear_bands):
""")]),
    ('c15-color-inline-key', [(MD, """            color_keys = [
                self.color_key_func(nocolor_data[col][i])
                for i in range(nocolor_data.shape[0])
            ]

            # now we remeasure the object at that mbobs
            color_data = []
            for i, color_key in enumerate(color_keys):
                kdata = self._get_mbobs_data(color_key, shear_bands)
                if kdata["mcal_res"] is None or kdata["mcal_res"][shear_str] is None:
                    continue
""", """            fluxes = nocolor_data[col]
            color_keys = [self.color_key_func(flux) for flux in fluxes]

            # now we remeasure the object at that mbobs
            color_data = []
            for i in range(len(color_keys)):
                kdata = self._get_mbobs_data(color_keys[i], shear_bands)
                mcal_res_c = kdata["mcal_res"]
                if mcal_res_c is None or mcal_res_c[shear_str] is None:
                    continue
""")]),
    ('c15-color-tail', [(MD, """                if _data is not None:
                    color_data.append(_data)

            if len(color_data) > 0:
                _result[shear_str] = np.hstack(color_data)
            else:
                _result[shear_str] = None

        return _result
""", """                if _data is None:
                    continue
                color_data.append(_data)

            _result[shear_str] = np.hstack(color_data) if color_data else None

        return _result
""")]),
    ('d15-measure-common-kw', [(MD, """            ft0 = time.time()
            if is_wavg:
                res = fit_mbobs_list_wavg(
                    mbobs_list=mbobs_list,
                    fitter=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    fwhm_reg=fwhm_reg,
                    symmetrize=symm,
                )
            else:
                res = fit_mbobs_list_joint(
                    mbobs_list=mbobs_list,
                    fitter_name=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    rng=self.rng,
                    symmetrize=symm,
                    coadd=coadd,
                )
            ft0 = time.time() - ft0
            logger.info(
                "fitter %s took %s seconds",
                fitter.kind
                if hasattr(fitter, "kind")
                else fitter,
                ft0,
            )
            all_res.append(res)
""", """            ft0 = time.time()
            common = dict(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                bmask_flags=self.get("bmask_flags", 0),
                symmetrize=symm,
            )
            if is_wavg:
                fit_res = fit_mbobs_list_wavg(
                    fitter=fitter, fwhm_reg=fwhm_reg, **common
                )
            else:
                fit_res = fit_mbobs_list_joint(
                    fitter_name=fitter, rng=self.rng, coadd=coadd, **common
                )
            all_res.append(fit_res)

            logger.info(
                "fitter %s took %s seconds",
                getattr(fitter, "kind", fitter),
                time.time() - ft0,
            )
""")]),
    ('d15-measure-early', [(MD, """        if res is not None:
            res = self._add_positions_and_psf(
                cat=cat,
                res=res,
                shear_str=shear_str,
                mfrac=mfrac,
                bmask=bmask,
                ormask=ormask,
                psf_stats=psf_stats,
                det_bands=det_bands,
            )
        logger.info("src measurements took %s seconds", time.time() - t0)

        return res
""", """        logger.info("src measurements took %s seconds", time.time() - t0)

        if res is None:
            return None

        return self._add_positions_and_psf(
            cat=cat,
            res=res,
            shear_str=shear_str,
            mfrac=mfrac,
            bmask=bmask,
            ormask=ormask,
            psf_stats=psf_stats,
            det_bands=det_bands,
        )
""")]),
    ('e15-mcal-try-return', [(MD, """        except BootPSFFailure:
            odict = None
        logger.info("metacal took %s seconds", time.time() - t0)

        if self._show and odict is not None:
            import descwl_coadd.vis

            orig_mbobs = mbobs

            for mtype, mbobs in odict.items():
                for band in range(len(mbobs)):

                    obslist = mbobs[band]
                    orig_obslist = orig_mbobs[band]

                    for iobs in range(len(obslist)):
                        obs = obslist[iobs]
                        orig_obs = orig_obslist[iobs]

                        descwl_coadd.vis.show_images(
                            [
                                obs.image,
                                obs.bmask,
                                obs.weight,
                                orig_obs.noise,
                            ],
                            title=mtype,
                        )

        return odict
""", """        except BootPSFFailure:
            odict = None
        finally:
            logger.info("metacal took %s seconds", time.time() - t0)

        if odict is not None and self._show:
            import descwl_coadd.vis

            for mtype, mcal_mbobs in odict.items():
                for obslist, orig_obslist in zip(mcal_mbobs, mbobs):
                    for obs, orig_obs in zip(obslist, orig_obslist):
                        images = [obs.image, obs.bmask, obs.weight, orig_obs.noise]
                        descwl_coadd.vis.show_images(images, title=mtype)

        return odict
""")] if False else [(MD, """        logger.info("metacal took %s seconds", time.time() - t0)

        if self._show and odict is not None:
            import descwl_coadd.vis
""", """        logger.info("metacal took %s seconds", time.time() - t0)

        if odict is None:
            return None

        if self._show:
            import descwl_coadd.vis
""")]),
    ('f15-scarlet-early', [(ME, """        if result is not None:
            orig_sources = result.sources

            mbexp_deconvolved = util.make_deconvolved_mbexp(
                mbexp, orig_sources,
            )

            scl_res = self.deblend.run(
                mExposure=mbexp,
                mDeconvolved=mbexp_deconvolved,
                mergedSources=orig_sources,
            )

            model_data = scl_res.scarletModelData
            sources = scl_res.deblendedCatalog

            # we need to attach footprints in order to do basic measurements as
            # well as do the deblending

            updateCatalogFootprints(
                modelData=model_data,
                catalog=sources,
                band='i',
                removeScarletData=False,
                updateFluxColumns=True,
            )

        else:
            sources = []
            model_data = None

        return sources, model_data
""", """        if result is None:
            return [], None

        scl_res = self.deblend.run(
            mExposure=mbexp,
            mDeconvolved=util.make_deconvolved_mbexp(mbexp, result.sources),
            mergedSources=result.sources,
        )

        # we need to attach footprints in order to do basic measurements as
        # well as do the deblending
        updateCatalogFootprints(
            modelData=scl_res.scarletModelData,
            catalog=scl_res.deblendedCatalog,
            band='i',
            removeScarletData=False,
            updateFluxColumns=True,
        )

        return scl_res.deblendedCatalog, scl_res.scarletModelData
""")]),
    ('g15-measure-source-helper', [(ME, """        stamp_flags = 0
        try:
            # mbobs = util.get_stamp_mbobs(
            #     mbexp=mbexp,
            #     source=source,
            #     stamp_size=config['stamp_size'],
            # )
            with extractor.add_source(source_id):
                mbobs = extractor.get_mbobs(
                    source_id=source_id,
                    stamp_size=config['stamp_size'],
                )
        except LengthError as err:
            # This is raised when a bbox hits an edge
            LOG.debug('%s', err)
            stamp_flags = EDGE_HIT
        except util.AllZeroWeightError as err:
            # failure creating some observation due to all weights being zero
            # across the stamp
            LOG.info('%s', err)
            stamp_flags = ZERO_WEIGHTS

        if stamp_flags != 0:
""", """        mbobs, stamp_flags = _extract_mbobs(
            extractor, source_id, config['stamp_size'],
        )

        if stamp_flags != 0:
"""), (ME, """def measure(
    mbexp,
    detexp,
""", """def _extract_mbobs(extractor, source_id, stamp_size):
    \"\"\"the observations of the source, or None and the reason\"\"\"
    try:
        with extractor.add_source(source_id):
            mbobs = extractor.get_mbobs(source_id=source_id, stamp_size=stamp_size)
    except LengthError as err:
        # This is raised when a bbox hits an edge
        LOG.debug('%s', err)
        return None, EDGE_HIT
    except util.AllZeroWeightError as err:
        # failure creating some observation due to all weights being zero
        # across the stamp
        LOG.info('%s', err)
        return None, ZERO_WEIGHTS

    return mbobs, 0


def measure(
    mbexp,
    detexp,
""")]),
    ('g15-measure-swap-branches', [(ME, """        if stamp_flags != 0:

            this_gauss_res = get_wavg_output_struct(
                nband=nband,
                model='gauss',
                shear_bands=shear_band_indices,
            )
            this_pgauss_res = get_wavg_output_struct(
                nband=nband,
                model='pgauss',
            )

        else:

            # TODO do something""", """        if stamp_flags == 0:

            # TODO do something"""), (ME, """            this_pgauss_res = fit_mbobs_wavg(
                mbobs=mbobs,
                fitter=pgauss_fitter,
                bmask_flags=0,
            )

        this_res =""", """            this_pgauss_res = fit_mbobs_wavg(
                mbobs=mbobs,
                fitter=pgauss_fitter,
                bmask_flags=0,
            )

        else:
            this_pgauss_res = get_wavg_output_struct(nband=nband, model='pgauss')
            this_gauss_res = get_wavg_output_struct(
                nband=nband,
                model='gauss',
                shear_bands=shear_band_indices,
            )

        this_res =""")]),
    ('g15-measure-tail', [(ME, """    if len(results) > 0:
        results = eu.numpy_util.combine_arrlist(results)
    else:
        results = None

    return results
""", """    if len(results) == 0:
        return None

    return eu.numpy_util.combine_arrlist(results)
""")]),
    ('h15-bmasks-comp', [(ME, """    bmasks = []
    for source in sources:
        bmask = get_bmask(source=source, exposure=exposure)
        bmasks.append(bmask)
    return bmasks
""", """    return [get_bmask(source=source, exposure=exposure) for source in sources]
""")]),
    ('i15-struct-default-helper', [(ME, """    for subdt in dt:
        name = subdt[0]
        dtype = subdt[1]

        if 'flags' in name:
            output[name] = NO_ATTEMPT
        elif name in ('bmask', 'ormask'):
            output[name] = 0
        elif dtype[0] == 'i':
            output[name] = -9999
        else:
            output[name] = np.nan

    return output
""", """    for subdt in dt:
        output[subdt[0]] = _get_default(subdt[0], subdt[1])

    return output


def _get_default(name, dtype):
    if 'flags' in name:
        return NO_ATTEMPT
    if name in ('bmask', 'ormask'):
        return 0
    if dtype[0] == 'i':
        return -9999
    return np.nan
""")]),
    ('j15-sky-except', [(SK, """        except LSSTRuntimeError as err:
            err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
            self.detect.log.warn(err)
            result = None
        except TaskError as err:
            err = str(err).replace('lsst.pipe.base.task.TaskError:', '')
            self.detect.log.warn(err)
            result = None

        return result
""", """        except LSSTRuntimeError as err:
            self._warn(err, 'lsst::pex::exceptions::RuntimeError:')
            return None
        except TaskError as err:
            self._warn(err, 'lsst.pipe.base.task.TaskError:')
            return None

        return result

    def _warn(self, err, prefix):
        self.detect.log.warn(str(err).replace(prefix, ''))
""")]),
    ('j15-sky-sum', [(SK, """            sky_meas = 0.0
            for i in range(self.config.niter):
                self.back.run(exposure)
                result = self.detect.run(table, exposure)

                sky_meas += exposure.getMetadata()['BGMEAN']

            meta = exposure.getMetadata()

            # this is the overall sky we subtracted in all iterations
            meta['BGMEAN'] = sky_meas
""", """            sky_meas = 0.0
            for _ in range(self.config.niter):
                self.back.run(exposure)
                result = self.detect.run(table, exposure)
                sky_meas = sky_meas + exposure.getMetadata()['BGMEAN']

            # this is the overall sky we subtracted in all iterations
            exposure.getMetadata()['BGMEAN'] = sky_meas
""")]),
    ('k15-ex-bbox-helper', [(EX, """        self.check_source_id(source_id)

        source = self.sources.find(source_id)

        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        mbobs = ngmix""", """        source, bbox = self._find(source_id, stamp_size, clip)

        mbobs = ngmix"""), (EX, """        self.check_source_id(source_id)

        source = self.sources.find(source_id)

        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )

        exposures =""", """        _, bbox = self._find(source_id, stamp_size, clip)

        exposures ="""), (EX, """    def get_stamp(
""", """    def _find(self, source_id, stamp_size, clip):
        self.check_source_id(source_id)

        source = self.sources.find(source_id)
        bbox = util.get_bbox(
            mbexp=self.mbexp,
            source=source,
            stamp_size=stamp_size,
            clip=clip,
        )
        return source, bbox

    def get_stamp(
""")]),
    ('l15-coadd-psf-order', [(UT, """        shape = exp.image.array.shape

        ycen, xcen = (np.array(shape) - 1) / 2
        cen = geom.Point2D(xcen, ycen)

        psfobj = exp.getPsf()
        this_psfim = psfobj.computeKernelImage(cen).array

        if i == 0:
""", """        shape = exp.image.array.shape
        nrow, ncol = shape

        cen = geom.Point2D((ncol - 1) / 2, (nrow - 1) / 2)
        this_psfim = exp.getPsf().computeKernelImage(cen).array

        if i == 0:
""")]),
    ('l15-coadd-nested', [(UT, """        w = np.where(exp.variance.array > 0)
        if w[0].size == 0:
            # no usable pixels, this one gets no weight
            continue

        medvar = np.median(exp.variance.array[w])
        this_weight = 1.0 / medvar

        coadd_exp.image.array[w] += exp.image.array[w] * this_weight
        psf_im += this_psfim * this_weight

        weight[w] += 1.0 / exp.variance.array[w]

        wsum += this_weight
""", """        w = np.where(exp.variance.array > 0)
        if w[0].size > 0:
            good_var = exp.variance.array[w]
            this_weight = 1.0 / np.median(good_var)

            wsum += this_weight
            weight[w] += 1.0 / good_var
            psf_im += this_psfim * this_weight
            coadd_exp.image.array[w] += exp.image.array[w] * this_weight
""")]),
    ('l15-coadd-tail', [(UT, """    fac = 1.0 / wsum

    coadd_exp.image.array[:, :] *= fac

    # the psf is always normalized
    psf_im *= 1.0 / psf_im.sum()

    coadd_exp.variance.array[:, :] = np.inf
    w = np.where(weight > 0)
    coadd_exp.variance.array[w] = 1 / weight[w]

    coadd_psf = get_stack_kernel_psf(psf_im)
    coadd_exp.setPsf(coadd_psf)

    coadd_exp.setWcs(exposures[0].getWcs())

    return coadd_exp
""", """    # the psf is always normalized
    psf_im *= 1.0 / psf_im.sum()
    coadd_exp.setPsf(get_stack_kernel_psf(psf_im))
    coadd_exp.setWcs(exposures[0].getWcs())

    coadd_exp.image.array[:, :] *= 1.0 / wsum

    good = weight > 0
    coadd_exp.variance.array[:, :] = np.inf
    coadd_exp.variance.array[good] = 1 / weight[good]

    return coadd_exp
""")]),
    ('m15-obs2exp-mask', [(UT, """    exp.image.array[:, :] = obs.image

    exp.variance.array[:, :] = np.inf

    if copy_mask_from == 'bmask':
        mask = obs.bmask
    elif copy_mask_from == 'ormask':
        mask = obs.ormask
    else:
        raise RuntimeError(
            f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
        )
    exp.mask.array[:, :] = mask

    w = np.where(obs.weight > 0)
    exp.variance.array[w] = 1.0 / obs.weight[w]
""", """    if copy_mask_from not in ('bmask', 'ormask'):
        raise RuntimeError(
            f"copy_mask_from '{copy_mask_from}' should be 'bmask' or 'ormask'"
        )

    exp.image.array[:, :] = obs.image
    exp.mask.array[:, :] = obs.bmask if copy_mask_from == 'bmask' else obs.ormask

    weight = obs.weight
    good = weight > 0
    exp.variance.array[:, :] = np.inf
    exp.variance.array[good] = 1.0 / weight[good]
""")]),
    ('n15-phot-finish-helper', [(PH, """    if res is not None:
        band = mbexp.bands[0]
        exp = mbexp[band]

        add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
        add_ormask(ormask, res)
        add_original_psf(psf_stats, res)

    return res
""", """    if res is None:
        return None

    exp = mbexp[mbexp.bands[0]]
    add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
    add_ormask(ormask, res)
    add_original_psf(psf_stats, res)

    return res
""")]),
    ('o15-lsstrun-loop-helper', [(LM, """        result = {}
        for shear_str, mcal_mbexp in mdict.items():
            res = detect_deblend_and_measure(
                mbexp=mcal_mbexp,
                config=config,
                rng=rng,
                show=show,
            )

            if res is not None:
                band = mcal_mbexp.bands[0]
                exp = mcal_mbexp[band]

                add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
                add_ormask(ormask, res)
                add_original_psf(psf_stats, res)

            result[shear_str] = res

        if get_psf_stats:
            result['psf_stats'] = psf_stats

        return result
""", """        def _measure(mcal_mbexp):
            res = detect_deblend_and_measure(
                mbexp=mcal_mbexp,
                config=config,
                rng=rng,
                show=show,
            )
            if res is None:
                return None

            exp = mcal_mbexp[mcal_mbexp.bands[0]]
            add_mfrac(config=config, mfrac=mfrac, res=res, exp=exp)
            add_ormask(ormask, res)
            add_original_psf(psf_stats, res)
            return res

        result = {
            shear_str: _measure(mcal_mbexp) for shear_str, mcal_mbexp in mdict.items()
        }

        if get_psf_stats:
            result['psf_stats'] = psf_stats

        return result
""")]),
    ('o15-lsstrun-order', [(LM, """        psf_stats = fit_original_psfs_mbexp(
            mbexp=mbexp,
            config=config,
            wgts=wgts,
            rng=rng,
        )

        metacal_types = config['metacal'].get('types', None)

        if config['metacal']['reconv_type'] == 'fitgauss':
            perband_psf_stats = psf_stats['perband']
        else:
            perband_psf_stats = None

        mdict, _ =""", """        mcal_config = config['metacal']
        metacal_types = mcal_config.get('types')

        psf_stats = fit_original_psfs_mbexp(
            mbexp=mbexp,
            config=config,
            wgts=wgts,
            rng=rng,
        )

        fitgauss = mcal_config['reconv_type'] == 'fitgauss'
        perband_psf_stats = psf_stats['perband'] if fitgauss else None

        mdict, _ =""")]),
]
