MD = 'metadetect/metadetect.py'
FT = 'metadetect/fitting.py'
REFS = [
    ('go-any-genexp', [(MD, """        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True
""", """        nodet = self['nodet_flags']
        all_obs = [obs for obsl in self.mbobs for obs in obsl]
        any_all_zero_weight = any(np.all(obs.weight == 0) for obs in all_obs)
        any_all_masked = any(np.all((obs.bmask & nodet) != 0) for obs in all_obs)
""")]),
    ('go-helper-unusable', [(MD, """        mfrac = self._get_mfrac(self.mbobs)
        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True

        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if (not np.any(mfrac < 1)) or any_all_zero_weight or any_all_masked:
            self._result = None
            return
""", """        if not self._is_measurable():
            self._result = None
            return
"""), (MD, """    def _go_bands(self, shear_bands, mcal_res, det_bands):
""", """    def _is_measurable(self):
        mfrac = self._get_mfrac(self.mbobs)
        if not np.any(mfrac < 1):
            return False
        for obslist in self.mbobs:
            for obs in obslist:
                if np.all(obs.weight == 0) or np.all((obs.bmask & self['nodet_flags']) != 0):
                    return False
        return True

    def _go_bands(self, shear_bands, mcal_res, det_bands):
""")]),
    ('go-setdefault', [(MD, """                for k, v in res.items():
                    if v is None:
                        continue
                    if k not in all_res:
                        all_res[k] = []
                    all_res[k].append(v)

        for k in all_res:
            all_res[k] = np.hstack(all_res[k])

        for mcal_type in self['metacal'].get(
            "types", ngmix.metacal.METACAL_MINIMAL_TYPES
        ):
            if mcal_type not in all_res:
                # this can happen if we do not detect sources for one of the
                # metacal images
                all_res[mcal_type] = None

        self._result = all_res
""", """                for k, v in res.items():
                    if v is not None:
                        all_res.setdefault(k, []).append(v)

        all_res = {k: np.hstack(v) for k, v in all_res.items()}

        types = self['metacal'].get("types", ngmix.metacal.METACAL_MINIMAL_TYPES)
        for mcal_type in types:
            all_res.setdefault(mcal_type, None)

        self._result = all_res
""")]),
    ('go-index-loop', [(MD, """        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            if self""", """        use_color = self.color_key_func is not None and self.color_dep_mbobs is not None
        for i, shear_bands in enumerate(self._shear_band_combs):
            det_bands = self._det_band_combs[i]
            if use_color and self""")]),
    ('go-run-one', [(MD, """            if self.color_key_func is not None and self.color_dep_mbobs is not None:
                res = self._go_bands_with_color(shear_bands, mcal_res, det_bands)
            else:
                res = self._go_bands(shear_bands, mcal_res, det_bands)
            if res is not None:""", """            runner = (
                self._go_bands_with_color
                if self.color_key_func is not None and self.color_dep_mbobs is not None
                else self._go_bands
            )
            res = runner(shear_bands, mcal_res, det_bands)
            if res is not None:""")]),
    ('init-color-xor', [(MD, """        if (
            (color_dep_mbobs is not None and color_key_func is None)
            or
            (color_dep_mbobs is None and color_key_func is not None)
        ):""", """        if (color_dep_mbobs is None) != (color_key_func is None):""")]),
    ('init-default-bands', [(MD, """        if shear_band_combs is None:
            shear_band_combs = [
                list(range(self.nband)),
            ]

        self._shear_band_combs = shear_band_combs

        if det_band_combs is None:
            det_band_combs = (
                [list(range(self.nband))]
                * len(self._shear_band_combs)
            )
        elif det_band_combs == "shear_bands":
            det_band_combs = self._shear_band_combs

        self._det_band_combs = det_band_combs
""", """        all_bands = list(range(self.nband))
        if shear_band_combs is None:
            shear_band_combs = [list(all_bands)]
        if det_band_combs is None:
            det_band_combs = [all_bands for _ in shear_band_combs]
        elif det_band_combs == "shear_bands":
            det_band_combs = shear_band_combs

        self._shear_band_combs = shear_band_combs
        self._det_band_combs = det_band_combs
""")]),
    ('mfrac-early-continue', [(MD, """            obs = obslist[0]
            msk = obs.weight > 0
            if not np.any(msk):
                wgt = 0
            else:
                wgt = np.median(obs.weight[msk])
            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
            wgts.append(wgt)

        if np.sum(wgts) > 0:
            mfrac = mfrac / np.sum(wgts)
        else:
            mfrac[:, :] = 1.0

        return mfrac
""", """            obs = obslist[0]
            wgt = self._median_weight(obs)
            wgts.append(wgt)
            if hasattr(obs, "mfrac"):
                mfrac += obs.mfrac * wgt

        wgt_sum = np.sum(wgts)
        if wgt_sum > 0:
            return mfrac / wgt_sum

        mfrac[:, :] = 1.0
        return mfrac

    @staticmethod
    def _median_weight(obs):
        good = obs.weight > 0
        return np.median(obs.weight[good]) if np.any(good) else 0
""")]),
    ('ormask-split', [(MD, """            if band == 0:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask |= obs.ormask
                bmask |= obs.bmask

        return ormask, bmask
""", """            if band == 0:
                ormask, bmask = obs.ormask.copy(), obs.bmask.copy()
                continue

            bmask |= obs.bmask
            ormask |= obs.ormask

        return ormask, bmask
""")]),
    ('fitter-dispatch', [(MD, """            elif model == 'ksigma':
                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
            elif model == "pgauss":
                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
""", """            elif model in ('ksigma', 'pgauss'):
                if model == 'ksigma':
                    mom_class = ngmix.prepsfmom.KSigmaMom
                else:
                    mom_class = ngmix.prepsfmom.PGaussMom
                fitter = mom_class(fwhm=cfg["weight"]["fwhm"], **kwargs)
                is_wavg, coadd = True, False
""")]),
    ('fitters-comprehension', [(MD, """            fitters = []
            fwhms = []
            fwhm_regs = []
            fitter_is_wavg = []
            fitter_symmetrize = []
            fitter_coadd = []
            for fitter_cfg in self["fitters"]:
                _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                    fitter_cfg
                )
                fitters.append(fitter)
                fwhms.append(fwhm)
                fwhm_regs.append(fwhm_reg)
                fitter_is_wavg.append(is_wavg)
                fitter_symmetrize.append(symmetrize)
                fitter_coadd.append(coadd)
            self._fitters = fitters
            self._fwhms = fwhms
            self._fwhm_regs = fwhm_regs
            self._fitter_is_wavg = fitter_is_wavg
            self._fitter_symmetrize = fitter_symmetrize
            self._fitter_coadd = fitter_coadd
        else:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(self)
            self._fitters = [fitter]
            self._fwhms = [fwhm]
            self._fwhm_regs = [fwhm_reg]
            self._fitter_is_wavg = [is_wavg]
            self._fitter_symmetrize = [symmetrize]
            self._fitter_coadd = [coadd]
""", """            all_data = [_get_fitter(fitter_cfg) for fitter_cfg in self["fitters"]]
        else:
            all_data = [_get_fitter(self)]

        self._fitters = [d[1] for d in all_data]
        self._fwhms = [d[2] for d in all_data]
        self._fwhm_regs = [d[3] for d in all_data]
        self._fitter_is_wavg = [d[4] for d in all_data]
        self._fitter_symmetrize = [d[5] for d in all_data]
        self._fitter_coadd = [d[6] for d in all_data]
""")]),
    ('fitters-conflict-any', [(MD, """        if "fitters" in self and (
            "model" in self
            or "weight" in self
            or "symmetrize" in self
            or "coadd" in self
        ):""", """        single_keys = ("model", "weight", "symmetrize", "coadd")
        if "fitters" in self and any(key in self for key in single_keys):""")]),
    ('go-bands-kwargs', [(MD, """            cat, mbobs_list = self._do_detect(
                shear_mbobs,
                det_bands,
            )
            _result[shear_str] = self._measure(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                det_bands=det_bands,
                cat=cat,
                shear_str=shear_str,
                mfrac=kdata["mfrac"],
                bmask=kdata["bmask"],
                ormask=kdata["ormask"],
                psf_stats=kdata["psf_stats"],
            )

        return _result
""", """            cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
            _result[shear_str] = self._measure_with_kdata(
                kdata, mbobs_list, cat, shear_str, shear_bands, det_bands,
            )

        return _result

    def _measure_with_kdata(self, kdata, mbobs_list, cat, shear_str, shear_bands, det_bands):
        extra = {k: kdata[k] for k in ("mfrac", "bmask", "ormask", "psf_stats")}
        return self._measure(
            mbobs_list=mbobs_list, shear_bands=shear_bands, det_bands=det_bands,
            cat=cat, shear_str=shear_str, **extra,
        )
""")]),
    ('color-check-first', [(MD, """            color_data = []
            for i, color_key in enumerate(color_keys):
                kdata = self._get_mbobs_data(color_key, shear_bands)
                if kdata["mcal_res"] is None or kdata["mcal_res"][shear_str] is None:
                    continue
""", """            color_data = []
            for i in range(len(color_keys)):
                kdata = self._get_mbobs_data(color_keys[i], shear_bands)
                color_mcal = kdata["mcal_res"]
                if color_mcal is None:
                    continue
                if color_mcal[shear_str] is None:
                    continue
"""), (MD, """            if len(color_data) > 0:
                _result[shear_str] = np.hstack(color_data)
            else:
                _result[shear_str] = None
""", """            _result[shear_str] = np.hstack(color_data) if color_data else None
""")]),
    ('color-keys-loop', [(MD, """            color_keys = [
                self.color_key_func(nocolor_data[col][i])
                for i in range(nocolor_data.shape[0])
            ]
""", """            color_keys = []
            for fluxes in nocolor_data[col]:
                color_keys.append(self.color_key_func(fluxes))
""")]),
    ('cache-local', [(MD, """        if key not in self._mbobs_data_cache:
            logger.info("key %s not in mbobs data cache", key)
            self._mbobs_data_cache[key] = {}
            self._mcalpsf_data_cache[key] = {}

            t0 = time.time()
            try:
                fitting.fit_all_psfs(mbobs, self.rng)
                _psf_fit_flags = 0
            except BootPSFFailure:
                _psf_fit_flags = procflags.PSF_FAILURE
            self._mcalpsf_data_cache[key]["psf_fit_flags"] = _psf_fit_flags
            logger.info("PSF fits took %s seconds", time.time() - t0)

            mcal_res = self._get_all_metacal(mbobs)
            self._mcalpsf_data_cache[key]["mcal_res"] = mcal_res
""", """        if key not in self._mbobs_data_cache:
            logger.info("key %s not in mbobs data cache", key)
            self._mbobs_data_cache[key] = {}
            self._mcalpsf_data_cache[key] = {
                "psf_fit_flags": self._fit_psfs(mbobs),
                "mcal_res": self._get_all_metacal(mbobs),
            }
"""), (MD, """    def _measure(
        self, *, mbobs_list""", """    def _fit_psfs(self, mbobs):
        t0 = time.time()
        flags = 0
        try:
            fitting.fit_all_psfs(mbobs, self.rng)
        except BootPSFFailure:
            flags = procflags.PSF_FAILURE
        logger.info("PSF fits took %s seconds", time.time() - t0)
        return flags

    def _measure(
        self, *, mbobs_list""")]),
    ('cache-entry', [(MD, """            self._mbobs_data_cache[key][sbkey] = {}
            self._mbobs_data_cache[key][sbkey].update(
                self._mcalpsf_data_cache[key]
            )

            _mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                _mbobs.append(mbobs[band])
            mfrac = self._get_mfrac(_mbobs)
            ormask, bmask = self._get_ormask_and_bmask(_mbobs)
            psf_stats = _get_psf_stats(
                _mbobs,
                self._mbobs_data_cache[key][sbkey]["psf_fit_flags"],
            )
            self._mbobs_data_cache[key][sbkey]["mfrac"] = mfrac
            self._mbobs_data_cache[key][sbkey]["bmask"] = bmask
            self._mbobs_data_cache[key][sbkey]["ormask"] = ormask
            self._mbobs_data_cache[key][sbkey]["psf_stats"] = psf_stats
""", """            entry = dict(self._mcalpsf_data_cache[key])
            self._mbobs_data_cache[key][sbkey] = entry

            _mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                _mbobs.append(mbobs[band])
            entry["mfrac"] = self._get_mfrac(_mbobs)
            entry["ormask"], entry["bmask"] = self._get_ormask_and_bmask(_mbobs)
            entry["psf_stats"] = _get_psf_stats(_mbobs, entry["psf_fit_flags"])
""")]),
    ('measure-helper', [(MD, """            ft0 = time.time()
            if is_wavg:
                res = fit_mbobs_list_wavg(
                    mbobs_list=mbobs_list,
                    fitter=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    fwhm_reg=fwhm_reg,
                    symmetrize=symm,
                )
            else:
                res = fit_mbobs_list_joint(
                    mbobs_list=mbobs_list,
                    fitter_name=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    rng=self.rng,
                    symmetrize=symm,
                    coadd=coadd,
                )
            ft0""", """            ft0 = time.time()
            common = dict(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                bmask_flags=self.get("bmask_flags", 0),
                symmetrize=symm,
            )
            if is_wavg:
                res = fit_mbobs_list_wavg(fitter=fitter, fwhm_reg=fwhm_reg, **common)
            else:
                res = fit_mbobs_list_joint(
                    fitter_name=fitter, rng=self.rng, coadd=coadd, **common,
                )
            ft0""")]),
    ('region-helper', [(MD, """            if 'ormask_region' in self and self['ormask_region'] > 1:
                ormask_region = self['ormask_region']
            elif 'mask_region' in self and self['mask_region'] > 1:
                ormask_region = self['mask_region']
            else:
                ormask_region = 1

            if 'mask_region' in self and self['mask_region'] > 1:
                bmask_region = self['mask_region']
            else:
                bmask_region = 1
""", """            bmask_region = 1
            if 'mask_region' in self and self['mask_region'] > 1:
                bmask_region = self['mask_region']

            ormask_region = bmask_region
            if 'ormask_region' in self and self['ormask_region'] > 1:
                ormask_region = self['ormask_region']
""")]),
    ('mask-loop', [(MD, """            newres["ormask"] = _fill_in_mask_col(
                mask_region=ormask_region,
                rows=newres['sx_row'],
                cols=newres['sx_col'],
                mask=ormask,
            )
            newres["ormask_noshear"] = _fill_in_mask_col(
                mask_region=ormask_region,
                rows=newres['sx_row_noshear'],
                cols=newres['sx_col_noshear'],
                mask=ormask,
            )

            newres["bmask"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row'],
                cols=newres['sx_col'],
                mask=bmask,
            )
            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row_noshear'],
                cols=newres['sx_col_noshear'],
                mask=bmask,
            )
""", """            for tail in ("", "_noshear"):
                for name, msk, region in (
                    ("ormask", ormask, ormask_region), ("bmask", bmask, bmask_region),
                ):
                    newres[name + tail] = _fill_in_mask_col(
                        mask_region=region,
                        rows=newres['sx_row' + tail],
                        cols=newres['sx_col' + tail],
                        mask=msk,
                    )
""")]),
    ('mfrac-helper', [(MD, """            if np.any(mfrac > 0):
                newres["mfrac"] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col"],
                    y=newres["sx_row"],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=self.get("mfrac_fwhm", self._fwhms[0]),
                )

                newres["mfrac_noshear"] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col_noshear"],
                    y=newres["sx_row_noshear"],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=self.get("mfrac_fwhm", self._fwhms[0]),
                )
            else:
                newres["mfrac"] = 0
                newres["mfrac_noshear"] = 0

        return newres
""", """            self._add_mfrac(newres, mfrac, obs, cat["box_size"])

        return newres

    def _add_mfrac(self, newres, mfrac, obs, box_sizes):
        if not np.any(mfrac > 0):
            newres["mfrac"] = 0
            newres["mfrac_noshear"] = 0
            return

        fwhm = self.get("mfrac_fwhm", self._fwhms[0])
        for tail in ("", "_noshear"):
            newres["mfrac" + tail] = measure_mfrac(
                mfrac=mfrac,
                x=newres["sx_col" + tail],
                y=newres["sx_row" + tail],
                box_sizes=box_sizes,
                obs=obs,
                fwhm=fwhm,
            )
""")]),
    ('add-positions-early-return', [(MD, """        if cat.size > 0:
            obs = self.mbobs[0][0]

            newres['sx_col'] = cat['x']
            newres['sx_row'] = cat['y']
""", """        if cat.size == 0:
            return newres

        if True:
            obs = self.mbobs[0][0]

            newres['sx_row'] = cat['y']
            newres['sx_col'] = cat['x']
""")]),
    ('psf-stats-nested', [(MD, """    if global_flags != 0:
        flags = procflags.PSF_FAILURE | global_flags
        g1 = np.nan
        g2 = np.nan
        T = np.nan
    else:
        try:""", """    failed = {'flags': procflags.PSF_FAILURE | global_flags, 'g1': np.nan, 'g2': np.nan, 'T': np.nan}
    if global_flags != 0:
        return failed
    else:
        try:"""), (MD, """        except BootPSFFailure:
            flags = procflags.PSF_FAILURE
            g1 = np.nan
            g2 = np.nan
            T = np.nan

    return {""", """        except BootPSFFailure:
            return failed

    return {""")]),
    ('psf-stats-noexcept', [(MD, """            if wsum <= 0.0:
                raise BootPSFFailure(
                    'zero weights, could not get mean psf properties'
                )
            g1 = g1sum/wsum
            g2 = g2sum/wsum
            T = Tsum/wsum

            flags = 0
""", """            if wsum > 0.0:
                g1, g2, T = g1sum/wsum, g2sum/wsum, Tsum/wsum
                flags = 0
            else:
                raise BootPSFFailure(
                    'zero weights, could not get mean psf properties'
                )
""")]),
    ('gauss-flags-helper', [(FT, """    flags = 0
    for obslist in mbobs:
        if len(obslist) == 0:
            flags |= procflags.MISSING_BAND
            continue

        if len(obslist) > 1:
            flags |= procflags.INCONSISTENT_BANDS
            continue

        for obs in obslist:
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT

    if any(s >= len(mbobs) for s in shear_bands):
        flags |= procflags.INCONSISTENT_BANDS

    if coadd:
        if flags == 0:
            # first""", """    flags = 0
    for obslist in mbobs:
        flags |= _check_obslist(obslist, bmask_flags)

    if any(s >= len(mbobs) for s in shear_bands):
        flags |= procflags.INCONSISTENT_BANDS

    if coadd:
        if flags == 0:
            # first"""), (FT, """def _extract_g(res):
""", """def _check_obslist(obslist, bmask_flags):
    nobs = len(obslist)
    if nobs == 0:
        return procflags.MISSING_BAND
    elif nobs > 1:
        return procflags.INCONSISTENT_BANDS

    obs = obslist[0]
    flags = 0
    if not np.any(obs.weight > 0):
        flags |= procflags.ZERO_WEIGHTS
    if np.any((obs.bmask & bmask_flags) != 0):
        flags |= procflags.EDGE_HIT
    return flags


def _extract_g(res):
""")]),
    ('gauss-excepts-merged', [(FT, """        except BootPSFFailure:
            flags |= procflags.PSF_FAILURE
        except PSFFluxFailure:
            flags |= procflags.PSF_FAILURE
        except Exception:
            flags |= procflags.OBJ_FAILURE
            flags |= procflags.PSF_FAILURE

    if flags == 0:
        res["gauss_obj_flags"]""", """        except (BootPSFFailure, PSFFluxFailure):
            flags |= procflags.PSF_FAILURE
        except Exception:
            flags |= procflags.OBJ_FAILURE | procflags.PSF_FAILURE

    if flags == 0:
        res["gauss_obj_flags"]""")]),
    ('gauss-runner-hoist', [(FT, """        try:
            ores = bootstrap(
                shear_mbobs,
                get_gauss_obj_runner(
                    rng,
                    len(shear_mbobs),
                    shear_mbobs[0][0].jacobian.get_scale(),
                )
                if obj_runner is None else obj_runner,
                psf_runner=(
                    get_gauss_psf_runner(rng)
                    if psf_runner is None
                    else psf_runner
                ),
            )
""", """        try:
            if obj_runner is None:
                scale = shear_mbobs[0][0].jacobian.get_scale()
                obj_runner = get_gauss_obj_runner(rng, len(shear_mbobs), scale)
            if psf_runner is None:
                psf_runner = get_gauss_psf_runner(rng)
            ores = bootstrap(shear_mbobs, obj_runner, psf_runner=psf_runner)
""")]),
    ('gauss-early-return', [(FT, """    if flags == 0:
        res["gauss_obj_flags"] = ores["flags"]
        res["gauss_T_flags"]""", """    if flags != 0:
        res["gauss_flags"] |= flags
        return res

    if flags == 0:
        res["gauss_obj_flags"] = ores["flags"]
        res["gauss_T_flags"]""")]),
    ('gauss-psf-helper', [(FT, """            for obslist in shear_mbobs:
                for obs in obslist:
                    pflags |= obs.psf.meta["result"]["flags"]
                    if obs.psf.meta["result"]["flags"] == 0:
                        msk = obs.weight > 0
                        if not np.any(msk):
                            pflags |= procflags.ZERO_WEIGHTS
                        else:
                            _wgt = np.median(obs.weight[msk])
                            psf_T_sum += obs.psf.meta["result"]["T"] * _wgt
                            g = _extract_g(obs.psf.meta["result"])
                            psf_g_sum += (
                                g
                                * _wgt
                                * obs.psf.meta["result"]["T"]
                            )
                            wgt_sum += _wgt
""", """            for obslist in shear_mbobs:
                for obs in obslist:
                    pres = obs.psf.meta["result"]
                    pflags |= pres["flags"]
                    if pres["flags"] != 0:
                        continue
                    msk = obs.weight > 0
                    if not np.any(msk):
                        pflags |= procflags.ZERO_WEIGHTS
                        continue
                    _wgt = np.median(obs.weight[msk])
                    wgt_T = pres["T"] * _wgt
                    psf_T_sum += wgt_T
                    psf_g_sum += _extract_g(pres) * wgt_T
                    wgt_sum += _wgt
""")]),
]
