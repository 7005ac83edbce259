"""Behaviour-preserving edits of metadetect.py and fitting.py: third set, larger rewrites"""
MD = 'metadetect/metadetect.py'
FT = 'metadetect/fitting.py'
REFS = [
    ('m11-color-check-xor', [(MD, """        if (
            (color_dep_mbobs is not None and color_key_func is None)
            or
            (color_dep_mbobs is None and color_key_func is not None)
        ):
            raise RuntimeError(""", """        has_func = color_key_func is not None
        has_mbobs = color_dep_mbobs is not None
        if has_func != has_mbobs:
            raise RuntimeError(""")]),
    ('m11-default-bands-helper', [(MD, """        if shear_band_combs is None:
            shear_band_combs = [
                list(range(self.nband)),
            ]

        self._shear_band_combs = shear_band_combs

        if det_band_combs is None:
            det_band_combs = (
                [list(range(self.nband))]
                * len(self._shear_band_combs)
            )
        elif det_band_combs == "shear_bands":
            det_band_combs = self._shear_band_combs

        self._det_band_combs = det_band_combs
""", """        self._set_band_combs(shear_band_combs, det_band_combs)
"""), (MD, """    def _set_config(self, config):
""", """    def _set_band_combs(self, shear_band_combs, det_band_combs):
        all_bands = list(range(self.nband))

        if shear_band_combs is None:
            shear_band_combs = [all_bands]

        if det_band_combs is None:
            det_band_combs = [all_bands for _ in shear_band_combs]
        elif det_band_combs == "shear_bands":
            det_band_combs = shear_band_combs

        self._shear_band_combs = shear_band_combs
        self._det_band_combs = det_band_combs

    def _set_config(self, config):
""")]),
    ('m11-masks-reduce', [(MD, """        for band, obslist in enumerate(mbobs):
            nepoch = len(obslist)
            assert nepoch == 1, 'expected 1 epoch, got %d' % nepoch

            obs = obslist[0]

            if band == 0:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask |= obs.ormask
                bmask |= obs.bmask

        return ormask, bmask
""", """        ormask = None
        bmask = None
        for obslist in mbobs:
            nepoch = len(obslist)
            assert nepoch == 1, 'expected 1 epoch, got %d' % nepoch

            obs = obslist[0]
            if ormask is None:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
                continue

            ormask |= obs.ormask
            bmask |= obs.bmask

        return ormask, bmask
""")]),
    ('m11-masks-or-new', [(MD, """            if band == 0:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask |= obs.ormask
                bmask |= obs.bmask

        return ormask, bmask
""", """            if band == 0:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask = ormask | obs.ormask
                bmask = bmask | obs.bmask

        return ormask, bmask
""")]),
    ('m11-mfrac-weight-helper', [(MD, """            obs = obslist[0]
            msk = obs.weight > 0
            if not np.any(msk):
                wgt = 0
            else:
                wgt = np.median(obs.weight[msk])
            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
            wgts.append(wgt)

        if np.sum(wgts) > 0:
            mfrac = mfrac / np.sum(wgts)
        else:
            mfrac[:, :] = 1.0

        return mfrac
""", """            obs = obslist[0]
            wgt = self._get_median_weight(obs)
            wgts.append(wgt)
            if hasattr(obs, "mfrac"):
                mfrac += wgt * obs.mfrac

        wsum = np.sum(wgts)
        if not wsum > 0:
            mfrac[:, :] = 1.0
            return mfrac

        return mfrac / wsum

    @staticmethod
    def _get_median_weight(obs):
        good = obs.weight > 0
        if np.any(good):
            return np.median(obs.weight[good])
        return 0
""")]),
    ('m11-mfrac-wsum', [(MD, """        wgts = []
        mfrac = np.zeros_like(mbobs[0][0].image)
""", """        wsum = 0
        mfrac = np.zeros_like(mbobs[0][0].image)
"""), (MD, """            wgts.append(wgt)

        if np.sum(wgts) > 0:
            mfrac = mfrac / np.sum(wgts)
        else:
            mfrac[:, :] = 1.0
""", """            wsum += wgt

        if wsum > 0:
            mfrac /= wsum
        else:
            mfrac[:, :] = 1.0
""")]),
    ('m11-fitter-static', [(MD, """        def _get_fitter(cfg):
            model = cfg.get('model', 'wmom')
            symmetrize = cfg.get("symmetrize", True)

            if "fwhm_smooth" in cfg.get("weight", {}):
                kwargs = {"fwhm_smooth": cfg["weight"]["fwhm_smooth"]}
            else:
                kwargs = {}
""", """        def _get_fitter(cfg):
            model = cfg.get('model', 'wmom')
            symmetrize = cfg.get("symmetrize", True)

            kwargs = {}
            weight = cfg.get("weight", {})
            if "fwhm_smooth" in weight:
                kwargs["fwhm_smooth"] = weight["fwhm_smooth"]
""")]),
    ('m11-fitter-wavg-default', [(MD, """                fitter = ngmix.gaussmom.GaussMom(fwhm=cfg["weight"]["fwhm"])
                is_wavg = True
                coadd = False
            elif""", """                fitter = ngmix.gaussmom.GaussMom(fwhm=cfg["weight"]["fwhm"])
            elif"""), (MD, """                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
""", """                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
"""), (MD, """                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
""", """                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
"""), (MD, """            symmetrize = cfg.get("symmetrize", True)

            if "fwhm_smooth" """, """            symmetrize = cfg.get("symmetrize", True)
            is_wavg = True
            coadd = False

            if "fwhm_smooth" """)]),
    ('m11-fitters-zip', [(MD, """            fitters = []
            fwhms = []
            fwhm_regs = []
            fitter_is_wavg = []
            fitter_symmetrize = []
            fitter_coadd = []
            for fitter_cfg in self["fitters"]:
                _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                    fitter_cfg
                )
                fitters.append(fitter)
                fwhms.append(fwhm)
                fwhm_regs.append(fwhm_reg)
                fitter_is_wavg.append(is_wavg)
                fitter_symmetrize.append(symmetrize)
                fitter_coadd.append(coadd)
            self._fitters = fitters
            self._fwhms = fwhms
            self._fwhm_regs = fwhm_regs
            self._fitter_is_wavg = fitter_is_wavg
            self._fitter_symmetrize = fitter_symmetrize
            self._fitter_coadd = fitter_coadd
        else:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(self)
            self._fitters = [fitter]
            self._fwhms = [fwhm]
            self._fwhm_regs = [fwhm_reg]
            self._fitter_is_wavg = [is_wavg]
            self._fitter_symmetrize = [symmetrize]
            self._fitter_coadd = [coadd]
""", """            fitter_cfgs = self["fitters"]
        else:
            fitter_cfgs = [self]

        self._fitters = []
        self._fwhms = []
        self._fwhm_regs = []
        self._fitter_is_wavg = []
        self._fitter_symmetrize = []
        self._fitter_coadd = []
        for fitter_cfg in fitter_cfgs:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                fitter_cfg
            )
            self._fitters.append(fitter)
            self._fwhms.append(fwhm)
            self._fwhm_regs.append(fwhm_reg)
            self._fitter_is_wavg.append(is_wavg)
            self._fitter_symmetrize.append(symmetrize)
            self._fitter_coadd.append(coadd)
""")]),
    ('m11-fitters-info-list', [(MD, """            fitters = []
            fwhms = []
            fwhm_regs = []
            fitter_is_wavg = []
            fitter_symmetrize = []
            fitter_coadd = []
            for fitter_cfg in self["fitters"]:
                _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                    fitter_cfg
                )
                fitters.append(fitter)
                fwhms.append(fwhm)
                fwhm_regs.append(fwhm_reg)
                fitter_is_wavg.append(is_wavg)
                fitter_symmetrize.append(symmetrize)
                fitter_coadd.append(coadd)
            self._fitters = fitters
            self._fwhms = fwhms
            self._fwhm_regs = fwhm_regs
            self._fitter_is_wavg = fitter_is_wavg
            self._fitter_symmetrize = fitter_symmetrize
            self._fitter_coadd = fitter_coadd
        else:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(self)
            self._fitters = [fitter]
            self._fwhms = [fwhm]
            self._fwhm_regs = [fwhm_reg]
            self._fitter_is_wavg = [is_wavg]
            self._fitter_symmetrize = [symmetrize]
            self._fitter_coadd = [coadd]
""", """            infos = [_get_fitter(cfg) for cfg in self["fitters"]]
        else:
            infos = [_get_fitter(self)]

        self._fitters = [info[1] for info in infos]
        self._fwhms = [info[2] for info in infos]
        self._fwhm_regs = [info[3] for info in infos]
        self._fitter_is_wavg = [info[4] for info in infos]
        self._fitter_symmetrize = [info[5] for info in infos]
        self._fitter_coadd = [info[6] for info in infos]
""")]),
    ('m11-go-flags-any', [(MD, """        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True

        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if (not np.any(mfrac < 1)) or any_all_zero_weight or any_all_masked:
            self._result = None
            return
""", """        all_obs = [obs for obsl in self.mbobs for obs in obsl]
        any_all_zero_weight = any(np.all(obs.weight == 0) for obs in all_obs)
        any_all_masked = any(
            np.all((obs.bmask & self['nodet_flags']) != 0) for obs in all_obs
        )

        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if any_all_zero_weight or any_all_masked or not np.any(mfrac < 1):
            self._result = None
            return
""")]),
    ('m11-go-usable-method', [(MD, """        mfrac = self._get_mfrac(self.mbobs)
        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True

        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if (not np.any(mfrac < 1)) or any_all_zero_weight or any_all_masked:
            self._result = None
            return
""", """        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if not self._is_measurable():
            self._result = None
            return
"""), (MD, """    def _go_bands(self, shear_bands""", """    def _is_measurable(self):
        mfrac = self._get_mfrac(self.mbobs)
        if not np.any(mfrac < 1):
            return False

        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    return False
                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    return False

        return True

    def _go_bands(self, shear_bands""")]),
    ('m11-go-collect-helper', [(MD, """            if res is not None:
                for k, v in res.items():
                    if v is None:
                        continue
                    if k not in all_res:
                        all_res[k] = []
                    all_res[k].append(v)

        for k in all_res:
            all_res[k] = np.hstack(all_res[k])
""", """            if res is None:
                continue

            for k, v in res.items():
                if v is not None:
                    all_res.setdefault(k, []).append(v)

        all_res = {k: np.hstack(v) for k, v in all_res.items()}
""")]),
    ('m11-go-types-setdefault', [(MD, """        for mcal_type in self['metacal'].get(
            "types", ngmix.metacal.METACAL_MINIMAL_TYPES
        ):
            if mcal_type not in all_res:
                # this can happen if we do not detect sources for one of the
                # metacal images
                all_res[mcal_type] = None
""", """        if "types" in self['metacal']:
            mcal_types = self['metacal']["types"]
        else:
            mcal_types = ngmix.metacal.METACAL_MINIMAL_TYPES

        for mcal_type in mcal_types:
            # this can happen if we do not detect sources for one of the
            # metacal images
            all_res.setdefault(mcal_type, None)
""")]),
    ('m11-go-color-flag', [(MD, """        all_res = {}
        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            if self.color_key_func is not None and self.color_dep_mbobs is not None:
                res = self._go_bands_with_color(shear_bands, mcal_res, det_bands)
            else:
                res = self._go_bands(shear_bands, mcal_res, det_bands)
            if res""", """        use_color = (
            self.color_key_func is not None
            and self.color_dep_mbobs is not None
        )
        run_bands = self._go_bands_with_color if use_color else self._go_bands

        all_res = {}
        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            res = run_bands(shear_bands, mcal_res, det_bands)
            if res""")]),
    ('m11-gobands-kwargs', [(MD, """            _result[shear_str] = self._measure(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                det_bands=det_bands,
                cat=cat,
                shear_str=shear_str,
                mfrac=kdata["mfrac"],
                bmask=kdata["bmask"],
                ormask=kdata["ormask"],
                psf_stats=kdata["psf_stats"],
            )

        return _result

    def _go_bands_with_color""", """            _result[shear_str] = self._measure_with_data(
                kdata, mbobs_list, cat, shear_str, shear_bands, det_bands,
            )

        return _result

    def _measure_with_data(
        self, kdata, mbobs_list, cat, shear_str, shear_bands, det_bands,
    ):
        data = {
            key: kdata[key] for key in ["mfrac", "bmask", "ormask", "psf_stats"]
        }
        return self._measure(
            mbobs_list=mbobs_list,
            shear_bands=shear_bands,
            det_bands=det_bands,
            cat=cat,
            shear_str=shear_str,
            **data,
        )

    def _go_bands_with_color""")]),
    ('m11-color-object-helper', [(MD, """                _medsifier = detect.CatalogMEDSifier(
                    kdata["mcal_res"][shear_str],
                    cat['x'][i:i+1],
                    cat['y'][i:i+1],
                    cat['box_size'][i:i+1],
                )
                mbm = _medsifier.get_multiband_meds()
                mbobs_list = mbm.get_mbobs_list(
                    weight_type=self["meds"].get("weight_type", "weight"),
                )

                _data""", """                mbobs_list = self._get_object_mbobs_list(
                    kdata["mcal_res"][shear_str], cat[i:i+1],
                )

                _data"""), (MD, """    def _get_mbobs_data(self""", """    def _get_object_mbobs_list(self, mbobs, objs):
        medsifier = detect.CatalogMEDSifier(
            mbobs, objs['x'], objs['y'], objs['box_size'],
        )
        weight_type = self["meds"].get("weight_type", "weight")
        return medsifier.get_multiband_meds().get_mbobs_list(
            weight_type=weight_type,
        )

    def _get_mbobs_data(self""")]),
    ('m11-color-stack-ifexp', [(MD, """            if len(color_data) > 0:
                _result[shear_str] = np.hstack(color_data)
            else:
                _result[shear_str] = None
""", """            _result[shear_str] = np.hstack(color_data) if color_data else None
""")]),
    ('m11-color-keys-map', [(MD, """            color_keys = [
                self.color_key_func(nocolor_data[col][i])
                for i in range(nocolor_data.shape[0])
            ]

            # now we remeasure the object at that mbobs
            color_data = []
            for i, color_key in enumerate(color_keys):
                kdata""", """            color_keys = [self.color_key_func(flux) for flux in nocolor_data[col]]

            # now we remeasure the object at that mbobs
            color_data = []
            for i, color_key in enumerate(color_keys):
                kdata""")]),
    ('m11-data-entry', [(MD, """        sbkey = tuple(sorted(shear_bands))
        if sbkey not in self._mbobs_data_cache[key]:
            logger.info("shear_bands key %s not in mbobs data cache", sbkey)
            self._mbobs_data_cache[key][sbkey] = {}
            self._mbobs_data_cache[key][sbkey].update(
                self._mcalpsf_data_cache[key]
            )

            _mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                _mbobs.append(mbobs[band])
            mfrac = self._get_mfrac(_mbobs)
            ormask, bmask = self._get_ormask_and_bmask(_mbobs)
            psf_stats = _get_psf_stats(
                _mbobs,
                self._mbobs_data_cache[key][sbkey]["psf_fit_flags"],
            )
            self._mbobs_data_cache[key][sbkey]["mfrac"] = mfrac
            self._mbobs_data_cache[key][sbkey]["bmask"] = bmask
            self._mbobs_data_cache[key][sbkey]["ormask"] = ormask
            self._mbobs_data_cache[key][sbkey]["psf_stats"] = psf_stats

        return self._mbobs_data_cache[key][sbkey]
""", """        sbkey = tuple(sorted(shear_bands))
        band_cache = self._mbobs_data_cache[key]
        if sbkey not in band_cache:
            logger.info("shear_bands key %s not in mbobs data cache", sbkey)
            entry = dict(self._mcalpsf_data_cache[key])

            _mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                _mbobs.append(mbobs[band])

            entry["mfrac"] = self._get_mfrac(_mbobs)
            entry["ormask"], entry["bmask"] = self._get_ormask_and_bmask(_mbobs)
            entry["psf_stats"] = _get_psf_stats(_mbobs, entry["psf_fit_flags"])
            band_cache[sbkey] = entry

        return band_cache[sbkey]
""")]),
    ('m11-data-psf-helper', [(MD, """            try:
                fitting.fit_all_psfs(mbobs, self.rng)
                _psf_fit_flags = 0
            except BootPSFFailure:
                _psf_fit_flags = procflags.PSF_FAILURE
            self._mcalpsf_data_cache[key]["psf_fit_flags"] = _psf_fit_flags
""", """            self._mcalpsf_data_cache[key]["psf_fit_flags"] = self._fit_psfs(mbobs)
"""), (MD, """    def _measure(
""", """    def _fit_psfs(self, mbobs):
        try:
            fitting.fit_all_psfs(mbobs, self.rng)
        except BootPSFFailure:
            return procflags.PSF_FAILURE
        return 0

    def _measure(
""")]),
    ('m11-measure-one-fitter', [(MD, """            ft0 = time.time()
            if is_wavg:
                res = fit_mbobs_list_wavg(
                    mbobs_list=mbobs_list,
                    fitter=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    fwhm_reg=fwhm_reg,
                    symmetrize=symm,
                )
            else:
                res = fit_mbobs_list_joint(
                    mbobs_list=mbobs_list,
                    fitter_name=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    rng=self.rng,
                    symmetrize=symm,
                    coadd=coadd,
                )
            ft0""", """            ft0 = time.time()
            common = dict(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                bmask_flags=self.get("bmask_flags", 0),
                symmetrize=symm,
            )
            if is_wavg:
                res = fit_mbobs_list_wavg(
                    fitter=fitter, fwhm_reg=fwhm_reg, **common,
                )
            else:
                res = fit_mbobs_list_joint(
                    fitter_name=fitter, rng=self.rng, coadd=coadd, **common,
                )
            ft0""")]),
    ('m11-measure-none-early', [(MD, """        res = combine_fit_res(all_res)

        if res is not None:
            res = self._add_positions_and_psf(
                cat=cat,
                res=res,
                shear_str=shear_str,
                mfrac=mfrac,
                bmask=bmask,
                ormask=ormask,
                psf_stats=psf_stats,
                det_bands=det_bands,
            )
        logger.info("src measurements took %s seconds", time.time() - t0)

        return res
""", """        res = combine_fit_res(all_res)
        if res is None:
            logger.info("src measurements took %s seconds", time.time() - t0)
            return None

        newres = self._add_positions_and_psf(
            res=res,
            cat=cat,
            det_bands=det_bands,
            shear_str=shear_str,
            psf_stats=psf_stats,
            mfrac=mfrac,
            ormask=ormask,
            bmask=bmask,
        )
        logger.info("src measurements took %s seconds", time.time() - t0)
        return newres
""")]),
    ('m11-pos-psf-helper', [(MD, """        if 'psfrec_flags' not in res.dtype.names:
            newres['psfrec_flags'] = procflags.NO_ATTEMPT

        newres['psfrec_flags'][:] = psf_stats['flags']
        newres['psfrec_g'][:, 0] = psf_stats['g1']
        newres['psfrec_g'][:, 1] = psf_stats['g2']
        newres['psfrec_T'][:] = psf_stats['T']
        newres['mfrac_img'][:] = np.mean(mfrac)
""", """        # always overwrite whatever the fitters put there
        _set_psf_stats(newres, psf_stats)
        newres['mfrac_img'] = np.mean(mfrac)
"""), (MD, """def _clip_and_round(""", """def _set_psf_stats(res, psf_stats):
    res['psfrec_flags'] = psf_stats['flags']
    res['psfrec_T'] = psf_stats['T']
    for i, name in enumerate(['g1', 'g2']):
        res['psfrec_g'][:, i] = psf_stats[name]


def _clip_and_round(""")]),
    ('m11-pos-mask-cols', [(MD, """            newres["ormask"] = _fill_in_mask_col(
                mask_region=ormask_region,
                rows=newres['sx_row'],
                cols=newres['sx_col'],
                mask=ormask,
            )
            newres["ormask_noshear"] = _fill_in_mask_col(
                mask_region=ormask_region,
                rows=newres['sx_row_noshear'],
                cols=newres['sx_col_noshear'],
                mask=ormask,
            )

            newres["bmask"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row'],
                cols=newres['sx_col'],
                mask=bmask,
            )
            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row_noshear'],
                cols=newres['sx_col_noshear'],
                mask=bmask,
            )
""", """            for name, mask, region in [
                ("ormask", ormask, ormask_region),
                ("bmask", bmask, bmask_region),
            ]:
                for ext in ["", "_noshear"]:
                    newres[name + ext] = _fill_in_mask_col(
                        mask_region=region,
                        rows=newres['sx_row' + ext],
                        cols=newres['sx_col' + ext],
                        mask=mask,
                    )
""")]),
    ('m11-pos-mfrac-loop', [(MD, """            if np.any(mfrac > 0):
                newres["mfrac"] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col"],
                    y=newres["sx_row"],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=self.get("mfrac_fwhm", self._fwhms[0]),
                )

                newres["mfrac_noshear"] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col_noshear"],
                    y=newres["sx_row_noshear"],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=self.get("mfrac_fwhm", self._fwhms[0]),
                )
            else:
                newres["mfrac"] = 0
                newres["mfrac_noshear"] = 0
""", """            any_masked = np.any(mfrac > 0)
            fwhm = self.get("mfrac_fwhm", self._fwhms[0])
            for ext in ("", "_noshear"):
                if not any_masked:
                    newres["mfrac" + ext] = 0
                    continue

                newres["mfrac" + ext] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col" + ext],
                    y=newres["sx_row" + ext],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=fwhm,
                )
""")]),
    ('m11-pos-regions-get', [(MD, """            if 'ormask_region' in self and self['ormask_region'] > 1:
                ormask_region = self['ormask_region']
            elif 'mask_region' in self and self['mask_region'] > 1:
                ormask_region = self['mask_region']
            else:
                ormask_region = 1

            if 'mask_region' in self and self['mask_region'] > 1:
                bmask_region = self['mask_region']
            else:
                bmask_region = 1
""", """            bmask_region = max(self.get('mask_region', 1), 1)
            ormask_region = self.get('ormask_region', 1)
            if ormask_region <= 1:
                ormask_region = bmask_region
""")]),
    ('m11-pos-det-bands', [(MD, """        newres["det_bands"] = "".join("%s" % b for b in sorted(det_bands))
""", """        newres["det_bands"] = "".join([str(b) for b in sorted(det_bands)])
""")]),
    ('m11-pos-dtype-early', [(MD, """        if 'psfrec_flags' not in res.dtype.names:
            new_dt += [
                ('psfrec_flags', 'i4'),  # psfrec is the original psf
                ('psfrec_g', 'f8', 2),
                ('psfrec_T', 'f8'),
            ]
        newres = eu.numpy_util.add_fields(
            res,
            new_dt,
        )

        assert len(det_bands) <= MAX_NUM_SHEAR_BANDS
        newres["det_bands"] = "".join("%s" % b for b in sorted(det_bands))

        if 'psfrec_flags' not in res.dtype.names:
            newres['psfrec_flags'] = procflags.NO_ATTEMPT
""", """        assert len(det_bands) <= MAX_NUM_SHEAR_BANDS

        need_psf = 'psfrec_flags' not in res.dtype.names
        if need_psf:
            new_dt.append(('psfrec_flags', 'i4'))  # psfrec is the original psf
            new_dt.append(('psfrec_g', 'f8', 2))
            new_dt.append(('psfrec_T', 'f8'))

        newres = eu.numpy_util.add_fields(res, new_dt)
        newres["det_bands"] = "".join("%s" % b for b in sorted(det_bands))
        if need_psf:
            newres['psfrec_flags'] = procflags.NO_ATTEMPT
""")]),
    ('m11-detect-cat-local', [(MD, """        all_medsifier = detect.CatalogMEDSifier(
            mbobs,
            medsifier.cat['x'],
            medsifier.cat['y'],
            medsifier.cat['box_size'],
            seg=medsifier.seg,
            number=medsifier.cat['number'],
        )
        mbm = all_medsifier.get_multiband_meds()
        mbobs_list = mbm.get_mbobs_list(
            weight_type=self["meds"].get("weight_type", "weight"),
        )
        logger.info("detect took %s seconds", time.time() - t0)

        return medsifier.cat, mbobs_list
""", """        cat = medsifier.cat
        weight_type = self["meds"].get("weight_type", "weight")
        mbobs_list = detect.CatalogMEDSifier(
            mbobs,
            cat['x'],
            cat['y'],
            cat['box_size'],
            number=cat['number'],
            seg=medsifier.seg,
        ).get_multiband_meds().get_mbobs_list(weight_type=weight_type)
        logger.info("detect took %s seconds", time.time() - t0)

        return cat, mbobs_list
""")]),
    ('m11-psfstats-mean-helper', [(MD, """def _get_psf_stats(mbobs, global_flags):
    if global_flags != 0:
        flags = procflags.PSF_FAILURE | global_flags
        g1 = np.nan
        g2 = np.nan
        T = np.nan
    else:
        try:
            g1sum = 0.0
            g2sum = 0.0
            Tsum = 0.0
            wsum = 0.0

            for obslist in mbobs:
                for obs in obslist:
                    wt = obs.weight.max()
                    res = obs.psf.meta['result']
                    T = res['T']
                    if 'e' in res:
                        g1, g2 = res['e']
                    else:
                        g1, g2 = res['g']

                    g1sum += g1*wt
                    g2sum += g2*wt
                    Tsum += T*wt
                    wsum += wt

            if wsum <= 0.0:
                raise BootPSFFailure(
                    'zero weights, could not get mean psf properties'
                )
            g1 = g1sum/wsum
            g2 = g2sum/wsum
            T = Tsum/wsum

            flags = 0

        except BootPSFFailure:
            flags = procflags.PSF_FAILURE
            g1 = np.nan
            g2 = np.nan
            T = np.nan
""", """def _get_mean_psf(mbobs):
    g1sum = 0.0
    g2sum = 0.0
    Tsum = 0.0
    wsum = 0.0

    for obslist in mbobs:
        for obs in obslist:
            wt = obs.weight.max()
            res = obs.psf.meta['result']
            g1, g2 = res['e'] if 'e' in res else res['g']

            g1sum += g1*wt
            g2sum += g2*wt
            Tsum += res['T']*wt
            wsum += wt

    if wsum <= 0.0:
        raise BootPSFFailure(
            'zero weights, could not get mean psf properties'
        )

    return g1sum/wsum, g2sum/wsum, Tsum/wsum


def _get_psf_stats(mbobs, global_flags):
    g1, g2, T = np.nan, np.nan, np.nan
    if global_flags != 0:
        flags = procflags.PSF_FAILURE | global_flags
    else:
        try:
            g1, g2, T = _get_mean_psf(mbobs)
            flags = 0
        except BootPSFFailure:
            flags = procflags.PSF_FAILURE
""")]),
    ('m11-clip-new', [(MD, """    vals = vals_in.copy()

    np.rint(vals, out=vals)
    vals.clip(min=0, max=dim-1, out=vals)

    return vals.astype('i4')
""", """    return np.clip(np.rint(vals_in), 0, dim - 1).astype('i4')
""")]),
    ('m11-fill-range-helper', [(MD, """            lr = int(min(
                dims[0]-1,
                max(0, rclip[ind] - mask_region)))
            ur = int(min(
                dims[0]-1,
                max(0, rclip[ind] + mask_region)))

            lc = int(min(
                dims[1]-1,
                max(0, cclip[ind] - mask_region)))
            uc = int(min(
                dims[1]-1,
                max(0, cclip[ind] + mask_region)))

            res[ind] = np.bitwise_or.reduce(
                mask[lr:ur+1, lc:uc+1],
                axis=None,
            )
""", """            lr, ur = _get_region(rclip[ind], mask_region, dims[0])
            lc, uc = _get_region(cclip[ind], mask_region, dims[1])

            res[ind] = np.bitwise_or.reduce(
                mask[lr:ur+1, lc:uc+1],
                axis=None,
            )
"""), (MD, """def _fill_in_mask_col(""", """def _get_region(cen, rad, dim):
    low = min(dim - 1, max(0, cen - rad))
    high = min(dim - 1, max(0, cen + rad))
    return int(low), int(high)


def _fill_in_mask_col(""")]),
    ('m11-fill-early', [(MD, """    if mask_region > 1:
        res = np.zeros_like(rows, dtype=np.int32)
        for ind in range(rows.size):
""", """    if mask_region <= 1:
        return mask[rclip, cclip].astype(np.int32)
    else:
        res = np.zeros_like(rows, dtype=np.int32)
        for ind in range(rows.size):
"""), (MD, """                axis=None,
            )
    else:
        res = mask[rclip, cclip].astype(np.int32)

    return res""", """                axis=None,
            )

    return res""")]),
    ('f11-gauss-check-helper', [(FT, """        for obs in obslist:
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT

    if any(s >= len(mbobs) for s in shear_bands):
        flags |= procflags.INCONSISTENT_BANDS

    if coadd:
        if flags == 0:
            coadd_obs, coadd_flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
            flags |= coadd_flags

        if flags == 0:
            shear_mbobs = ngmix.observation.get_mb_obs(coadd_obs)
    else:
        if flags == 0:
            shear_mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                shear_mbobs.append(mbobs[band])
""", """        for obs in obslist:
            if np.all(obs.weight <= 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any(obs.bmask & bmask_flags):
                flags |= procflags.EDGE_HIT

    if len(mbobs) <= max(shear_bands, default=-1):
        flags |= procflags.INCONSISTENT_BANDS

    if flags == 0 and coadd:
        coadd_obs, coadd_flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
        flags |= coadd_flags
        if flags == 0:
            shear_mbobs = ngmix.observation.get_mb_obs(coadd_obs)
    elif flags == 0:
        shear_mbobs = ngmix.MultiBandObsList()
        for band in shear_bands:
            shear_mbobs.append(mbobs[band])
""")]),
    ('f11-gauss-select-helper', [(FT, """    if coadd:
        if flags == 0:
            coadd_obs, coadd_flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
            flags |= coadd_flags

        if flags == 0:
            shear_mbobs = ngmix.observation.get_mb_obs(coadd_obs)
    else:
        if flags == 0:
            shear_mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                shear_mbobs.append(mbobs[band])

    if flags == 0:
        try:""", """    if flags == 0:
        shear_mbobs, flags = _select_shear_mbobs(mbobs, shear_bands, coadd)

    if flags == 0:
        try:"""), (FT, """def _extract_g(res):
""", """def _select_shear_mbobs(mbobs, shear_bands, coadd):
    if coadd:
        coadd_obs, flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
        if flags != 0:
            return None, flags
        return ngmix.observation.get_mb_obs(coadd_obs), 0

    shear_mbobs = ngmix.MultiBandObsList()
    for band in shear_bands:
        shear_mbobs.append(mbobs[band])
    return shear_mbobs, 0


def _extract_g(res):
""")]),
    ('f11-gauss-psf-mean-helper', [(FT, """            pflags = 0
            psf_g_sum = np.zeros(2)
            psf_T_sum = 0.0
            wgt_sum = 0.0
            for obslist in shear_mbobs:
                for obs in obslist:
                    pflags |= obs.psf.meta["result"]["flags"]
                    if obs.psf.meta["result"]["flags"] == 0:
                        msk = obs.weight > 0
                        if not np.any(msk):
                            pflags |= procflags.ZERO_WEIGHTS
                        else:
                            _wgt = np.median(obs.weight[msk])
                            psf_T_sum += obs.psf.meta["result"]["T"] * _wgt
                            g = _extract_g(obs.psf.meta["result"])
                            psf_g_sum += (
                                g
                                * _wgt
                                * obs.psf.meta["result"]["T"]
                            )
                            wgt_sum += _wgt

            res["gauss_psf_flags"] = pflags
            if res["gauss_psf_flags"] == 0:
                res["gauss_psf_T"] = psf_T_sum / wgt_sum
                res["gauss_psf_g"] = psf_g_sum / psf_T_sum
                if ores["flags"] == 0:
""", """            pflags, psf_g_sum, psf_T_sum, wgt_sum = _sum_psf_props(shear_mbobs)

            res["gauss_psf_flags"] = pflags
            if res["gauss_psf_flags"] == 0:
                res["gauss_psf_T"] = psf_T_sum / wgt_sum
                res["gauss_psf_g"] = psf_g_sum / psf_T_sum
                if ores["flags"] == 0:
"""), (FT, """def _extract_g(res):
""", """def _sum_psf_props(mbobs):
    flags = 0
    g_sum = np.zeros(2)
    T_sum = 0.0
    wgt_sum = 0.0
    for obslist in mbobs:
        for obs in obslist:
            pres = obs.psf.meta["result"]
            flags |= pres["flags"]
            if pres["flags"] != 0:
                continue

            msk = obs.weight > 0
            if not np.any(msk):
                flags |= procflags.ZERO_WEIGHTS
                continue

            wgt = np.median(obs.weight[msk])
            wgt_sum += wgt
            T_sum += wgt * pres["T"]
            g_sum += _extract_g(pres) * wgt * pres["T"]

    return flags, g_sum, T_sum, wgt_sum


def _extract_g(res):
""")]),
    ('f11-gauss-copy-loop', [(FT, """            res["gauss_s2n"] = ores["s2n"]
            res["gauss_g"] = ores["g"]
            res["gauss_g_cov"] = ores["g_cov"]
            res["gauss_T"] = ores["T"]
            res["gauss_T_err"] = ores["T_err"]

            if""", """            for name in ["s2n", "g", "g_cov", "T", "T_err"]:
                res["gauss_" + name] = ores[name]

            if""")]),
    ('f11-gauss-flux-helper', [(FT, """        if len(res["gauss_band_flux_flags"].shape) == 2:
            res["gauss_band_flux_flags"][0, shear_bands] = ores["flags"]
        else:
            res["gauss_band_flux_flags"] = ores["flags"]

        if ores""", """        _set_band_column(res, "gauss_band_flux_flags", shear_bands, ores["flags"])

        if ores"""), (FT, """            if len(res["gauss_band_flux_flags"].shape) == 2:
                res["gauss_band_flux"][0, shear_bands] = ores["flux"]
                res["gauss_band_flux_err"][0, shear_bands] = ores["flux_err"]
            else:
                res["gauss_band_flux"] = ores["flux"]
                res["gauss_band_flux_err"] = ores["flux_err"]

        if coadd""", """            for name in ("flux", "flux_err"):
                _set_band_column(res, "gauss_band_" + name, shear_bands, ores[name])

        if coadd"""), (FT, """def _extract_g(res):
""", """def _set_band_column(res, name, shear_bands, value):
    if len(res["gauss_band_flux_flags"].shape) == 2:
        res[name][0, shear_bands] = value
    else:
        res[name] = value


def _extract_g(res):
""")]),
    ('f11-gauss-fail-early', [(FT, """    if flags == 0:
        res["gauss_obj_flags"] = ores["flags"]
        res["gauss_T_flags"] = ores["flags"]
""", """    if flags != 0:
        res["gauss_flags"] |= flags
    else:
        res["gauss_obj_flags"] = ores["flags"]
        res["gauss_T_flags"] = ores["flags"]
"""), (FT, """        res["gauss_flags"] = res["gauss_obj_flags"] | res["gauss_psf_flags"]
    else:
        res["gauss_flags"] |= flags

    return res
""", """        res["gauss_flags"] = res["gauss_obj_flags"] | res["gauss_psf_flags"]

    return res
""")]),
    ('f11-prior-helper', [(FT, """    T_prior = ngmix.priors.TwoSidedErf(
        minval=-10.0,
        width_at_min=0.03,
        maxval=1.0e6,
        width_at_max=1.0e5,
        rng=rng,
    )
    F_prior = ngmix.priors.TwoSidedErf(
        minval=-1.0e4,
        width_at_min=1.0,
        maxval=1.0e9,
        width_at_max=0.25e8,
        rng=rng,
    )
    F_prior = [F_prior] * nband
""", """    T_pars = dict(minval=-10.0, width_at_min=0.03, maxval=1.0e6, width_at_max=1.0e5)
    F_pars = dict(minval=-1.0e4, width_at_min=1.0, maxval=1.0e9, width_at_max=0.25e8)
    T_prior = ngmix.priors.TwoSidedErf(rng=rng, **T_pars)
    F_prior = [ngmix.priors.TwoSidedErf(rng=rng, **F_pars)] * nband
""")]),
    ('f11-joint-setup-helper', [(FT, """        kwargs = {"coadd": coadd}
        if len(mbobs_list) > 0 and len(mbobs_list[0]) > 0 and len(mbobs_list[0][0]) > 0:
            scale = mbobs_list[0][0][0].jacobian.get_scale()
            if coadd:
                nband = 1
            else:
                if shear_bands is None:
                    nband = len(mbobs_list[0])
                else:
                    nband = len(shear_bands)
            kwargs["obj_runner"] = get_gauss_obj_runner(rng, nband, scale)
            kwargs["psf_runner"] = get_gauss_psf_runner(rng)
    else:""", """        kwargs = {"coadd": coadd}
        kwargs.update(_get_gauss_runners(mbobs_list, rng, shear_bands, coadd))
    else:"""), (FT, """def get_admom_runner(rng):
""", """def _get_gauss_runners(mbobs_list, rng, shear_bands, coadd):
    if len(mbobs_list) == 0:
        return {}
    mbobs = mbobs_list[0]
    if len(mbobs) == 0 or len(mbobs[0]) == 0:
        return {}

    if coadd:
        nband = 1
    elif shear_bands is None:
        nband = len(mbobs)
    else:
        nband = len(shear_bands)

    scale = mbobs[0][0].jacobian.get_scale()
    return {
        "obj_runner": get_gauss_obj_runner(rng, nband, scale),
        "psf_runner": get_gauss_psf_runner(rng),
    }


def get_admom_runner(rng):
""")]),
    ('f11-joint-comp', [(FT, """    res = []
    for i, mbobs in enumerate(mbobs_list):
        _res = fit_func(
            mbobs=mbobs,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            rng=rng,
            **kwargs,
        )
        res.append(_res)

    if len(res) > 0:
        return np.hstack(res)
    else:
        return None


def get_admom_runner""", """    if len(mbobs_list) == 0:
        return None

    return np.hstack([
        fit_func(
            mbobs=mbobs,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            rng=rng,
            **kwargs,
        )
        for mbobs in mbobs_list
    ])


def get_admom_runner""")]),
]
