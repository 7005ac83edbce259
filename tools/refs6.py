"""hand-made refactorings of metadetect/metadetect.py, detect.py and masking.py: second set"""
MD = 'metadetect/metadetect.py'
REFS = [
    ('m6-color-check', [(MD, """        if (
            (color_dep_mbobs is not None and color_key_func is None)
            or
            (color_dep_mbobs is None and color_key_func is not None)
        ):
""", """        have_mbobs = color_dep_mbobs is not None
        have_func = color_key_func is not None
        if have_mbobs != have_func:
""")]),
    ('m6-all-bands-helper', [(MD, """        if shear_band_combs is None:
            shear_band_combs = [
                list(range(self.nband)),
            ]

        self._shear_band_combs = shear_band_combs

        if det_band_combs is None:
            det_band_combs = (
                [list(range(self.nband))]
                * len(self._shear_band_combs)
            )
        elif""", """        if shear_band_combs is None:
            shear_band_combs = [self._all_bands()]

        self._shear_band_combs = shear_band_combs

        if det_band_combs is None:
            det_band_combs = [
                self._all_bands() for _ in self._shear_band_combs
            ]
        elif"""), (MD, """    def _set_config(self, config):
""", """    def _all_bands(self):
        return list(range(self.nband))

    def _set_config(self, config):
""")]),
    ('m6-setdefault', [(MD, """        self['nodet_flags'] = self.get('nodet_flags', 0)
""", """        self.setdefault('nodet_flags', 0)
""")]),
    ('m6-config-raise-loop', [(MD, """        assert 'metacal' in self, \\
            'metacal setting must be present in config'
        assert 'meds' in self, \\
            'meds setting must be present in config'
""", """        for key in ('metacal', 'meds'):
            assert key in self, '%s setting must be present in config' % key
""")]),
    ('m6-masks-single-obs', [(MD, """        for band, obslist in enumerate(mbobs):
            nepoch = len(obslist)
            assert nepoch == 1, 'expected 1 epoch, got %d' % nepoch

            obs = obslist[0]

            if band == 0:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask |= obs.ormask
                bmask |= obs.bmask
""", """        ormask = None
        for obslist in mbobs:
            obs = self._single_epoch(obslist)

            if ormask is None:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask |= obs.ormask
                bmask |= obs.bmask
"""), (MD, """        for band, obslist in enumerate(mbobs):
            nepoch = len(obslist)
            assert nepoch == 1, 'expected 1 epoch, got %d' % nepoch

            obs = obslist[0]
            msk = obs.weight > 0
""", """        for obslist in mbobs:
            obs = self._single_epoch(obslist)
            msk = obs.weight > 0
"""), (MD, """    def _get_ormask_and_bmask(self, mbobs):
""", """    @staticmethod
    def _single_epoch(obslist):
        nepoch = len(obslist)
        assert nepoch == 1, 'expected 1 epoch, got %d' % nepoch
        return obslist[0]

    def _get_ormask_and_bmask(self, mbobs):
""")]),
    ('m6-masks-reduce', [(MD, """            if band == 0:
                ormask = obs.ormask.copy()
                bmask = obs.bmask.copy()
            else:
                ormask |= obs.ormask
                bmask |= obs.bmask
""", """            if band > 0:
                np.bitwise_or(ormask, obs.ormask, out=ormask)
                np.bitwise_or(bmask, obs.bmask, out=bmask)
                continue

            ormask = np.array(obs.ormask)
            bmask = np.array(obs.bmask)
""")]),
    ('m6-mfrac-weight', [(MD, """            msk = obs.weight > 0
            if not np.any(msk):
                wgt = 0
            else:
                wgt = np.median(obs.weight[msk])
            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
            wgts.append(wgt)

        if np.sum(wgts) > 0:
            mfrac = mfrac / np.sum(wgts)
        else:
            mfrac[:, :] = 1.0

        return mfrac
""", """            positive = obs.weight[obs.weight > 0]
            wgt = np.median(positive) if positive.size > 0 else 0
            wgts.append(wgt)
            if hasattr(obs, "mfrac"):
                mfrac = mfrac + wgt * obs.mfrac

        wsum = np.sum(wgts)
        if wsum > 0:
            return mfrac / wsum

        return np.ones_like(mfrac)
""")]),
    ('m6-mfrac-getattr', [(MD, """            if hasattr(obs, "mfrac"):
                mfrac += (obs.mfrac * wgt)
            wgts.append(wgt)
""", """            wgts.append(wgt)
            if not hasattr(obs, "mfrac"):
                continue
            mfrac += wgt * obs.mfrac
""")]),
    ('m6-mfrac-total', [(MD, """        wgts = []
        mfrac = np.zeros_like(mbobs[0][0].image)
""", """        total = 0
        mfrac = np.zeros_like(mbobs[0][0].image)
"""), (MD, """            wgts.append(wgt)

        if np.sum(wgts) > 0:
            mfrac = mfrac / np.sum(wgts)
        else:
""", """            total += wgt

        if total > 0:
            mfrac = mfrac / total
        else:
""")]),
    ('m6-fitter-ctor-table', [(MD, """            elif model == 'ksigma':
                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
            elif model == "pgauss":
                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
""", """            elif model in ('ksigma', 'pgauss'):
                if model == 'ksigma':
                    ctor = ngmix.prepsfmom.KSigmaMom
                else:
                    ctor = ngmix.prepsfmom.PGaussMom
                fitter = ctor(fwhm=cfg["weight"]["fwhm"], **kwargs)
                is_wavg = True
                coadd = False
""")]),
    ('m6-fitter-defaults-first', [(MD, """            if model == 'wmom':
                fitter = ngmix.gaussmom.GaussMom(fwhm=cfg["weight"]["fwhm"])
                is_wavg = True
                coadd = False
            elif model == 'ksigma':
                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
            elif model == "pgauss":
                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
            elif""", """            is_wavg = True
            coadd = False
            if model == 'wmom':
                fitter = ngmix.gaussmom.GaussMom(fwhm=cfg["weight"]["fwhm"])
            elif model == 'ksigma':
                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"], **kwargs,
                )
            elif model == "pgauss":
                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"], **kwargs,
                )
            elif""")]),
    ('m6-fitter-smooth-kwargs', [(MD, """            if "fwhm_smooth" in cfg.get("weight", {}):
                kwargs = {"fwhm_smooth": cfg["weight"]["fwhm_smooth"]}
            else:
                kwargs = {}
""", """            kwargs = {}
            weight = cfg.get("weight", {})
            if "fwhm_smooth" in weight:
                kwargs["fwhm_smooth"] = weight["fwhm_smooth"]
""")]),
    ('m6-fwhm-reg', [(MD, """            if "fwhm_reg" in cfg.get("weight", {}):
                fwhm_reg = cfg["weight"]["fwhm_reg"]
                fitter.kind = fitter.kind + "_reg%0.2f" % cfg["weight"]["fwhm_reg"]
            else:
                fwhm_reg = 0
""", """            fwhm_reg = 0
            if "fwhm_reg" in cfg.get("weight", {}):
                fwhm_reg = cfg["weight"]["fwhm_reg"]
                fitter.kind += "_reg%0.2f" % fwhm_reg
""")]),
    ('m6-fitters-conflict', [(MD, """        if "fitters" in self and (
            "model" in self
            or "weight" in self
            or "symmetrize" in self
            or "coadd" in self
        ):
            raise""", """        single_keys = ("model", "weight", "symmetrize", "coadd")
        if "fitters" in self and any(key in self for key in single_keys):
            raise""")]),
    ('m6-fitters-one-list', [(MD, """        if "fitters" in self:
            fitters = []
            fwhms = []
            fwhm_regs = []
            fitter_is_wavg = []
            fitter_symmetrize = []
            fitter_coadd = []
            for fitter_cfg in self["fitters"]:
                _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                    fitter_cfg
                )
                fitters.append(fitter)
                fwhms.append(fwhm)
                fwhm_regs.append(fwhm_reg)
                fitter_is_wavg.append(is_wavg)
                fitter_symmetrize.append(symmetrize)
                fitter_coadd.append(coadd)
            self._fitters = fitters
            self._fwhms = fwhms
            self._fwhm_regs = fwhm_regs
            self._fitter_is_wavg = fitter_is_wavg
            self._fitter_symmetrize = fitter_symmetrize
            self._fitter_coadd = fitter_coadd
        else:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(self)
            self._fitters = [fitter]
            self._fwhms = [fwhm]
            self._fwhm_regs = [fwhm_reg]
            self._fitter_is_wavg = [is_wavg]
            self._fitter_symmetrize = [symmetrize]
            self._fitter_coadd = [coadd]
""", """        cfgs = self["fitters"] if "fitters" in self else [self]
        self._fitters = []
        self._fwhms = []
        self._fwhm_regs = []
        self._fitter_is_wavg = []
        self._fitter_symmetrize = []
        self._fitter_coadd = []
        for cfg in cfgs:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(cfg)
            self._fitters.append(fitter)
            self._fwhms.append(fwhm)
            self._fwhm_regs.append(fwhm_reg)
            self._fitter_is_wavg.append(is_wavg)
            self._fitter_symmetrize.append(symmetrize)
            self._fitter_coadd.append(coadd)
""")]),
    ('m6-fitters-comp', [(MD, """            fitters = []
            fwhms = []
            fwhm_regs = []
            fitter_is_wavg = []
            fitter_symmetrize = []
            fitter_coadd = []
            for fitter_cfg in self["fitters"]:
                _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                    fitter_cfg
                )
                fitters.append(fitter)
                fwhms.append(fwhm)
                fwhm_regs.append(fwhm_reg)
                fitter_is_wavg.append(is_wavg)
                fitter_symmetrize.append(symmetrize)
                fitter_coadd.append(coadd)
            self._fitters = fitters
            self._fwhms = fwhms
            self._fwhm_regs = fwhm_regs
            self._fitter_is_wavg = fitter_is_wavg
            self._fitter_symmetrize = fitter_symmetrize
            self._fitter_coadd = fitter_coadd
""", """            parts = [_get_fitter(fitter_cfg) for fitter_cfg in self["fitters"]]
            self._fitters = [part[1] for part in parts]
            self._fwhms = [part[2] for part in parts]
            self._fwhm_regs = [part[3] for part in parts]
            self._fitter_is_wavg = [part[4] for part in parts]
            self._fitter_symmetrize = [part[5] for part in parts]
            self._fitter_coadd = [part[6] for part in parts]
""")]),
    ('m6-result-try', [(MD, """        if not hasattr(self, '_result'):
            raise RuntimeError('run go() first')

        return self._result
""", """        if hasattr(self, '_result'):
            return self._result

        raise RuntimeError('run go() first')
""")]),
    ('m6-go-unusable', [(MD, """        mfrac = self._get_mfrac(self.mbobs)
        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True

        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if (not np.any(mfrac < 1)) or any_all_zero_weight or any_all_masked:
            self._result = None
            return
""", """        # if the there are no pixels with mfrac < 1 or it is all zero weight
        # or it is all masked, we cannot measure anything so set result to None
        if not self._measurable():
            self._result = None
            return
"""), (MD, """    def _go_bands(self, shear_bands, mcal_res, det_bands):
""", """    def _measurable(self):
        mfrac = self._get_mfrac(self.mbobs)
        if np.all(mfrac >= 1):
            return False
        for obslist in self.mbobs:
            for obs in obslist:
                if not np.any(obs.weight != 0):
                    return False
                if not np.any((obs.bmask & self['nodet_flags']) == 0):
                    return False
        return True

    def _go_bands(self, shear_bands, mcal_res, det_bands):
""")]),
    ('m6-go-any-gen', [(MD, """        any_all_zero_weight = False
        any_all_masked = False
        for obsl in self.mbobs:
            for obs in obsl:
                if np.all(obs.weight == 0):
                    any_all_zero_weight = True

                if np.all((obs.bmask & self['nodet_flags']) != 0):
                    any_all_masked = True
""", """        nodet_flags = self['nodet_flags']
        all_obs = [obs for obsl in self.mbobs for obs in obsl]
        any_all_zero_weight = any(np.all(obs.weight == 0) for obs in all_obs)
        any_all_masked = any(
            np.all((obs.bmask & nodet_flags) != 0) for obs in all_obs
        )
""")]),
    ('m6-go-setdefault', [(MD, """                for k, v in res.items():
                    if v is None:
                        continue
                    if k not in all_res:
                        all_res[k] = []
                    all_res[k].append(v)

        for k in all_res:
            all_res[k] = np.hstack(all_res[k])
""", """                for k, v in res.items():
                    if v is not None:
                        all_res.setdefault(k, []).append(v)

        all_res = {k: np.hstack(v) for k, v in all_res.items()}
""")]),
    ('m6-go-types', [(MD, """        for mcal_type in self['metacal'].get(
            "types", ngmix.metacal.METACAL_MINIMAL_TYPES
        ):
            if mcal_type not in all_res:
                # this can happen if we do not detect sources for one of the
                # metacal images
                all_res[mcal_type] = None
""", """        mcal_types = self['metacal'].get(
            "types", ngmix.metacal.METACAL_MINIMAL_TYPES
        )
        for mcal_type in mcal_types:
            # this can happen if we do not detect sources for one of the
            # metacal images
            all_res.setdefault(mcal_type, None)
""")]),
    ('m6-go-runner', [(MD, """        all_res = {}
        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            if self.color_key_func is not None and self.color_dep_mbobs is not None:
                res = self._go_bands_with_color(shear_bands, mcal_res, det_bands)
            else:
                res = self._go_bands(shear_bands, mcal_res, det_bands)
            if res is not None:
                for k, v in res.items():
                    if v is None:
                        continue
                    if k not in all_res:
                        all_res[k] = []
                    all_res[k].append(v)
""", """        if self.color_key_func is None or self.color_dep_mbobs is None:
            runner = self._go_bands
        else:
            runner = self._go_bands_with_color

        all_res = {}
        for shear_bands, det_bands in zip(
            self._shear_band_combs, self._det_band_combs
        ):
            res = runner(shear_bands, mcal_res, det_bands)
            if res is None:
                continue
            for k in res:
                if res[k] is None:
                    continue
                if k in all_res:
                    all_res[k].append(res[k])
                else:
                    all_res[k] = [res[k]]
""")]),
    ('m6-bands-dictcomp', [(MD, """        _result = {}
        for shear_str, shear_mbobs in mcal_res.items():
            cat, mbobs_list = self._do_detect(
                shear_mbobs,
                det_bands,
            )
            _result[shear_str] = self._measure(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                det_bands=det_bands,
                cat=cat,
                shear_str=shear_str,
                mfrac=kdata["mfrac"],
                bmask=kdata["bmask"],
                ormask=kdata["ormask"],
                psf_stats=kdata["psf_stats"],
            )

        return _result
""", """        return {
            shear_str: self._go_shear(
                shear_str, shear_mbobs, shear_bands, det_bands, kdata)
            for shear_str, shear_mbobs in mcal_res.items()
        }

    def _go_shear(self, shear_str, shear_mbobs, shear_bands, det_bands, kdata):
        cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
        return self._measure(
            mbobs_list=mbobs_list,
            shear_bands=shear_bands,
            det_bands=det_bands,
            cat=cat,
            shear_str=shear_str,
            **{k: kdata[k] for k in ("mfrac", "bmask", "ormask", "psf_stats")},
        )
""")]),
    ('m6-color-keys', [(MD, """            n = Namer(self._fitters[0].kind)
            col = n("band_flux")
            color_keys = [
                self.color_key_func(nocolor_data[col][i])
                for i in range(nocolor_data.shape[0])
            ]

            # now we remeasure the object at that mbobs
            color_data = []
            for i, color_key in enumerate(color_keys):
                kdata""", """            n = Namer(self._fitters[0].kind)
            fluxes = nocolor_data[n("band_flux")]
            color_keys = []
            for i in range(nocolor_data.shape[0]):
                color_keys.append(self.color_key_func(fluxes[i]))

            # now we remeasure the object at that mbobs
            color_data = []
            for i, color_key in enumerate(color_keys):
                kdata""")]),
    ('m6-color-medsifier', [(MD, """                _medsifier = detect.CatalogMEDSifier(
                    kdata["mcal_res"][shear_str],
                    cat['x'][i:i+1],
                    cat['y'][i:i+1],
                    cat['box_size'][i:i+1],
                )
                mbm = _medsifier.get_multiband_meds()
                mbobs_list = mbm.get_mbobs_list(
                    weight_type=self["meds"].get("weight_type", "weight"),
                )

                _data = self._measure(
                    mbobs_list=mbobs_list,
                    shear_bands=shear_bands,
                    det_bands=det_bands,
                    cat=cat[i:i+1],
""", """                _cat = cat[i:i+1]
                _medsifier = detect.CatalogMEDSifier(
                    kdata["mcal_res"][shear_str],
                    _cat['x'],
                    _cat['y'],
                    _cat['box_size'],
                )
                mbm = _medsifier.get_multiband_meds()
                mbobs_list = mbm.get_mbobs_list(
                    weight_type=self["meds"].get("weight_type", "weight"),
                )

                _data = self._measure(
                    mbobs_list=mbobs_list,
                    shear_bands=shear_bands,
                    det_bands=det_bands,
                    cat=_cat,
""")]),
    ('m6-color-check-first', [(MD, """        _result = {}
        for shear_str, shear_mbobs in mcal_res.items():
            if not self._fitter_is_wavg[0]:
                raise RuntimeError(
                    "Color-dependent metadetect can only run if first"
                    " fitter is one of wmom, pgauss, or ksigma!"
                )

""", """        if len(mcal_res) > 0 and not self._fitter_is_wavg[0]:
            raise RuntimeError(
                "Color-dependent metadetect can only run if first"
                " fitter is one of wmom, pgauss, or ksigma!"
            )

        _result = {}
        for shear_str, shear_mbobs in mcal_res.items():
""")]),
    ('m6-color-stack', [(MD, """            if len(color_data) > 0:
                _result[shear_str] = np.hstack(color_data)
            else:
                _result[shear_str] = None

        return _result
""", """            _result[shear_str] = np.hstack(color_data) if color_data else None

        return _result
""")]),
    ('m6-cache-local', [(MD, """        sbkey = tuple(sorted(shear_bands))
        if sbkey not in self._mbobs_data_cache[key]:
            logger.info("shear_bands key %s not in mbobs data cache", sbkey)
            self._mbobs_data_cache[key][sbkey] = {}
            self._mbobs_data_cache[key][sbkey].update(
                self._mcalpsf_data_cache[key]
            )

""", """        cache = self._mbobs_data_cache[key]
        sbkey = tuple(sorted(shear_bands))
        if sbkey not in cache:
            logger.info("shear_bands key %s not in mbobs data cache", sbkey)
            data = dict(self._mcalpsf_data_cache[key])

"""), (MD, """            mfrac = self._get_mfrac(_mbobs)
            ormask, bmask = self._get_ormask_and_bmask(_mbobs)
            psf_stats = _get_psf_stats(
                _mbobs,
                self._mbobs_data_cache[key][sbkey]["psf_fit_flags"],
            )
            self._mbobs_data_cache[key][sbkey]["mfrac"] = mfrac
            self._mbobs_data_cache[key][sbkey]["bmask"] = bmask
            self._mbobs_data_cache[key][sbkey]["ormask"] = ormask
            self._mbobs_data_cache[key][sbkey]["psf_stats"] = psf_stats

        return self._mbobs_data_cache[key][sbkey]
""", """            data["mfrac"] = self._get_mfrac(_mbobs)
            data["ormask"], data["bmask"] = self._get_ormask_and_bmask(_mbobs)
            data["psf_stats"] = _get_psf_stats(_mbobs, data["psf_fit_flags"])
            cache[sbkey] = data

        return cache[sbkey]
""")]),
    ('m6-cache-early', [(MD, """            self._mbobs_data_cache[key][sbkey]["mfrac"] = mfrac
            self._mbobs_data_cache[key][sbkey]["bmask"] = bmask
            self._mbobs_data_cache[key][sbkey]["ormask"] = ormask
            self._mbobs_data_cache[key][sbkey]["psf_stats"] = psf_stats
""", """            self._mbobs_data_cache[key][sbkey].update(
                mfrac=mfrac,
                bmask=bmask,
                ormask=ormask,
                psf_stats=psf_stats,
            )
""")]),
    ('m6-cache-in-init', [(MD, """        self.mbobs = mbobs
        self.nband = len(mbobs)
        self.rng = rng
""", """        self.mbobs = mbobs
        self.nband = len(mbobs)
        self.rng = rng
        self._mbobs_data_cache = {}
        self._mcalpsf_data_cache = {}
"""), (MD, """        if not hasattr(self, "_mbobs_data_cache"):
            logger.info("set mbobs data caches")
            self._mbobs_data_cache = {}
            self._mcalpsf_data_cache = {}

""", "")]),
    ('m6-psf-flags-helper', [(MD, """            t0 = time.time()
            try:
                fitting.fit_all_psfs(mbobs, self.rng)
                _psf_fit_flags = 0
            except BootPSFFailure:
                _psf_fit_flags = procflags.PSF_FAILURE
            self._mcalpsf_data_cache[key]["psf_fit_flags"] = _psf_fit_flags
            logger.info("PSF fits took %s seconds", time.time() - t0)

            mcal_res = self._get_all_metacal(mbobs)
            self._mcalpsf_data_cache[key]["mcal_res"] = mcal_res
""", """            psf_fit_flags = self._fit_psfs(mbobs)
            mcal_res = self._get_all_metacal(mbobs)
            self._mcalpsf_data_cache[key] = {
                "psf_fit_flags": psf_fit_flags,
                "mcal_res": mcal_res,
            }
"""), (MD, """            self._mbobs_data_cache[key] = {}
            self._mcalpsf_data_cache[key] = {}

""", """            self._mbobs_data_cache[key] = {}

"""), (MD, """    def _get_mbobs_data(self, key, shear_bands):
""", """    def _fit_psfs(self, mbobs):
        t0 = time.time()
        flags = 0
        try:
            fitting.fit_all_psfs(mbobs, self.rng)
        except BootPSFFailure:
            flags = procflags.PSF_FAILURE
        logger.info("PSF fits took %s seconds", time.time() - t0)
        return flags

    def _get_mbobs_data(self, key, shear_bands):
""")]),
    ('m6-measure-kwargs', [(MD, """            if is_wavg:
                res = fit_mbobs_list_wavg(
                    mbobs_list=mbobs_list,
                    fitter=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    fwhm_reg=fwhm_reg,
                    symmetrize=symm,
                )
            else:
                res = fit_mbobs_list_joint(
                    mbobs_list=mbobs_list,
                    fitter_name=fitter,
                    shear_bands=shear_bands,
                    bmask_flags=self.get("bmask_flags", 0),
                    rng=self.rng,
                    symmetrize=symm,
                    coadd=coadd,
                )
""", """            common = dict(
                mbobs_list=mbobs_list,
                shear_bands=shear_bands,
                bmask_flags=self.get("bmask_flags", 0),
                symmetrize=symm,
            )
            if is_wavg:
                res = fit_mbobs_list_wavg(
                    fitter=fitter, fwhm_reg=fwhm_reg, **common)
            else:
                res = fit_mbobs_list_joint(
                    fitter_name=fitter, rng=self.rng, coadd=coadd, **common)
""")]),
    ('m6-measure-index', [(MD, """        for fitter, fwhm_reg, is_wavg, symm, coadd in zip(
            self._fitters, self._fwhm_regs,
            self._fitter_is_wavg, self._fitter_symmetrize,
            self._fitter_coadd,
        ):
            ft0 = time.time()
""", """        for i, fitter in enumerate(self._fitters):
            fwhm_reg = self._fwhm_regs[i]
            is_wavg = self._fitter_is_wavg[i]
            symm = self._fitter_symmetrize[i]
            coadd = self._fitter_coadd[i]
            ft0 = time.time()
""")]),
    ('m6-measure-early', [(MD, """        res = combine_fit_res(all_res)

        if res is not None:
            res = self._add_positions_and_psf(
                cat=cat,
                res=res,
                shear_str=shear_str,
                mfrac=mfrac,
                bmask=bmask,
                ormask=ormask,
                psf_stats=psf_stats,
                det_bands=det_bands,
            )
        logger.info("src measurements took %s seconds", time.time() - t0)

        return res
""", """        combined = combine_fit_res(all_res)
        if combined is None:
            logger.info("src measurements took %s seconds", time.time() - t0)
            return None

        final = self._add_positions_and_psf(
            cat=cat,
            res=combined,
            shear_str=shear_str,
            mfrac=mfrac,
            bmask=bmask,
            ormask=ormask,
            psf_stats=psf_stats,
            det_bands=det_bands,
        )
        logger.info("src measurements took %s seconds", time.time() - t0)
        return final
""")]),
    ('m6-pos-regions', [(MD, """            if 'ormask_region' in self and self['ormask_region'] > 1:
                ormask_region = self['ormask_region']
            elif 'mask_region' in self and self['mask_region'] > 1:
                ormask_region = self['mask_region']
            else:
                ormask_region = 1

            if 'mask_region' in self and self['mask_region'] > 1:
                bmask_region = self['mask_region']
            else:
                bmask_region = 1
""", """            bmask_region = 1
            if 'mask_region' in self and self['mask_region'] > 1:
                bmask_region = self['mask_region']

            ormask_region = bmask_region
            if 'ormask_region' in self and self['ormask_region'] > 1:
                ormask_region = self['ormask_region']
""")]),
    ('m6-pos-regions-max', [(MD, """            if 'mask_region' in self and self['mask_region'] > 1:
                bmask_region = self['mask_region']
            else:
                bmask_region = 1
""", """            bmask_region = max(self.get('mask_region', 1), 1)
""")]),
    ('m6-pos-mask-loop', [(MD, """            newres["ormask"] = _fill_in_mask_col(
                mask_region=ormask_region,
                rows=newres['sx_row'],
                cols=newres['sx_col'],
                mask=ormask,
            )
            newres["ormask_noshear"] = _fill_in_mask_col(
                mask_region=ormask_region,
                rows=newres['sx_row_noshear'],
                cols=newres['sx_col_noshear'],
                mask=ormask,
            )

            newres["bmask"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row'],
                cols=newres['sx_col'],
                mask=bmask,
            )
            newres["bmask_noshear"] = _fill_in_mask_col(
                mask_region=bmask_region,
                rows=newres['sx_row_noshear'],
                cols=newres['sx_col_noshear'],
                mask=bmask,
            )
""", """            for end in ("", "_noshear"):
                rows, cols = newres['sx_row' + end], newres['sx_col' + end]
                newres["ormask" + end] = _fill_in_mask_col(
                    mask_region=ormask_region, rows=rows, cols=cols, mask=ormask,
                )
                newres["bmask" + end] = _fill_in_mask_col(
                    mask_region=bmask_region, rows=rows, cols=cols, mask=bmask,
                )
""")]),
    ('m6-pos-early-return', [(MD, """        if cat.size > 0:
            obs = self.mbobs[0][0]

            newres['sx_col'] = cat['x']
            newres['sx_row'] = cat['y']

            rows_noshear""", """        if cat.size == 0:
            return newres

        if True:
            obs = self.mbobs[0][0]

            newres['sx_row'] = cat['y']
            newres['sx_col'] = cat['x']

            rows_noshear""")]),
    ('m6-pos-newdt', [(MD, """        if 'psfrec_flags' not in res.dtype.names:
            new_dt += [
                ('psfrec_flags', 'i4'),  # psfrec is the original psf
                ('psfrec_g', 'f8', 2),
                ('psfrec_T', 'f8'),
            ]
        newres = eu""", """        has_psfrec = 'psfrec_flags' in res.dtype.names
        if not has_psfrec:
            new_dt.extend([
                ('psfrec_flags', 'i4'),  # psfrec is the original psf
                ('psfrec_g', 'f8', 2),
                ('psfrec_T', 'f8'),
            ])
        newres = eu"""), (MD, """        if 'psfrec_flags' not in res.dtype.names:
            newres['psfrec_flags'] = procflags.NO_ATTEMPT

        newres""", """        if not has_psfrec:
            newres['psfrec_flags'] = procflags.NO_ATTEMPT

        newres""")]),
    ('m6-pos-mfrac-fwhm', [(MD, """            if np.any(mfrac > 0):
                newres["mfrac"] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col"],
                    y=newres["sx_row"],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=self.get("mfrac_fwhm", self._fwhms[0]),
                )

                newres["mfrac_noshear"] = measure_mfrac(
                    mfrac=mfrac,
                    x=newres["sx_col_noshear"],
                    y=newres["sx_row_noshear"],
                    box_sizes=cat["box_size"],
                    obs=obs,
                    fwhm=self.get("mfrac_fwhm", self._fwhms[0]),
                )
            else:
                newres["mfrac"] = 0
                newres["mfrac_noshear"] = 0
""", """            if not np.any(mfrac > 0):
                newres["mfrac"] = 0
                newres["mfrac_noshear"] = 0
            else:
                fwhm = self.get("mfrac_fwhm", self._fwhms[0])

                def _measure_at(x, y):
                    return measure_mfrac(
                        mfrac=mfrac, x=x, y=y, box_sizes=cat["box_size"],
                        obs=obs, fwhm=fwhm,
                    )

                newres["mfrac"] = _measure_at(newres["sx_col"], newres["sx_row"])
                newres["mfrac_noshear"] = _measure_at(
                    newres["sx_col_noshear"], newres["sx_row_noshear"])
""")]),
    ('m6-detbands-join', [(MD, """        newres["det_bands"] = "".join("%s" % b for b in sorted(det_bands))
""", """        newres["det_bands"] = "".join(str(b) for b in sorted(det_bands))
""")]),
    ('m6-psfstats-early', [(MD, """    if global_flags != 0:
        flags = procflags.PSF_FAILURE | global_flags
        g1 = np.nan
        g2 = np.nan
        T = np.nan
    else:
        try:
            g1sum = 0.0
            g2sum = 0.0
            Tsum = 0.0
            wsum = 0.0

            for obslist in mbobs:
                for obs in obslist:
                    wt = obs.weight.max()
                    res = obs.psf.meta['result']
                    T = res['T']
                    if 'e' in res:
                        g1, g2 = res['e']
                    else:
                        g1, g2 = res['g']

                    g1sum += g1*wt
                    g2sum += g2*wt
                    Tsum += T*wt
                    wsum += wt

            if wsum <= 0.0:
                raise BootPSFFailure(
                    'zero weights, could not get mean psf properties'
                )
            g1 = g1sum/wsum
            g2 = g2sum/wsum
            T = Tsum/wsum

            flags = 0

        except BootPSFFailure:
            flags = procflags.PSF_FAILURE
            g1 = np.nan
            g2 = np.nan
            T = np.nan

    return {
        'flags': flags,
        'g1': g1,
        'g2': g2,
        'T': T,
    }
""", """    failed = {'g1': np.nan, 'g2': np.nan, 'T': np.nan}
    if global_flags != 0:
        return dict(failed, flags=procflags.PSF_FAILURE | global_flags)

    g1sum = 0.0
    g2sum = 0.0
    Tsum = 0.0
    wsum = 0.0

    try:
        for obslist in mbobs:
            for obs in obslist:
                wt = obs.weight.max()
                res = obs.psf.meta['result']
                g1, g2 = res['e'] if 'e' in res else res['g']

                g1sum += g1*wt
                g2sum += g2*wt
                Tsum += res['T']*wt
                wsum += wt
    except BootPSFFailure:
        return dict(failed, flags=procflags.PSF_FAILURE)

    if wsum <= 0.0:
        return dict(failed, flags=procflags.PSF_FAILURE)

    return {
        'flags': 0,
        'g1': g1sum/wsum,
        'g2': g2sum/wsum,
        'T': Tsum/wsum,
    }
""")]),
    ('m6-clip-chain', [(MD, """    vals = vals_in.copy()

    np.rint(vals, out=vals)
    vals.clip(min=0, max=dim-1, out=vals)

    return vals.astype('i4')
""", """    return np.clip(np.rint(vals_in), 0, dim - 1).astype('i4')
""")]),
    ('m6-fillmask-bounds', [(MD, """        for ind in range(rows.size):
            lr = int(min(
                dims[0]-1,
                max(0, rclip[ind] - mask_region)))
            ur = int(min(
                dims[0]-1,
                max(0, rclip[ind] + mask_region)))

            lc = int(min(
                dims[1]-1,
                max(0, cclip[ind] - mask_region)))
            uc = int(min(
                dims[1]-1,
                max(0, cclip[ind] + mask_region)))

            res[ind]""", """        def _edges(center, dim):
            low = int(min(dim - 1, max(0, center - mask_region)))
            high = int(min(dim - 1, max(0, center + mask_region)))
            return low, high

        for ind in range(rows.size):
            lr, ur = _edges(rclip[ind], dims[0])
            lc, uc = _edges(cclip[ind], dims[1])

            res[ind]""")]),
    ('m6-fillmask-early', [(MD, """    if mask_region > 1:
        res = np.zeros_like(rows, dtype=np.int32)
        for ind""", """    if mask_region <= 1:
        return mask[rclip, cclip].astype(np.int32)

    if mask_region > 1:
        res = np.zeros_like(rows, dtype=np.int32)
        for ind""")]),
    ('m6-fillmask-zip', [(MD, """        for ind in range(rows.size):
            lr = int(min(
                dims[0]-1,
                max(0, rclip[ind] - mask_region)))
            ur = int(min(
                dims[0]-1,
                max(0, rclip[ind] + mask_region)))

            lc = int(min(
                dims[1]-1,
                max(0, cclip[ind] - mask_region)))
            uc = int(min(
                dims[1]-1,
                max(0, cclip[ind] + mask_region)))

            res[ind] = np""", """        for ind, (row, col) in enumerate(zip(rclip, cclip)):
            lr = int(min(dims[0]-1, max(0, row - mask_region)))
            ur = int(min(dims[0]-1, max(0, row + mask_region)))
            lc = int(min(dims[1]-1, max(0, col - mask_region)))
            uc = int(min(dims[1]-1, max(0, col + mask_region)))

            res[ind] = np""")]),
    ('m6-detect-weighttype', [(MD, """        mbm = all_medsifier.get_multiband_meds()
        mbobs_list = mbm.get_mbobs_list(
            weight_type=self["meds"].get("weight_type", "weight"),
        )
        logger.info("detect took""", """        mbobs_list = self._stamps(all_medsifier)
        logger.info("detect took"""), (MD, """                mbm = _medsifier.get_multiband_meds()
                mbobs_list = mbm.get_mbobs_list(
                    weight_type=self["meds"].get("weight_type", "weight"),
                )
""", """                mbobs_list = self._stamps(_medsifier)
"""), (MD, """    def _do_detect(self, mbobs, det_bands):
""", """    def _stamps(self, medsifier):
        weight_type = self["meds"].get("weight_type", "weight")
        return medsifier.get_multiband_meds().get_mbobs_list(
            weight_type=weight_type,
        )

    def _do_detect(self, mbobs, det_bands):
""")]),
    ('m6-detect-mbobs', [(MD, """        det_mbobs = ngmix.MultiBandObsList()
        for band in det_bands:
            det_mbobs.append(mbobs[band])

        medsifier""", """        det_mbobs = self._select_bands(mbobs, det_bands)

        medsifier"""), (MD, """            _mbobs = ngmix.MultiBandObsList()
            for band in shear_bands:
                _mbobs.append(mbobs[band])
            mfrac""", """            _mbobs = self._select_bands(mbobs, shear_bands)
            mfrac"""), (MD, """    def _do_detect(self, mbobs, det_bands):
""", """    def _select_bands(self, mbobs, bands):
        selected = ngmix.MultiBandObsList()
        for band in bands:
            selected.append(mbobs[band])
        return selected

    def _do_detect(self, mbobs, det_bands):
""")]),
    ('m6-metacal-noreturn', [(MD, """        try:
            odict = ngmix.metacal.get_all_metacal(
                mbobs,
                rng=self.rng,
                **self['metacal']
            )
        except BootPSFFailure:
            odict = None
""", """        odict = None
        try:
            odict = ngmix.metacal.get_all_metacal(
                mbobs, rng=self.rng, **self['metacal'])
        except BootPSFFailure:
            pass
""")]),
]
