"""Restructurings of the largest functions, as a reviewer would ask for."""
FT = 'metadetect/fitting.py'
UT = 'metadetect/lsst/util.py'
MK = 'metadetect/masking.py'
SP = 'metadetect/shearpos.py'
MS = 'metadetect/lsst/model_subtractor.py'
LM = 'metadetect/lsst/metadetect.py'
MD = 'metadetect/metadetect.py'
DT = 'metadetect/detect.py'

REFS = [
    ('a14-wavg-records', [(FT, """    all_res = []
    all_psf_res = []
    all_is_shear_band = []
    all_wgts = []
    all_flags = []

    if shear_bands is None:
        shear_bands = list(range(nband))

    if fitter.kind == 'am':
        assert len(mbobs) == 1, 'Use only one band for adaptive moments'

    for band in range(nband):
        all_is_shear_band.append(True if band in shear_bands else False)
        fres = _fit_obslist(
            obslist=mbobs[band],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        all_wgts.append(fres["wgt"])
        all_res.append(fres["obj_res"])
        all_psf_res.append(fres["psf_res"])
        all_flags.append(fres["flags"])

    return _combine_fit_results_wavg(
        all_res=all_res,
        all_psf_res=all_psf_res,
        all_is_shear_band=all_is_shear_band,
        all_wgts=all_wgts,
        model=fitter.kind,
        all_flags=all_flags,
        shear_bands=shear_bands,
""", """    if fitter.kind == 'am':
        assert nband == 1, 'Use only one band for adaptive moments'

    if shear_bands is None:
        shear_bands = list(range(nband))

    fits = [
        _fit_obslist(
            obslist=obslist,
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        for obslist in mbobs
    ]

    def _column(name):
        return [fit[name] for fit in fits]

    return _combine_fit_results_wavg(
        all_res=_column("obj_res"),
        all_psf_res=_column("psf_res"),
        all_is_shear_band=[band in shear_bands for band in range(nband)],
        all_wgts=_column("wgt"),
        model=fitter.kind,
        all_flags=_column("flags"),
        shear_bands=shear_bands,
""")]),
    ('b14-flux-helper', [(FT, """        band_flux = []
        band_flux_err = []
        flux_flags = []
        for gres, flags in zip(all_res, all_flags):
            # the input flags mark very basic failures and are ORed across all bands
            # these are things like missing and or all zero-weight data, edges, etc.
            _flux_flags = 0
            _flux_flags |= flags

            # an object fit missing in any band is bad too
            if gres is None:
                _flux_flags |= procflags.MISSING_BAND
                band_flux.append(np.nan)
                band_flux_err.append(np.nan)
            elif (
                "flux" not in gres
                or "flux_err" not in gres
                or "flux_flags" not in gres
            ):
                _flux_flags |= procflags.NOMOMENTS_FAILURE
                band_flux.append(np.nan)
                band_flux_err.append(np.nan)
            else:
                _flux_flags |= gres["flux_flags"]
                band_flux.append(gres['flux'])
                band_flux_err.append(gres['flux_err'])
            flux_flags.append(_flux_flags)
""", """        flux_data = [
            _get_band_flux(gres, flags) for gres, flags in zip(all_res, all_flags)
        ]
        band_flux = [fd[0] for fd in flux_data]
        band_flux_err = [fd[1] for fd in flux_data]
        flux_flags = [fd[2] for fd in flux_data]
"""), (FT, """def _combine_fit_results_wavg(
""", """def _get_band_flux(gres, flags):
    \"\"\"flux, error and flags of one band\"\"\"
    # an object fit missing in any band is bad too
    if gres is None:
        return np.nan, np.nan, flags | procflags.MISSING_BAND

    if not all(name in gres for name in ("flux", "flux_err", "flux_flags")):
        return np.nan, np.nan, flags | procflags.NOMOMENTS_FAILURE

    return gres["flux"], gres["flux_err"], flags | gres["flux_flags"]


def _combine_fit_results_wavg(
""")]),
    ('b14-moms-helper', [(FT, """        psf_raw_mom = psf_sum_data["raw_mom"] / psf_sum_data["wgt_sum"]
        psf_raw_mom_cov = psf_sum_data["raw_mom_cov"] / (psf_sum_data["wgt_sum"]**2)
        psf_raw_flux = psf_sum_data["flux"] / psf_sum_data["wgt_sum"]
        psf_raw_flux_var = psf_sum_data["flux_var"] / (psf_sum_data["wgt_sum"]**2)

        psf_momres = _make_mom_res(
            raw_mom=psf_raw_mom,
            raw_mom_cov=psf_raw_mom_cov,
            raw_flux=psf_raw_flux,
            raw_flux_var=psf_raw_flux_var,
            fwhm_reg=0,
        )
""", """        psf_momres = _mom_res_of_sums(psf_sum_data, fwhm_reg=0)
"""), (FT, """        raw_mom = sum_data["raw_mom"] / sum_data["wgt_sum"]
        raw_mom_cov = sum_data["raw_mom_cov"] / (sum_data["wgt_sum"]**2)
        raw_flux = sum_data["flux"] / sum_data["wgt_sum"]
        raw_flux_var = sum_data["flux_var"] / (sum_data["wgt_sum"]**2)

        momres = _make_mom_res(
            raw_mom=raw_mom,
            raw_mom_cov=raw_mom_cov,
            raw_flux=raw_flux,
            raw_flux_var=raw_flux_var,
            fwhm_reg=fwhm_reg,
        )
""", """        momres = _mom_res_of_sums(sum_data, fwhm_reg=fwhm_reg)
"""), (FT, """def _combine_fit_results_wavg(
""", """def _mom_res_of_sums(sums, fwhm_reg):
    wgt_sum = sums["wgt_sum"]
    wgt_sum2 = wgt_sum**2
    return _make_mom_res(
        raw_mom=sums["raw_mom"] / wgt_sum,
        raw_mom_cov=sums["raw_mom_cov"] / wgt_sum2,
        raw_flux=sums["flux"] / wgt_sum,
        raw_flux_var=sums["flux_var"] / wgt_sum2,
        fwhm_reg=fwhm_reg,
    )


def _combine_fit_results_wavg(
""")]),
    ('b14-bad-flag', [(FT, """        if nband == 0 or tot_nband == 0:
            psf_flags = procflags.MISSING_BAND
            mdet_flags = procflags.MISSING_BAND
            flux_flags = [procflags.MISSING_BAND] * tot_nband
        else:
            psf_flags = procflags.INCONSISTENT_BANDS
            mdet_flags = procflags.INCONSISTENT_BANDS
            flux_flags = [procflags.INCONSISTENT_BANDS] * tot_nband
""", """        bad_flag = (
            procflags.MISSING_BAND
            if tot_nband == 0 or nband == 0
            else procflags.INCONSISTENT_BANDS
        )
        psf_flags = mdet_flags = bad_flag
        flux_flags = [bad_flag for _ in range(tot_nband)]
""")]),
    ('b14-counts', [(FT, """    nband = (
        sum(1 if issb else 0 for issb in all_is_shear_band)
        if all_is_shear_band
        else 0
    )
    nonshear_nband = (
        sum(0 if issb else 1 for issb in all_is_shear_band)
        if all_is_shear_band
        else 0
    )
    blens = [
        len(all_res), len(all_psf_res), len(all_is_shear_band),
        len(all_wgts), len(all_flags)
    ]
""", """    nband = sum(1 for issb in all_is_shear_band if issb)
    nonshear_nband = len(all_is_shear_band) - nband
    blens = [
        len(x)
        for x in (all_res, all_psf_res, all_is_shear_band, all_wgts, all_flags)
    ]
""")]),
    ('b14-or-flags', [(FT, """    data[n('psf_flags')] = psf_flags
    data[n('obj_flags')] = mdet_flags
    all_flags = mdet_flags
    for f in flux_flags:
        all_flags |= f
    data[n('flags')] = all_flags

    if data[n('flags')] != 0:
        logger.debug(
            "fitter failed: flags = %s",
            procflags.get_procflags_str(data[n("flags")])
        )
""", """    final_flags = mdet_flags
    for band_flags in flux_flags:
        final_flags = final_flags | band_flags

    for name, value in (
        ('psf_flags', psf_flags),
        ('obj_flags', mdet_flags),
        ('flags', final_flags),
    ):
        data[n(name)] = value

    if final_flags != 0:
        logger.debug(
            "fitter failed: flags = %s",
            procflags.get_procflags_str(data[n("flags")])
        )
""")]),
    ('c14-admom-inputs-helper', [(FT, """    flags = 0
    for obslist in mbobs:
        if len(obslist) == 0:
            flags |= procflags.MISSING_BAND
            continue

        if len(obslist) > 1:
            flags |= procflags.INCONSISTENT_BANDS
            continue

        for obs in obslist:
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT

    if flags == 0:
        # first we coadd the shear bands
        coadd_obs, coadd_flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
""", """    flags = _get_admom_input_flags(mbobs, bmask_flags)

    if flags == 0:
        # first we coadd the shear bands
        coadd_obs, coadd_flags = make_coadd_obs(mbobs, shear_bands=shear_bands)
"""), (FT, """def fit_mbobs_admom(
""", """def _get_admom_input_flags(mbobs, bmask_flags):
    flags = 0
    for obslist in mbobs:
        nobs = len(obslist)
        if nobs == 0:
            flags |= procflags.MISSING_BAND
        elif nobs > 1:
            flags |= procflags.INCONSISTENT_BANDS
        else:
            obs = obslist[0]
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS
            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT
    return flags


def fit_mbobs_admom(
""")]),
    ('c14-admom-try-else', [(FT, """        if symmetrize:
            sym_coadd_obs = symmetrize_obs_weights(coadd_obs)
        else:
            sym_coadd_obs = coadd_obs
        try:
            gres = runner.go(sym_coadd_obs)
        except Exception:
            flags |= procflags.OBJ_FAILURE
            # replace no attempt
            res["am_flags"] = flags
        else:
            res["am_T_flags"] = gres["T_flags"]
            if gres["T_flags"] == 0:
                res["am_T"] = gres["T"]
                res["am_T_err"] = gres["T_err"]
                if pres["flags"] == 0:
                    res["am_T_ratio"] = res["am_T"] / res["am_psf_T"]
""", """        fit_obs = symmetrize_obs_weights(coadd_obs) if symmetrize else coadd_obs
        try:
            gres = runner.go(fit_obs)
        except Exception:
            # replace no attempt
            res["am_flags"] = flags | procflags.OBJ_FAILURE
        else:
            T_flags = gres["T_flags"]
            res["am_T_flags"] = T_flags
            if T_flags == 0:
                for name in ("T", "T_err"):
                    res["am_" + name] = gres[name]
            if T_flags == 0 and pres["flags"] == 0:
                res["am_T_ratio"] = res["am_T"] / res["am_psf_T"]
""")]),
    ('d14-combine-descr', [(FT, """            if len(dt) == 0:
                dt.extend(_res.dtype.descr)
            else:
                for descr in _res.dtype.descr:
                    if descr[0] not in dupe_cols:
                        dt.append(descr)
        else:
""", """            first = len(dt) == 0
            dt += [
                descr for descr in _res.dtype.descr
                if first or descr[0] not in dupe_cols
            ]
        else:
""")]),
    ('d14-combine-columns', [(FT, """            for col in _res.dtype.names:
                if col in dupe_cols:
                    if i > 0:
                        if not np.array_equal(res[col], _res[col]):
                            raise RuntimeError(
                                "Inconsistent column values "
                                "for %s when combining results!" % col
                            )
                    else:
                        res[col] = _res[col]
                else:
                    res[col] = _res[col]

        return res
    else:
        if any(_res is not None for _res in all_res):
            return np.zeros(0, dtype=dt)
        else:
            return None
""", """            for col in _res.dtype.names:
                if i == 0 or col not in dupe_cols:
                    res[col] = _res[col]
                elif not np.array_equal(res[col], _res[col]):
                    raise RuntimeError(
                        "Inconsistent column values "
                        "for %s when combining results!" % col
                    )
        return res

    if all(_res is None for _res in all_res):
        return None

    return np.zeros(0, dtype=dt)
""")]),
    ('e14-list-wavg-comp', [(FT, """    res = []
    for i, mbobs in enumerate(mbobs_list):

        _res = fit_mbobs_wavg(
            mbobs=mbobs,
            fitter=fitter,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            fwhm_reg=fwhm_reg,
            symmetrize=symmetrize,
        )
        res.append(_res)

    if len(res) > 0:
        return np.hstack(res)
    else:
        return None
""", """    kw = dict(
        fitter=fitter,
        bmask_flags=bmask_flags,
        shear_bands=shear_bands,
        fwhm_reg=fwhm_reg,
        symmetrize=symmetrize,
    )
    rows = [fit_mbobs_wavg(mbobs=mbobs, **kw) for mbobs in mbobs_list]
    return np.hstack(rows) if rows else None
""")]),
    ('f14-outstruct-loop', [(FT, """    n = Namer(front=model)
    data[n('flags')] = procflags.NO_ATTEMPT
    data[n('psf_flags')] = procflags.NO_ATTEMPT
    data[n("obj_flags")] = procflags.NO_ATTEMPT
    data[n("T_flags")] = procflags.NO_ATTEMPT
    data[n("band_flux_flags")] = procflags.NO_ATTEMPT

    for name in data.dtype.names:
        if "flags" not in name:
            # all are float except flags
            data[name] = np.nan

    if shear_bands is not None:
""", """    for name in data.dtype.names:
        if "flags" not in name:
            # all are float except flags
            data[name] = np.nan

    n = Namer(front=model)
    for name in ('flags', 'psf_flags', 'obj_flags', 'T_flags', 'band_flux_flags'):
        data[n(name)] = procflags.NO_ATTEMPT

    if shear_bands is not None:
""")]),
    ('g14-fitobs-early', [(FT, """    res = {}
    flags = 0

    if symmetrize:
        obs = symmetrize_obs_weights(obs)

    if not np.any(obs.weight > 0):
        flags |= procflags.ZERO_WEIGHTS

    if np.any((obs.bmask & bmask_flags) != 0):
        flags |= procflags.EDGE_HIT

    if flags != 0:
        # we will flag this later
        res["flags"] = flags
        res["wgt"] = 0
        res["obj_res"] = None
        res["psf_res"] = None
    else:
        res["flags"] = flags
        res["wgt"] = np.median(obs.weight[obs.weight > 0])
        res["obj_res"] = fitter.go(obs)
        res["psf_res"] = fitter.go(obs.psf, **psf_go_kwargs)

        if fitter.kind == "am" and MOMNAME == "mom":
            res["obj_res"]["mom"] = res["obj_res"]["sums"]
            res["obj_res"]["mom_cov"] = res["obj_res"]["sums_cov"]
            res["psf_res"]["mom"] = res["psf_res"]["sums"]
            res["psf_res"]["mom_cov"] = res["psf_res"]["sums_cov"]

        if res["obj_res"]["flags"] != 0:
            logger.debug("per band fitter failed: %s" % res["obj_res"]['flagstr'])

        if res["psf_res"]["flags"] != 0:
            logger.debug("per band psf fitter failed: %s" % res["psf_res"]['flagstr'])

    return res
""", """    if symmetrize:
        obs = symmetrize_obs_weights(obs)

    good = obs.weight > 0

    flags = 0
    if not good.any():
        flags |= procflags.ZERO_WEIGHTS
    if np.any((obs.bmask & bmask_flags) != 0):
        flags |= procflags.EDGE_HIT

    if flags != 0:
        # we will flag this later
        return dict(flags=flags, wgt=0, obj_res=None, psf_res=None)

    wgt = np.median(obs.weight[good])
    obj_res = fitter.go(obs)
    psf_res = fitter.go(obs.psf, **psf_go_kwargs)

    for label, fres in (("", obj_res), ("psf ", psf_res)):
        if fitter.kind == "am" and MOMNAME == "mom":
            fres["mom"] = fres["sums"]
            fres["mom_cov"] = fres["sums_cov"]

        if fres["flags"] != 0:
            logger.debug("per band %sfitter failed: %s" % (label, fres['flagstr']))

    return dict(flags=flags, wgt=wgt, obj_res=obj_res, psf_res=psf_res)
""")]),
    ('h14-runlsst-kw', [(LM, """    config_override = config if config is not None else {}
    config = MetadetectConfig()
    config.setDefaults()

    util.override_config(config, config_override)

    config.freeze()
    config.validate()
    task = MetadetectTask(config=config)
    return task.run(
        mbexp,
        noise_mbexp,
        rng,
        mfrac_mbexp,
        ormasks,
        show=show,
        get_psf_stats=get_psf_stats,
    )
""", """    task_config = MetadetectConfig()
    task_config.setDefaults()

    if config is None:
        config = {}
    util.override_config(task_config, config)

    task_config.freeze()
    task_config.validate()

    return MetadetectTask(config=task_config).run(
        mbexp=mbexp,
        noise_mbexp=noise_mbexp,
        rng=rng,
        mfrac_mbexp=mfrac_mbexp,
        ormasks=ormasks,
        show=show,
        get_psf_stats=get_psf_stats,
    )
""")]),
    ('i14-fitter-factory-dict', [(MD, """            if model == 'wmom':
                fitter = ngmix.gaussmom.GaussMom(fwhm=cfg["weight"]["fwhm"])
                is_wavg = True
                coadd = False
            elif model == 'ksigma':
                fitter = ngmix.prepsfmom.KSigmaMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
            elif model == "pgauss":
                fitter = ngmix.prepsfmom.PGaussMom(
                    fwhm=cfg["weight"]["fwhm"],
                    **kwargs,
                )
                is_wavg = True
                coadd = False
            elif model in""", """            is_wavg = model in ('wmom', 'ksigma', 'pgauss')
            if is_wavg:
                coadd = False
                fwhm = cfg["weight"]["fwhm"]
                if model == 'wmom':
                    fitter = ngmix.gaussmom.GaussMom(fwhm=fwhm)
                elif model == 'ksigma':
                    fitter = ngmix.prepsfmom.KSigmaMom(fwhm=fwhm, **kwargs)
                else:
                    fitter = ngmix.prepsfmom.PGaussMom(fwhm=fwhm, **kwargs)
            elif model in"""), (MD, """                fitter = model
                is_wavg = False

""", """                fitter = model

""")]),
    ('i14-fitter-reg', [(MD, """            if "fwhm_reg" in cfg.get("weight", {}):
                fwhm_reg = cfg["weight"]["fwhm_reg"]
                fitter.kind = fitter.kind + "_reg%0.2f" % cfg["weight"]["fwhm_reg"]
            else:
                fwhm_reg = 0

            return (
                model, fitter, cfg["weight"]["fwhm"], fwhm_reg,
                is_wavg, symmetrize, coadd,
            )
""", """            weight = cfg["weight"]
            fwhm_reg = 0
            if "fwhm_reg" in weight:
                fwhm_reg = weight["fwhm_reg"]
                fitter.kind += "_reg%0.2f" % fwhm_reg

            return (
                model, fitter, weight["fwhm"], fwhm_reg, is_wavg, symmetrize, coadd
            )
""")]),
    ('i14-fitter-append', [(MD, """        if "fitters" in self:
            fitters = []
            fwhms = []
            fwhm_regs = []
            fitter_is_wavg = []
            fitter_symmetrize = []
            fitter_coadd = []
            for fitter_cfg in self["fitters"]:
                _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                    fitter_cfg
                )
                fitters.append(fitter)
                fwhms.append(fwhm)
                fwhm_regs.append(fwhm_reg)
                fitter_is_wavg.append(is_wavg)
                fitter_symmetrize.append(symmetrize)
                fitter_coadd.append(coadd)
            self._fitters = fitters
            self._fwhms = fwhms
            self._fwhm_regs = fwhm_regs
            self._fitter_is_wavg = fitter_is_wavg
            self._fitter_symmetrize = fitter_symmetrize
            self._fitter_coadd = fitter_coadd
        else:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(self)
            self._fitters = [fitter]
            self._fwhms = [fwhm]
            self._fwhm_regs = [fwhm_reg]
            self._fitter_is_wavg = [is_wavg]
            self._fitter_symmetrize = [symmetrize]
            self._fitter_coadd = [coadd]
""", """        self._fitters = []
        self._fwhms = []
        self._fwhm_regs = []
        self._fitter_is_wavg = []
        self._fitter_symmetrize = []
        self._fitter_coadd = []

        fitter_cfgs = self["fitters"] if "fitters" in self else [self]
        for fitter_cfg in fitter_cfgs:
            _, fitter, fwhm, fwhm_reg, is_wavg, symmetrize, coadd = _get_fitter(
                fitter_cfg
            )
            self._fitters.append(fitter)
            self._fwhms.append(fwhm)
            self._fwhm_regs.append(fwhm_reg)
            self._fitter_is_wavg.append(is_wavg)
            self._fitter_symmetrize.append(symmetrize)
            self._fitter_coadd.append(coadd)
""")]),
    ('i14-fitter-check', [(MD, """        if "fitters" in self and (
            "model" in self
            or "weight" in self
            or "symmetrize" in self
            or "coadd" in self
        ):
            raise""", """        single_keys = ("model", "weight", "symmetrize", "coadd")
        if "fitters" in self and any(key in self for key in single_keys):
            raise""")]),
    ('j14-sep-clip', [(DT, """            ostart_row = orow - half_box_size + 1
            ostart_col = ocol - half_box_size + 1
            oend_row = orow + half_box_size + 1  # plus one for slices
            oend_col = ocol + half_box_size + 1

            ostart_row.clip(min=0, out=ostart_row)
            ostart_col.clip(min=0, out=ostart_col)
            oend_row.clip(max=maxrow, out=oend_row)
            oend_col.clip(max=maxcol, out=oend_col)
""", """            # plus one for slices
            ostart_row = np.clip(orow - half_box_size + 1, 0, None)
            ostart_col = np.clip(ocol - half_box_size + 1, 0, None)
            oend_row = np.clip(orow + half_box_size + 1, None, maxrow)
            oend_col = np.clip(ocol + half_box_size + 1, None, maxcol)
""")]),
    ('j14-sep-axes-loop', [(DT, """        cat['dudrow'][:, 0] = jacob.dudrow
        cat['dudcol'][:, 0] = jacob.dudcol
        cat['dvdrow'][:, 0] = jacob.dvdrow
        cat['dvdcol'][:, 0] = jacob.dvdcol

        cat['iso_radius_arcsec'] = (
            cat['iso_radius'] * self.mbobs[0][0].jacobian.get_scale()
        )
""", """        for name in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
            cat[name][:, 0] = getattr(jacob, name)

        cat['iso_radius_arcsec'] = jacob.get_scale() * cat['iso_radius']
""")]),
    ('j14-sep-early', [(DT, """            self.seg = seg
        self.cat = cat
""", """"""), ] if False else [(DT, """        if cat.size > 0:

            box_size = self._get_box_sizes(cat)

            half_box_size = box_size//2

            maxrow, maxcol = self.detim.shape

            cat['box_size'] = box_size

            cat['orig_row'][:, 0] = cat['y']
            cat['orig_col'][:, 0] = cat['x']
""", """        self.seg = seg
        self.cat = cat

        if cat.size > 0:
            maxrow, maxcol = self.detim.shape

            cat['orig_row'][:, 0] = cat['y']
            cat['orig_col'][:, 0] = cat['x']

            box_size = self._get_box_sizes(cat)
            cat['box_size'] = box_size
            half_box_size = box_size//2
"""), (DT, """            cat['psf_cutout_row'][:, 0] = psf_cen[0]
            cat['psf_cutout_col'][:, 0] = psf_cen[1]

        self.seg = seg
        self.cat = cat
""", """            cat['psf_cutout_row'][:, 0] = psf_cen[0]
            cat['psf_cutout_col'][:, 0] = psf_cen[1]
""")]),
    ('k14-fg-common', [(MK, """    if method == 'interp':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=False,
            iso_buff=iso_buff,
            rng=rng,
        )
    elif method == 'interp-noise':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=True,
            iso_buff=iso_buff,
            rng=rng,
        )
    elif method == 'apodize':
        _apply_mask_apodize(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            ap_rad=ap_rad,
            mask_bit_val=mask_bit_val,
        )
    else:
        raise RuntimeError(
            "Can only do one of 'interp', 'interp-noise' or 'apodize' for "
            "handling foreground masks (got %s)!" % method
        )
""", """    common = dict(
        mbobs=mbobs,
        xm=xm,
        ym=ym,
        rm=rm,
        symmetrize=symmetrize,
        mask_bit_val=mask_bit_val,
    )
    if method not in ('interp', 'interp-noise', 'apodize'):
        raise RuntimeError(
            "Can only do one of 'interp', 'interp-noise' or 'apodize' for "
            "handling foreground masks (got %s)!" % method
        )

    if method == 'apodize':
        _apply_mask_apodize(ap_rad=ap_rad, **common)
    else:
        _apply_mask_interp(
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=(method == 'interp-noise'),
            iso_buff=iso_buff,
            rng=rng,
            **common
        )
""")]),
    ('k14-fg-early', [(MK, """    if mask_expand_rad > 0:
        expanded_bmask = make_foreground_bmask(
            xm=xm,
            ym=ym,
            rm=rm + mask_expand_rad,
            dims=mbobs[0][0].image.shape,
            symmetrize=symmetrize,
            mask_bit_val=expand_mask_bit_val,
        )
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.bmask |= expanded_bmask
""", """    if not mask_expand_rad > 0:
        return

    dims = mbobs[0][0].image.shape
    rm_expanded = mask_expand_rad + rm
    expanded_bmask = make_foreground_bmask(
        xm=xm,
        ym=ym,
        rm=rm_expanded,
        dims=dims,
        symmetrize=symmetrize,
        mask_bit_val=expand_mask_bit_val,
    )
    all_obs = [obs for obslist in mbobs for obs in obslist]
    for obs in all_obs:
        # the pixels list will be reset upon exiting
        with obs.writeable():
            obs.bmask |= expanded_bmask
""")]),
    ('l14-ms-pick-exposure', [(MS, """        self.check_source_id(source_id)

        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)

        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        source = self.sources.find(source_id)
        mbobs = ngmix.MultiBandObsList()

        for band in mbexp.bands:
            subexp = mbexp[band][bbox]
            obs = util.extract_obs(exp=subexp, source=source)

            obslist = ngmix.ObsList(meta={'band': band})
            obslist.append(obs)
            mbobs.append(obslist)

        return mbobs
""", """        self.check_source_id(source_id)

        source = self.sources.find(source_id)
        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)

        mbexp = {'original': self.orig, 'deblended': self.mbexp}[type]

        mbobs = ngmix.MultiBandObsList()
        for band in mbexp.bands:
            obslist = ngmix.ObsList(meta={'band': band})
            obslist.append(util.extract_obs(exp=mbexp[band][bbox], source=source))
            mbobs.append(obslist)

        return mbobs
""")]),
    ('l14-ms-stamp', [(MS, """        if type == 'original':
            mbexp = self.orig
        else:
            mbexp = self.mbexp

        exposures = [mbexp[band][bbox] for band in self.bands]
        # return MultibandExposure.fromExposures(self.bands, exposures)
        return util.get_mbexp(exposures)
""", """        mbexp = self.orig if type == 'original' else self.mbexp

        exposures = []
        for band in self.bands:
            exposures.append(mbexp[band][bbox])

        return util.get_mbexp(exposures)
""")]),
    ('m14-scarlet-order', [(MS, """    py, px = blend.observation.psfs.shape[1:]
    dh = py // 2
    dw = px // 2

    if useFlux:
        bbox = source.flux_weighted_image.bbox
    else:
        bbox = source.bbox.grow((dh, dw))
    # Only use the portion of the convolved model that fits in the image
    overlap = bbox & blend.observation.bbox
    # Load the full multiband model in the larger box
    if useFlux:
        # The flux weighted model is already convolved, so we just load it
        model = source.get_model(use_flux=True).project(bbox=overlap)
    else:
        model = source.get_model().project(bbox=overlap)
""", """    observation = blend.observation
    psf_dims = observation.psfs.shape[1:]

    if useFlux:
        # The flux weighted model is already convolved, so we just load it
        overlap = source.flux_weighted_image.bbox & observation.bbox
        model = source.get_model(use_flux=True).project(bbox=overlap)
    else:
        grow = (psf_dims[0] // 2, psf_dims[1] // 2)
        # Only use the portion of the convolved model that fits in the image
        overlap = source.bbox.grow(grow) & observation.bbox
        model = source.get_model().project(bbox=overlap)
""")]),
    ('n14-exp2obs-psf-helper', [(UT, """    psf_obj = exp.getPsf()
    psf_image = psf_obj.computeKernelImage(cen).array

    assert psf_image.shape[0] == psf_image.shape[1], 'psf is not square'
    assert psf_image.shape[0] % 2 != 0, 'psf dims are not odd'
    psf_cen = (np.array(psf_image.shape) - 1.0) / 2.0

    psf_jac = jac.copy()
    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])

    psf_err = psf_image.max() * 0.0001
    psf_weight = psf_image * 0 + 1.0 / psf_err**2

    psf_obs = ngmix.Observation(
        image=psf_image,
        weight=psf_weight,
        jacobian=psf_jac,
    )

    if copy_mask_to""", """    psf_obs = _exp2psf_obs(exp=exp, cen=cen, jac=jac)

    if copy_mask_to"""), (UT, """def exp2obs(""", """def _exp2psf_obs(exp, cen, jac):
    psf_image = exp.getPsf().computeKernelImage(cen).array
    nrow, ncol = psf_image.shape

    assert nrow == ncol, 'psf is not square'
    assert nrow % 2 != 0, 'psf dims are not odd'

    psf_jac = jac.copy()
    psf_jac.set_cen(row=(nrow - 1.0) / 2.0, col=(ncol - 1.0) / 2.0)

    psf_err = psf_image.max() * 0.0001
    psf_weight = np.full(psf_image.shape, 1.0 / psf_err**2)

    return ngmix.Observation(
        image=psf_image,
        weight=psf_weight,
        jacobian=psf_jac,
    )


def exp2obs(""")]),
    ('n14-exp2obs-weight', [(UT, """    dims = exp.image.array.shape
    weight = np.zeros(dims)
    w = np.where(exp.variance.array > 0)
    weight[w] = 1.0 / exp.variance.array[w]

    psf_obj = exp.getPsf()
    psf_image = psf_obj.computeKernelImage(cen).array
""", """    image = exp.image.array
    variance = exp.variance.array

    weight = np.zeros(image.shape)
    good = variance > 0
    weight[good] = 1.0 / variance[good]

    psf_image = exp.getPsf().computeKernelImage(cen).array
"""), (UT, """        image=exp.image.array,
        weight=weight,
        bmask=bmask,
        ormask=ormask,
        jacobian=jac,
        psf=psf_obs,
        meta=meta,
""", """        image=image,
        weight=weight,
        bmask=bmask,
        ormask=ormask,
        jacobian=jac,
        psf=psf_obs,
        meta=meta,
""")]),
    ('n14-exp2obs-meta', [(UT, """    meta = {}
    if store_exp:
        meta['exposure'] = exp

""", """    meta = {'exposure': exp} if store_exp else {}

""")]),
    ('o14-bbox-guard', [(UT, """    fp = source.getFootprint()
    peak = fp.getPeaks()[0]

    x_peak, y_peak = peak.getIx(), peak.getIy()

    bbox = geom.Box2I(
        geom.Point2I(x_peak, y_peak),
        geom.Extent2I(1, 1),
    )
    bbox.grow(stamp_size // 2)

    exp_bbox = mbexp.getBBox()
    if clip:
        bbox.clip(exp_bbox)
    else:
        if not exp_bbox.contains(bbox):
""", """    peak = source.getFootprint().getPeaks()[0]
    corner = geom.Point2I(peak.getIx(), peak.getIy())

    bbox = geom.Box2I(corner, geom.Extent2I(1, 1))
    bbox.grow(stamp_size // 2)

    exp_bbox = mbexp.getBBox()
    if clip:
        bbox.clip(exp_bbox)
    elif not exp_bbox.contains(bbox):
        if True:
""")]),
    ('p14-shearpos-matmul', [(SP, """    row_cen = (dims[0] - 1) / 2
    col_cen = (dims[1] - 1) / 2

    v_cen, u_cen = jac.get_vu(row=row_cen, col=col_cen)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    u = np.atleast_1d(u) - u_cen
    v = np.atleast_1d(v) - v_cen

    pos = np.vstack((u, v))

    out = np.dot(a, pos)
    assert out.shape[1] == u.shape[0]
    u_sheared = out[0, :] + u_cen
    v_sheared = out[1, :] + v_cen

    # undo the WCS to get to image coords
    rows_sheared, cols_sheared = jac.get_rowcol(v=v_sheared, u=u_sheared)

    return rows_sheared, cols_sheared
""", """    nrow, ncol = dims
    v_cen, u_cen = jac.get_vu(row=(nrow - 1) / 2, col=(ncol - 1) / 2)

    # apply WCS to get to world coords
    v, u = jac.get_vu(row=rows, col=cols)

    # unshear (subtract and then add the canonical center in u, v)
    offsets = np.vstack((np.atleast_1d(u) - u_cen, np.atleast_1d(v) - v_cen))
    sheared = np.dot(a, offsets)
    assert sheared.shape[1] == offsets.shape[1]

    # undo the WCS to get to image coords
    return jac.get_rowcol(v=sheared[1] + v_cen, u=sheared[0] + u_cen)
""")]),
]
