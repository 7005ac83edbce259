FT = 'metadetect/fitting.py'
MD = 'metadetect/metadetect.py'
DT = 'metadetect/detect.py'
MK = 'metadetect/masking.py'

FLAGLOOP = """    flags = 0
    for obslist in mbobs:
        if len(obslist) == 0:
            flags |= procflags.MISSING_BAND
            continue

        if len(obslist) > 1:
            flags |= procflags.INCONSISTENT_BANDS
            continue

        for obs in obslist:
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS

            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT

"""

REFS = [
    ('fit-check-helper', [(FT, FLAGLOOP + """    if any(s""", """    flags = _check_mbobs(mbobs, bmask_flags)

    if any(s"""), (FT, FLAGLOOP + """    if flags == 0:
        # first""", """    flags = _check_mbobs(mbobs, bmask_flags)

    if flags == 0:
        # first"""), (FT, """def _extract_g(res):
""", """def _check_mbobs(mbobs, bmask_flags):
    flags = 0
    for obslist in mbobs:
        nobs = len(obslist)
        if nobs == 0:
            flags |= procflags.MISSING_BAND
        elif nobs > 1:
            flags |= procflags.INCONSISTENT_BANDS
        else:
            obs = obslist[0]
            if not np.any(obs.weight > 0):
                flags |= procflags.ZERO_WEIGHTS
            if np.any((obs.bmask & bmask_flags) != 0):
                flags |= procflags.EDGE_HIT
    return flags


def _extract_g(res):
""")]),
    ('fit-psf-stats-helper', [(FT, """            pflags = 0
            psf_g_sum = np.zeros(2)
            psf_T_sum = 0.0
            wgt_sum = 0.0
            for obslist in shear_mbobs:
                for obs in obslist:
                    pflags |= obs.psf.meta["result"]["flags"]
                    if obs.psf.meta["result"]["flags"] == 0:
                        msk = obs.weight > 0
                        if not np.any(msk):
                            pflags |= procflags.ZERO_WEIGHTS
                        else:
                            _wgt = np.median(obs.weight[msk])
                            psf_T_sum += obs.psf.meta["result"]["T"] * _wgt
                            g = _extract_g(obs.psf.meta["result"])
                            psf_g_sum += (
                                g
                                * _wgt
                                * obs.psf.meta["result"]["T"]
                            )
                            wgt_sum += _wgt

""", """            pflags, psf_T_sum, psf_g_sum, wgt_sum = _sum_psf_shapes(shear_mbobs)

"""), (FT, """def _extract_g(res):
""", """def _sum_psf_shapes(mbobs):
    pflags = 0
    g_sum = np.zeros(2)
    T_sum = 0.0
    wgt_sum = 0.0
    for obslist in mbobs:
        for obs in obslist:
            pres = obs.psf.meta["result"]
            pflags |= pres["flags"]
            if pres["flags"] != 0:
                continue

            msk = obs.weight > 0
            if not np.any(msk):
                pflags |= procflags.ZERO_WEIGHTS
                continue

            wgt = np.median(obs.weight[msk])
            T = pres["T"]
            T_sum += T * wgt
            g_sum += _extract_g(pres) * wgt * T
            wgt_sum += wgt
    return pflags, T_sum, g_sum, wgt_sum


def _extract_g(res):
""")]),
    ('fit-gauss-early', [(FT, """    if flags == 0:
        res["gauss_obj_flags"] = ores["flags"]
""", """    if flags != 0:
        res["gauss_flags"] |= flags
        return res

    if True:
        res["gauss_obj_flags"] = ores["flags"]
"""), (FT, """        res["gauss_flags"] = res["gauss_obj_flags"] | res["gauss_psf_flags"]
    else:
        res["gauss_flags"] |= flags

    return res
""", """        res["gauss_flags"] = res["gauss_obj_flags"] | res["gauss_psf_flags"]

    return res
""")]),
    ('fit-gauss-multi', [(FT, """        if len(res["gauss_band_flux_flags"].shape) == 2:
            res["gauss_band_flux_flags"][0, shear_bands] = ores["flags"]
        else:
            res["gauss_band_flux_flags"] = ores["flags"]

""", """        multi_band = len(res["gauss_band_flux_flags"].shape) == 2
        if multi_band:
            res["gauss_band_flux_flags"][0, shear_bands] = ores["flags"]
        else:
            res["gauss_band_flux_flags"] = ores["flags"]

"""), (FT, """            if len(res["gauss_band_flux_flags"].shape) == 2:
                res["gauss_band_flux"][0""", """            if multi_band:
                res["gauss_band_flux"][0""")]),
    ('fit-gauss-exc', [(FT, """        except BootPSFFailure:
            flags |= procflags.PSF_FAILURE
        except PSFFluxFailure:
            flags |= procflags.PSF_FAILURE
        except""", """        except (BootPSFFailure, PSFFluxFailure):
            flags |= procflags.PSF_FAILURE
        except"""), (FT, """            flags |= procflags.OBJ_FAILURE
            flags |= procflags.PSF_FAILURE
""", """            flags |= procflags.OBJ_FAILURE | procflags.PSF_FAILURE
""")]),
    ('fit-gauss-runners', [(FT, """        try:
            ores = bootstrap(
                shear_mbobs,
                get_gauss_obj_runner(
                    rng,
                    len(shear_mbobs),
                    shear_mbobs[0][0].jacobian.get_scale(),
                )
                if obj_runner is None else obj_runner,
                psf_runner=(
                    get_gauss_psf_runner(rng)
                    if psf_runner is None
                    else psf_runner
                ),
            )
""", """        try:
            if obj_runner is None:
                obj_runner = get_gauss_obj_runner(
                    rng,
                    len(shear_mbobs),
                    shear_mbobs[0][0].jacobian.get_scale(),
                )
            if psf_runner is None:
                psf_runner = get_gauss_psf_runner(rng)
            ores = bootstrap(shear_mbobs, obj_runner, psf_runner=psf_runner)
""")]),
    ('fit-gauss-copycols', [(FT, """            res["gauss_s2n"] = ores["s2n"]
            res["gauss_g"] = ores["g"]
            res["gauss_g_cov"] = ores["g_cov"]
            res["gauss_T"] = ores["T"]
            res["gauss_T_err"] = ores["T_err"]

""", """            for col in ("s2n", "g", "g_cov", "T", "T_err"):
                res["gauss_" + col] = ores[col]

""")]),
    ('fit-extract-g', [(FT, """    if 'g' in res:
        g = res['g']
    elif 'e' in res:
        e1, e2 = res['e']
        g1, g2 = ngmix.shape.e1e2_to_g1g2(e1, e2)
        g = np.array([g1, g2])
    return g
""", """    if 'g' in res:
        return res['g']
    if 'e' in res:
        e1, e2 = res['e']
        g = np.array(ngmix.shape.e1e2_to_g1g2(e1, e2))
    return g
""")]),
    ('fit-list-joint-comp', [(FT, """    res = []
    for i, mbobs in enumerate(mbobs_list):
        _res = fit_func(
            mbobs=mbobs,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            rng=rng,
            **kwargs,
        )
        res.append(_res)

    if len(res) > 0:
        return np.hstack(res)
    else:
        return None
""", """    kwargs.update(bmask_flags=bmask_flags, shear_bands=shear_bands, rng=rng)
    res = [fit_func(mbobs=mbobs, **kwargs) for mbobs in mbobs_list]
    if not res:
        return None
    return np.hstack(res)
""")]),
    ('fit-list-joint-nband', [(FT, """            if coadd:
                nband = 1
            else:
                if shear_bands is None:
                    nband = len(mbobs_list[0])
                else:
                    nband = len(shear_bands)
""", """            if coadd:
                nband = 1
            elif shear_bands is not None:
                nband = len(shear_bands)
            else:
                nband = len(mbobs_list[0])
"""), (FT, """        raise RuntimeError("Joint fitter '%s' not recognized!" % fitter_name)
""", """        raise RuntimeError(f"Joint fitter '{fitter_name}' not recognized!")
""")]),
    ('fit-admom-split', [(FT, """        try:
            pres = runner.go(coadd_obs.psf)
        except Exception:
            flags |= procflags.PSF_FAILURE
        else:
            res["am_psf_flags"] = pres["flags"]
            if pres["flags"] == 0:
                res["am_psf_g"] = pres["e"]
                res["am_psf_T"] = pres["T"]
""", """        try:
            pres = runner.go(coadd_obs.psf)
        except Exception:
            flags |= procflags.PSF_FAILURE

    if flags == 0:
        res["am_psf_flags"] = pres["flags"]
        if pres["flags"] == 0:
            res["am_psf_g"] = pres["e"]
            res["am_psf_T"] = pres["T"]
""")]),
    ('fit-admom-sym', [(FT, """        if symmetrize:
            sym_coadd_obs = symmetrize_obs_weights(coadd_obs)
        else:
            sym_coadd_obs = coadd_obs
        try:
            gres = runner.go(sym_coadd_obs)
""", """        fit_obs = coadd_obs
        if symmetrize:
            fit_obs = symmetrize_obs_weights(fit_obs)
        try:
            gres = runner.go(fit_obs)
""")]),
    ('fit-admom-order', [(FT, """            res["am_T_flags"] = gres["T_flags"]
            if gres["T_flags"] == 0:
                res["am_T"] = gres["T"]
                res["am_T_err"] = gres["T_err"]
                if pres["flags"] == 0:
                    res["am_T_ratio"] = res["am_T"] / res["am_psf_T"]

            res["am_obj_flags"] = gres["flags"]
            if gres["flags"] == 0:
                res["am_s2n"] = gres["s2n"]
                res["am_g"] = gres["e"]
                res["am_g_cov"] = gres["e_cov"]

""", """            res["am_obj_flags"] = gres["flags"]
            if gres["flags"] == 0:
                res["am_s2n"] = gres["s2n"]
                res["am_g"] = gres["e"]
                res["am_g_cov"] = gres["e_cov"]

            res["am_T_flags"] = gres["T_flags"]
            if gres["T_flags"] == 0:
                res["am_T"] = gres["T"]
                res["am_T_err"] = gres["T_err"]
            if gres["T_flags"] == 0 and pres["flags"] == 0:
                res["am_T_ratio"] = res["am_T"] / res["am_psf_T"]

""")]),
    ('coadd-first', [(FT, """    image = np.zeros_like(mbobs[shear_bands[0]][0].image)
    weight = np.zeros_like(mbobs[shear_bands[0]][0].weight)
    mfrac = np.zeros_like(mbobs[shear_bands[0]][0].image)
    nmfrac = 0
    noise = np.zeros_like(mbobs[shear_bands[0]][0].image)
    nnoise = 0
    bmask = np.zeros_like(mbobs[shear_bands[0]][0].image, dtype=np.int32)
    nbmask = 0
    ormask = np.zeros_like(mbobs[shear_bands[0]][0].image, dtype=np.int32)
    normask = 0
    meta = {}
    psf_meta = {}
    psf_image = np.zeros_like(mbobs[shear_bands[0]][0].psf.image)
""", """    image = np.zeros_like(fobs.image)
    weight = np.zeros_like(fobs.weight)
    mfrac = np.zeros_like(fobs.image)
    noise = np.zeros_like(fobs.image)
    bmask = np.zeros_like(fobs.image, dtype=np.int32)
    ormask = np.zeros_like(fobs.image, dtype=np.int32)
    psf_image = np.zeros_like(fobs.psf.image)
    nmfrac = nnoise = nbmask = normask = 0
    meta = {}
    psf_meta = {}
"""), (FT, """        "jacobian": mbobs[shear_bands[0]][0].jacobian,
        "psf": ngmix.Observation(
            psf_image,
            jacobian=mbobs[shear_bands[0]][0].psf.jacobian,
""", """        "jacobian": fobs.jacobian,
        "psf": ngmix.Observation(
            psf_image,
            jacobian=fobs.psf.jacobian,
""")]),
    ('coadd-single', [(FT, """    if len(shear_bands) == 1:
        if shear_bands[0] < nbands:
            return mbobs[shear_bands[0]][0], flags
        else:
            flags |= procflags.INCONSISTENT_BANDS
            return None, flags
""", """    if len(shear_bands) == 1:
        band = shear_bands[0]
        if band >= nbands:
            return None, procflags.INCONSISTENT_BANDS
        return mbobs[band][0], 0
""")]),
    ('coadd-compat-helper', [(FT, """        if (
            (repr(fobs.jacobian) != repr(obs.jacobian))
            or (fobs.image.shape != obs.image.shape)
            or (not fobs.has_psf())
            or (not obs.has_psf())
            or (repr(fobs.psf.jacobian) != repr(obs.psf.jacobian))
            or (fobs.psf.image.shape != obs.psf.image.shape)
        ):
""", """        if not _same_geometry(fobs, obs):
"""), (FT, """def make_coadd_obs(mbobs, shear_bands=None):
""", """def _same_geometry(obs1, obs2):
    return (
        repr(obs1.jacobian) == repr(obs2.jacobian)
        and obs1.image.shape == obs2.image.shape
        and obs1.has_psf()
        and obs2.has_psf()
        and repr(obs1.psf.jacobian) == repr(obs2.psf.jacobian)
        and obs1.psf.image.shape == obs2.psf.image.shape
    )


def make_coadd_obs(mbobs, shear_bands=None):
""")]),
    ('coadd-counts', [(FT, """    for var in [nmfrac, nnoise, nbmask, normask]:
        if var not in [0, len(shear_bands)]:
            flags |= procflags.INCONSISTENT_BANDS
            return None, flags
""", """    if any(
        n != 0 and n != len(shear_bands)
        for n in (nmfrac, nnoise, nbmask, normask)
    ):
        return None, flags | procflags.INCONSISTENT_BANDS
""")]),
    ('coadd-weights', [(FT, """    wgts = np.zeros(len(shear_bands))
    for i, band in enumerate(shear_bands):
        obs = mbobs[band][0]
        msk = obs.weight > 0
        if not np.any(msk):
            flags |= procflags.ZERO_WEIGHTS
            # let's not waste time since we are missing a band
            return None, flags
        else:
            wgts[i] = np.median(obs.weight[msk])
    wgts /= np.sum(wgts)
""", """    wgts = []
    for band in shear_bands:
        weight = mbobs[band][0].weight
        good = weight > 0
        if not np.any(good):
            flags |= procflags.ZERO_WEIGHTS
            return None, flags
        wgts.append(np.median(weight[good]))
    wgts = np.array(wgts)
    wgts = wgts / np.sum(wgts)
""")]),
    ('coadd-zip', [(FT, """    for i, shear_band in enumerate(shear_bands):
        obs = mbobs[shear_band][0]
        wgt = wgts[i]

        meta.update(obs.meta)
        meta.update(mbobs[shear_band].meta)
""", """    for wgt, shear_band in zip(wgts, shear_bands):
        obslist = mbobs[shear_band]
        obs = obslist[0]

        meta.update(obs.meta)
        meta.update(obslist.meta)
""")]),
    ('fit-all-psfs', [(FT, """        flags = obs.psf.meta['result']['flags']
        if flags != 0:
            raise BootPSFFailure("failed to measure psfs: %s" % flags)
""", """        res = obs.psf.meta['result']
        if res['flags'] == 0:
            continue

        raise BootPSFFailure("failed to measure psfs: %s" % res['flags'])
""")]),
    ('wavg-list', [(FT, """    res = []
    for i, mbobs in enumerate(mbobs_list):

        _res = fit_mbobs_wavg(
            mbobs=mbobs,
            fitter=fitter,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            fwhm_reg=fwhm_reg,
            symmetrize=symmetrize,
        )
        res.append(_res)

    if len(res) > 0:
        return np.hstack(res)
    else:
        return None
""", """    if len(mbobs_list) == 0:
        return None

    return np.hstack([
        fit_mbobs_wavg(
            mbobs=mbobs,
            fitter=fitter,
            bmask_flags=bmask_flags,
            shear_bands=shear_bands,
            fwhm_reg=fwhm_reg,
            symmetrize=symmetrize,
        )
        for mbobs in mbobs_list
    ])
""")]),
    ('wavg-lists', [(FT, """    all_res = []
    all_psf_res = []
    all_is_shear_band = []
    all_wgts = []
    all_flags = []

    if shear_bands is None:
        shear_bands = list(range(nband))

    if fitter.kind == 'am':
        assert len(mbobs) == 1, 'Use only one band for adaptive moments'

    for band in range(nband):
        all_is_shear_band.append(True if band in shear_bands else False)
        fres = _fit_obslist(
            obslist=mbobs[band],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        all_wgts.append(fres["wgt"])
        all_res.append(fres["obj_res"])
        all_psf_res.append(fres["psf_res"])
        all_flags.append(fres["flags"])

    return _combine_fit_results_wavg(
        all_res=all_res,
        all_psf_res=all_psf_res,
        all_is_shear_band=all_is_shear_band,
        all_wgts=all_wgts,
        model=fitter.kind,
        all_flags=all_flags,
""", """    if shear_bands is None:
        shear_bands = list(range(nband))

    if fitter.kind == 'am':
        assert nband == 1, 'Use only one band for adaptive moments'

    band_results = [
        _fit_obslist(
            obslist=mbobs[band],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
        for band in range(nband)
    ]

    return _combine_fit_results_wavg(
        all_res=[r["obj_res"] for r in band_results],
        all_psf_res=[r["psf_res"] for r in band_results],
        all_is_shear_band=[band in shear_bands for band in range(nband)],
        all_wgts=[r["wgt"] for r in band_results],
        model=fitter.kind,
        all_flags=[r["flags"] for r in band_results],
""")]),
    ('wavg-obslist', [(FT, """    if len(obslist) == 0:
        # we will flag this later
        res = {}
        res["flags"] = 0
        res["flags"] |= procflags.MISSING_BAND
        res["wgt"] = 0
        res["obj_res"] = None
        res["psf_res"] = None
        return res
    else:
        return _fit_obs(
            obs=obslist[0],
            fitter=fitter,
            bmask_flags=bmask_flags,
            symmetrize=symmetrize,
        )
""", """    if len(obslist) == 0:
        # we will flag this later
        return _failed_band(procflags.MISSING_BAND)

    return _fit_obs(
        obs=obslist[0],
        fitter=fitter,
        bmask_flags=bmask_flags,
        symmetrize=symmetrize,
    )


def _failed_band(flags):
    return {"flags": flags, "wgt": 0, "obj_res": None, "psf_res": None}
"""), (FT, """    if flags != 0:
        # we will flag this later
        res["flags"] = flags
        res["wgt"] = 0
        res["obj_res"] = None
        res["psf_res"] = None
    else:
""", """    if flags != 0:
        # we will flag this later
        res = _failed_band(flags)
    else:
""")]),
    ('wavg-fitobs', [(FT, """        res["obj_res"] = fitter.go(obs)
        res["psf_res"] = fitter.go(obs.psf, **psf_go_kwargs)

        if fitter.kind == "am" and MOMNAME == "mom":
            res["obj_res"]["mom"] = res["obj_res"]["sums"]
            res["obj_res"]["mom_cov"] = res["obj_res"]["sums_cov"]
            res["psf_res"]["mom"] = res["psf_res"]["sums"]
            res["psf_res"]["mom_cov"] = res["psf_res"]["sums_cov"]

        if res["obj_res"]["flags"] != 0:
            logger.debug("per band fitter failed: %s" % res["obj_res"]['flagstr'])

        if res["psf_res"]["flags"] != 0:
            logger.debug("per band psf fitter failed: %s" % res["psf_res"]['flagstr'])
""", """        obj_res = fitter.go(obs)
        psf_res = fitter.go(obs.psf, **psf_go_kwargs)

        if fitter.kind == "am" and MOMNAME == "mom":
            for r in (obj_res, psf_res):
                r["mom"] = r["sums"]
                r["mom_cov"] = r["sums_cov"]

        if obj_res["flags"] != 0:
            logger.debug("per band fitter failed: %s" % obj_res['flagstr'])

        if psf_res["flags"] != 0:
            logger.debug("per band psf fitter failed: %s" % psf_res['flagstr'])

        res["obj_res"] = obj_res
        res["psf_res"] = psf_res
""")]),
    ('sum-continue', [(FT, """        if all_wgt_res is not None:
            wgt_res = all_wgt_res[iband]
        else:
            wgt_res = None

        if issb:
            # the""", """        if not issb:
            continue

        wgt_res = all_wgt_res[iband] if all_wgt_res is not None else None

        if True:
            # the""")]),
    ('sum-norm', [(FT, """            if (
                res is not None
                and MOMNAME+"_norm" in res
                and np.isfinite(res[MOMNAME+"_norm"])
            ):
                mom_norm = res[MOMNAME+"_norm"]
            else:
                mom_norm = 1.0
""", """            mom_norm = 1.0
            if res is not None and MOMNAME+"_norm" in res:
                if np.isfinite(res[MOMNAME+"_norm"]):
                    mom_norm = res[MOMNAME+"_norm"]
""")]),
    ('sum-names', [(FT, """            if res is not None and MOMNAME in res and MOMNAME+"_cov" in res:
                flux += (wgt * res[MOMNAME][5])
                flux_var += (wgt**2 * res[MOMNAME+"_cov"][5, 5])
""", """            covname = MOMNAME + "_cov"
            if res is not None and MOMNAME in res and covname in res:
                mom, cov = res[MOMNAME], res[covname]
                flux += mom[5] * wgt
                flux_var += wgt * wgt * cov[5, 5]
"""), (FT, """                rmoms = res[MOMNAME][:raw_mom.size]
                rcovs = res[MOMNAME + '_cov'][:raw_mom.size, :raw_mom.size]

                raw_mom += (wgt * flux_mom_ratio / mom_norm * rmoms)
                raw_mom_cov += (
                    (wgt * flux_mom_ratio / mom_norm)**2
                    * rcovs
                )
""", """                nmom = raw_mom.size
                fac = wgt * flux_mom_ratio / mom_norm
                raw_mom += fac * mom[:nmom]
                raw_mom_cov += fac**2 * cov[:nmom, :nmom]
""")]),
    ('sum-ratio-default', [(FT, """                if res[MOMNAME][5] != 0:
                    if (
                        MOMNAME+"_norm" in res""", """                if res[MOMNAME][5] == 0:
                    flux_mom_ratio = 1.0
                    final_flags |= procflags.ZERO_WEIGHTS
                else:
                    if (
                        MOMNAME+"_norm" in res"""), (FT, """                    else:
                        flux_mom_ratio = wgt_res[MOMNAME][5] / res[MOMNAME][5]
                else:
                    flux_mom_ratio = 1.0
                    final_flags |= procflags.ZERO_WEIGHTS
            else:
""", """                    else:
                        flux_mom_ratio = wgt_res[MOMNAME][5] / res[MOMNAME][5]
            else:
""")]),
    ('sum-any-used', [(FT, """    if sum(used_shear_bands) > 0 and wgt_sum <= 0:
""", """    if any(used_shear_bands) and wgt_sum <= 0:
""")]),
    ('mom-nan', [(FT, """        raw_mom_orig = raw_mom.copy()
        if np.isnan(raw_mom_orig[0]):
            raw_mom[0] = 0
        if np.isnan(raw_mom_orig[1]):
            raw_mom[1] = 0
        reg_mom = np.dot(amat, raw_mom)
        if np.isnan(raw_mom_orig[0]):
            raw_mom[0] = np.nan
            reg_mom[0] = np.nan
        if np.isnan(raw_mom_orig[1]):
            raw_mom[1] = np.nan
            reg_mom[1] = np.nan
""", """        nan0 = np.isnan(raw_mom[0])
        nan1 = np.isnan(raw_mom[1])
        if nan0:
            raw_mom[0] = 0
        if nan1:
            raw_mom[1] = 0
        reg_mom = np.dot(amat, raw_mom)
        if nan0:
            raw_mom[0] = np.nan
            reg_mom[0] = np.nan
        if nan1:
            raw_mom[1] = np.nan
            reg_mom[1] = np.nan
""")]),
    ('mom-nan-loop', [(FT, """        if np.isnan(raw_mom_orig[0]):
            raw_mom[0] = 0
        if np.isnan(raw_mom_orig[1]):
            raw_mom[1] = 0
        reg_mom = np.dot(amat, raw_mom)
        if np.isnan(raw_mom_orig[0]):
            raw_mom[0] = np.nan
            reg_mom[0] = np.nan
        if np.isnan(raw_mom_orig[1]):
            raw_mom[1] = np.nan
            reg_mom[1] = np.nan
""", """        for i in (0, 1):
            if np.isnan(raw_mom_orig[i]):
                raw_mom[i] = 0
        reg_mom = np.dot(amat, raw_mom)
        for i in (0, 1):
            if np.isnan(raw_mom_orig[i]):
                raw_mom[i] = np.nan
                reg_mom[i] = np.nan
""")]),
    ('mom-flux', [(FT, """    momres["flux"] = raw_flux
    if momres["flux"] <= 0:
        momres["flags"] |= ngmix.flags.NONPOS_FLUX

    if raw_flux_var > 0:
        momres["flux_err"] = np.sqrt(raw_flux_var)
        momres["s2n"] = momres["flux"] / momres["flux_err"]
    else:
        momres["flux_flags"] |= ngmix.flags.NONPOS_VAR
        momres["flux_err"] = np.nan
        momres["s2n"] = np.nan
        momres["flags"] |= ngmix.flags.NONPOS_VAR
""", """    momres["flux"] = raw_flux
    if raw_flux <= 0:
        momres["flags"] |= ngmix.flags.NONPOS_FLUX

    if raw_flux_var > 0:
        flux_err = np.sqrt(raw_flux_var)
        s2n = raw_flux / flux_err
    else:
        flux_err = s2n = np.nan
        for key in ("flux_flags", "flags"):
            momres[key] |= ngmix.flags.NONPOS_VAR

    momres["flux_err"] = flux_err
    momres["s2n"] = s2n
""")]),
    ('combine-nband', [(FT, """    nband = (
        sum(1 if issb else 0 for issb in all_is_shear_band)
        if all_is_shear_band
        else 0
    )
    nonshear_nband = (
        sum(0 if issb else 1 for issb in all_is_shear_band)
        if all_is_shear_band
        else 0
    )
""", """    nband = 0
    nonshear_nband = 0
    for issb in all_is_shear_band or []:
        if issb:
            nband += 1
        else:
            nonshear_nband += 1
""")]),
    ('combine-fill', [(FT, """        if nband == 0 or tot_nband == 0:
            psf_flags = procflags.MISSING_BAND
            mdet_flags = procflags.MISSING_BAND
            flux_flags = [procflags.MISSING_BAND] * tot_nband
        else:
            psf_flags = procflags.INCONSISTENT_BANDS
            mdet_flags = procflags.INCONSISTENT_BANDS
            flux_flags = [procflags.INCONSISTENT_BANDS] * tot_nband
        band_flux""", """        if nband == 0 or tot_nband == 0:
            fail = procflags.MISSING_BAND
        else:
            fail = procflags.INCONSISTENT_BANDS
        psf_flags = mdet_flags = fail
        flux_flags = [fail for _ in range(tot_nband)]
        band_flux""")]),
    ('combine-bandflux', [(FT, """            # the input flags mark very basic failures and are ORed across all bands
            # these are things like missing and or all zero-weight data, edges, etc.
            _flux_flags = 0
            _flux_flags |= flags

            # an object fit missing in any band is bad too
            if gres is None:
                _flux_flags |= procflags.MISSING_BAND
                band_flux.append(np.nan)
                band_flux_err.append(np.nan)
            elif (
                "flux" not in gres
                or "flux_err" not in gres
                or "flux_flags" not in gres
            ):
                _flux_flags |= procflags.NOMOMENTS_FAILURE
                band_flux.append(np.nan)
                band_flux_err.append(np.nan)
            else:
                _flux_flags |= gres["flux_flags"]
                band_flux.append(gres['flux'])
                band_flux_err.append(gres['flux_err'])
            flux_flags.append(_flux_flags)
""", """            flux = np.nan
            flux_err = np.nan
            if gres is None:
                flags |= procflags.MISSING_BAND
            elif all(key in gres for key in ("flux", "flux_err", "flux_flags")):
                flags |= gres["flux_flags"]
                flux = gres["flux"]
                flux_err = gres["flux_err"]
            else:
                flags |= procflags.NOMOMENTS_FAILURE

            band_flux.append(flux)
            band_flux_err.append(flux_err)
            flux_flags.append(flags)
""")]),
    ('combine-mom-helper', [(FT, """        psf_raw_mom = psf_sum_data["raw_mom"] / psf_sum_data["wgt_sum"]
        psf_raw_mom_cov = psf_sum_data["raw_mom_cov"] / (psf_sum_data["wgt_sum"]**2)
        psf_raw_flux = psf_sum_data["flux"] / psf_sum_data["wgt_sum"]
        psf_raw_flux_var = psf_sum_data["flux_var"] / (psf_sum_data["wgt_sum"]**2)

        psf_momres = _make_mom_res(
            raw_mom=psf_raw_mom,
            raw_mom_cov=psf_raw_mom_cov,
            raw_flux=psf_raw_flux,
            raw_flux_var=psf_raw_flux_var,
            fwhm_reg=0,
        )
""", """        psf_momres = _finish_moments(psf_sum_data, 0)
"""), (FT, """        raw_mom = sum_data["raw_mom"] / sum_data["wgt_sum"]
        raw_mom_cov = sum_data["raw_mom_cov"] / (sum_data["wgt_sum"]**2)
        raw_flux = sum_data["flux"] / sum_data["wgt_sum"]
        raw_flux_var = sum_data["flux_var"] / (sum_data["wgt_sum"]**2)

        momres = _make_mom_res(
            raw_mom=raw_mom,
            raw_mom_cov=raw_mom_cov,
            raw_flux=raw_flux,
            raw_flux_var=raw_flux_var,
            fwhm_reg=fwhm_reg,
        )
""", """        momres = _finish_moments(sum_data, fwhm_reg)
"""), (FT, """def _combine_fit_results_wavg(
    *""", """def _finish_moments(sums, fwhm_reg):
    norm = sums["wgt_sum"]
    norm2 = norm**2
    return _make_mom_res(
        raw_mom=sums["raw_mom"] / norm,
        raw_mom_cov=sums["raw_mom_cov"] / norm2,
        raw_flux=sums["flux"] / norm,
        raw_flux_var=sums["flux_var"] / norm2,
        fwhm_reg=fwhm_reg,
    )


def _combine_fit_results_wavg(
    *""")]),
    ('combine-cols', [(FT, """        for col in ['s2n', 'T', 'T_err', 'T_flags']:
            data[n(col)] = momres[col]
        for col in ['e', 'e_cov']:
            data[n(col.replace('e', 'g'))] = momres[col]
""", """        for out_col, col in (
            ('s2n', 's2n'), ('T', 'T'), ('T_err', 'T_err'), ('T_flags', 'T_flags'),
            ('g', 'e'), ('g_cov', 'e_cov'),
        ):
            data[n(out_col)] = momres[col]
""")]),
    ('combine-orflags', [(FT, """    all_flags = mdet_flags
    for f in flux_flags:
        all_flags |= f
    data[n('flags')] = all_flags
""", """    data[n('flags')] = mdet_flags
    for band_flags in flux_flags:
        data[n('flags')] |= band_flags
""")]),
    ('struct-cols', [(FT, """    data[n('flags')] = procflags.NO_ATTEMPT
    data[n('psf_flags')] = procflags.NO_ATTEMPT
    data[n("obj_flags")] = procflags.NO_ATTEMPT
    data[n("T_flags")] = procflags.NO_ATTEMPT
    data[n("band_flux_flags")] = procflags.NO_ATTEMPT

    for name in data.dtype.names:
        if "flags" not in name:
            # all are float except flags
            data[name] = np.nan
""", """    for name in data.dtype.names:
        if "flags" in name:
            data[name] = procflags.NO_ATTEMPT
        else:
            # all are float except flags
            data[name] = np.nan
""")]),
    ('struct-join', [(FT, """        data["shear_bands"] = "".join("%s" % b for b in sorted(shear_bands))
""", """        data["shear_bands"] = "".join(str(b) for b in sorted(shear_bands))
""")]),
    ('struct-dtype', [(FT, """    if nband > 1:
        dt += [
            (n("band_flux_flags"), 'i4', nband),
            (n("band_flux"), "f8", nband),
            (n("band_flux_err"), "f8", nband),
        ]
    else:
        dt += [
            (n("band_flux_flags"), 'i4'),
            (n("band_flux"), "f8"),
            (n("band_flux_err"), "f8"),
        ]

    dt +=""", """    extra = (nband,) if nband > 1 else ()
    for name, typ in (
        ("band_flux_flags", "i4"), ("band_flux", "f8"), ("band_flux_err", "f8"),
    ):
        dt.append((n(name), typ) + extra)

    dt +=""")]),
    ('sym-any', [(FT, """        new_wgt = obs.weight.copy()
        for k in [1, 2, 3]:
            msk = np.rot90(obs.weight, k=k) <= 0
            new_wgt[msk] = 0

        with sym_obs.writeable():
""", """        bad = np.zeros(obs.weight.shape, dtype=bool)
        for k in range(1, 4):
            bad |= np.rot90(obs.weight, k=k) <= 0
        new_wgt = np.where(bad, 0, obs.weight)

        with sym_obs.writeable():
""")]),
    ('sym-early', [(FT, """    sym_obs = obs.copy()
    if np.any(obs.weight <= 0):
        new_wgt = obs.weight.copy()
        for k in [1, 2, 3]:
            msk = np.rot90(obs.weight, k=k) <= 0
            new_wgt[msk] = 0

        with sym_obs.writeable():
            if not np.any(new_wgt > 0):
                sym_obs.ignore_zero_weight = False
            sym_obs.weight[:, :] = new_wgt

    return sym_obs
""", """    sym_obs = obs.copy()
    weight = obs.weight
    if not np.any(weight <= 0):
        return sym_obs

    new_wgt = weight.copy()
    for k in (1, 2, 3):
        new_wgt[np.rot90(weight, k=k) <= 0] = 0

    with sym_obs.writeable():
        if np.all(new_wgt <= 0):
            sym_obs.ignore_zero_weight = False
        sym_obs.weight[:, :] = new_wgt

    return sym_obs
""")]),
    ('combres-elif', [(FT, """    for _res in all_res:
        if _res is not None:
            if nobj is None:
                nobj = _res.shape[0]
            else:
                if nobj != _res.shape[0]:
                    raise RuntimeError("All fit results must be the same length!")

            if len(dt) == 0:
                dt.extend(_res.dtype.descr)
            else:
                for descr in _res.dtype.descr:
                    if descr[0] not in dupe_cols:
                        dt.append(descr)
        else:
            if nobj is None:
                nobj = 0
            else:
                if nobj != 0:
                    raise RuntimeError(
                        "All fit results must zero length if one is None!"
                    )
""", """    for _res in all_res:
        if _res is None:
            if nobj is None:
                nobj = 0
            elif nobj != 0:
                raise RuntimeError(
                    "All fit results must zero length if one is None!"
                )
            continue

        n = _res.shape[0]
        if nobj is None:
            nobj = n
        elif nobj != n:
            raise RuntimeError("All fit results must be the same length!")

        descr = _res.dtype.descr
        if dt:
            descr = [d for d in descr if d[0] not in dupe_cols]
        dt += descr
""")]),
    ('combres-copy', [(FT, """            for col in _res.dtype.names:
                if col in dupe_cols:
                    if i > 0:
                        if not np.array_equal(res[col], _res[col]):
                            raise RuntimeError(
                                "Inconsistent column values "
                                "for %s when combining results!" % col
                            )
                    else:
                        res[col] = _res[col]
                else:
                    res[col] = _res[col]
""", """            for col in _res.dtype.names:
                if i == 0 or col not in dupe_cols:
                    res[col] = _res[col]
                elif not np.array_equal(res[col], _res[col]):
                    raise RuntimeError(
                        "Inconsistent column values "
                        "for %s when combining results!" % col
                    )
""")]),
    ('combres-tail', [(FT, """    if nobj > 0:
        res = np.zeros(nobj, dtype=dt)
        for i, _res""", """    if nobj <= 0:
        if all(_res is None for _res in all_res):
            return None
        return np.zeros(0, dtype=dt)
    else:
        res = np.zeros(nobj, dtype=dt)
        for i, _res"""), (FT, """        return res
    else:
        if any(_res is not None for _res in all_res):
            return np.zeros(0, dtype=dt)
        else:
            return None
""", """        return res
""")]),
]
