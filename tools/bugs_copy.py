REFS = [('detect.py:44', [('metadetect/detect.py', '    def get_psf(self, iobj, icut):\n        """\n        get an image of the psf\n        """\n        return self.obs.psf.image.copy()\n\n    def get_cutout(self, iobj, icutout, type=\'image\'):\n        """\n', '    def get_psf(self, iobj, icut):\n        """\n        get an image of the psf\n        """\n        return self.obs.psf.image\n\n    def get_cutout(self, iobj, icutout, type=\'image\'):\n        """\n')]), ('detect.py:220', [('metadetect/detect.py', '            weight = obs.weight\n            w = np.where(weight > 0)\n            medw = np.median(weight[w])\n            vars.append(1/medw)\n        return np.array(vars)\n\n    def _set_detim(self):\n\n', '            weight = obs.weight\n            w = np.where(weight > 0)\n            medw = np.median(weight[w])\n            vars.append(1/medw)\n        return np.asarray(vars)\n\n    def _set_detim(self):\n\n')]), ('detect.py:224', [('metadetect/detect.py', '        return np.array(vars)\n\n    def _set_detim(self):\n\n        detim = self.mbobs[0][0].image.copy()\n        detim *= 0\n\n        vars = self._get_image_vars()\n', '        return np.array(vars)\n\n    def _set_detim(self):\n\n        detim = self.mbobs[0][0].image\n        detim *= 0\n\n        vars = self._get_image_vars()\n')]), ('detect.py:328', [('metadetect/detect.py', "                cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]\n            cat['cutout_col'][:, 0] = \\\n                cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]\n\n            psf_cen = (np.array(self.mbobs[0][0].psf.image.shape) - 1)/2\n            cat['psf_cutout_row'][:, 0] = psf_cen[0]\n            cat['psf_cutout_col'][:, 0] = psf_cen[1]\n\n", "                cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]\n            cat['cutout_col'][:, 0] = \\\n                cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]\n\n            psf_cen = (np.asarray(self.mbobs[0][0].psf.image.shape) - 1)/2\n            cat['psf_cutout_row'][:, 0] = psf_cen[0]\n            cat['psf_cutout_col'][:, 0] = psf_cen[1]\n\n")]), ('detect.py:379', [('metadetect/detect.py', "        if bins[-1] != mconf['max_box_size']:\n            bins.append(mconf['max_box_size'])\n\n        bin_inds = np.digitize(box_size, bins, right=True)\n        bins = np.array(bins)\n\n        box_sizes = bins[bin_inds]\n        logger.debug('box sizes: %s' % box_sizes)\n", "        if bins[-1] != mconf['max_box_size']:\n            bins.append(mconf['max_box_size'])\n\n        bin_inds = np.digitize(box_size, bins, right=True)\n        bins = np.asarray(bins)\n\n        box_sizes = bins[bin_inds]\n        logger.debug('box sizes: %s' % box_sizes)\n")]), ('detect.py:525', [('metadetect/detect.py', "            cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]\n        cat['cutout_col'][:, 0] = \\\n            cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]\n\n        psf_cen = (np.array(self.mbobs[0][0].psf.image.shape) - 1)/2\n        cat['psf_cutout_row'][:, 0] = psf_cen[0]\n        cat['psf_cutout_col'][:, 0] = psf_cen[1]\n\n", "            cat['orig_row'][:, 0] - cat['orig_start_row'][:, 0]\n        cat['cutout_col'][:, 0] = \\\n            cat['orig_col'][:, 0] - cat['orig_start_col'][:, 0]\n\n        psf_cen = (np.asarray(self.mbobs[0][0].psf.image.shape) - 1)/2\n        cat['psf_cutout_row'][:, 0] = psf_cen[0]\n        cat['psf_cutout_col'][:, 0] = psf_cen[1]\n\n")]), ('fitting.py:1126', [('metadetect/fitting.py', '        # the flux sum first via T_reg -> T_reg * raw_mom[5]\n        amat = np.eye(6)\n        amat[4, 5] = T_reg\n\n        raw_mom_orig = raw_mom.copy()\n        if np.isnan(raw_mom_orig[0]):\n            raw_mom[0] = 0\n        if np.isnan(raw_mom_orig[1]):\n', '        # the flux sum first via T_reg -> T_reg * raw_mom[5]\n        amat = np.eye(6)\n        amat[4, 5] = T_reg\n\n        raw_mom_orig = raw_mom\n        if np.isnan(raw_mom_orig[0]):\n            raw_mom[0] = 0\n        if np.isnan(raw_mom_orig[1]):\n')]), ('fitting.py:1216', [('metadetect/fitting.py', '            all_wgts=all_wgts,\n            all_flags=all_flags,\n            all_wgt_res=None,\n        )\n        mdet_flags = copy.copy(sum_data["final_flags"])\n\n        psf_sum_data = _sum_bands_wavg(\n            all_res=all_psf_res,\n', '            all_wgts=all_wgts,\n            all_flags=all_flags,\n            all_wgt_res=None,\n        )\n        mdet_flags = (sum_data["final_flags"])\n\n        psf_sum_data = _sum_bands_wavg(\n            all_res=all_psf_res,\n')]), ('fitting.py:1225', [('metadetect/fitting.py', '            all_wgts=all_wgts,\n            all_flags=all_flags,\n            all_wgt_res=all_res,\n        )\n        psf_flags = copy.copy(psf_sum_data["final_flags"])\n\n        if (\n            sum_data["final_flags"] == 0\n', '            all_wgts=all_wgts,\n            all_flags=all_flags,\n            all_wgt_res=all_res,\n        )\n        psf_flags = (psf_sum_data["final_flags"])\n\n        if (\n            sum_data["final_flags"] == 0\n')]), ('fitting.py:1307', [('metadetect/fitting.py', "    if psf_flags != 0:\n        mdet_flags |= procflags.PSF_FAILURE\n\n    if tot_nband > 1:\n        data[n('band_flux')] = np.array(band_flux)\n        data[n('band_flux_err')] = np.array(band_flux_err)\n        data[n('band_flux_flags')] = np.array(flux_flags)\n    elif tot_nband == 1:\n", "    if psf_flags != 0:\n        mdet_flags |= procflags.PSF_FAILURE\n\n    if tot_nband > 1:\n        data[n('band_flux')] = np.asarray(band_flux)\n        data[n('band_flux_err')] = np.array(band_flux_err)\n        data[n('band_flux_flags')] = np.array(flux_flags)\n    elif tot_nband == 1:\n")]), ('fitting.py:1308', [('metadetect/fitting.py', "        mdet_flags |= procflags.PSF_FAILURE\n\n    if tot_nband > 1:\n        data[n('band_flux')] = np.array(band_flux)\n        data[n('band_flux_err')] = np.array(band_flux_err)\n        data[n('band_flux_flags')] = np.array(flux_flags)\n    elif tot_nband == 1:\n        data[n('band_flux')] = band_flux[0]\n", "        mdet_flags |= procflags.PSF_FAILURE\n\n    if tot_nband > 1:\n        data[n('band_flux')] = np.array(band_flux)\n        data[n('band_flux_err')] = np.asarray(band_flux_err)\n        data[n('band_flux_flags')] = np.array(flux_flags)\n    elif tot_nband == 1:\n        data[n('band_flux')] = band_flux[0]\n")]), ('fitting.py:1309', [('metadetect/fitting.py', "\n    if tot_nband > 1:\n        data[n('band_flux')] = np.array(band_flux)\n        data[n('band_flux_err')] = np.array(band_flux_err)\n        data[n('band_flux_flags')] = np.array(flux_flags)\n    elif tot_nband == 1:\n        data[n('band_flux')] = band_flux[0]\n        data[n('band_flux_err')] = band_flux_err[0]\n", "\n    if tot_nband > 1:\n        data[n('band_flux')] = np.array(band_flux)\n        data[n('band_flux_err')] = np.array(band_flux_err)\n        data[n('band_flux_flags')] = np.asarray(flux_flags)\n    elif tot_nband == 1:\n        data[n('band_flux')] = band_flux[0]\n        data[n('band_flux_err')] = band_flux_err[0]\n")]), ('fitting.py:1428', [('metadetect/fitting.py', '    -------\n    sym_obs : ngmix.Observation\n        A copy of the input observation with a symmetrized weight map.\n    """\n    sym_obs = obs.copy()\n    if np.any(obs.weight <= 0):\n        new_wgt = obs.weight.copy()\n        for k in [1, 2, 3]:\n', '    -------\n    sym_obs : ngmix.Observation\n        A copy of the input observation with a symmetrized weight map.\n    """\n    sym_obs = obs\n    if np.any(obs.weight <= 0):\n        new_wgt = obs.weight.copy()\n        for k in [1, 2, 3]:\n')]), ('fitting.py:1430', [('metadetect/fitting.py', '        A copy of the input observation with a symmetrized weight map.\n    """\n    sym_obs = obs.copy()\n    if np.any(obs.weight <= 0):\n        new_wgt = obs.weight.copy()\n        for k in [1, 2, 3]:\n            msk = np.rot90(obs.weight, k=k) <= 0\n            new_wgt[msk] = 0\n', '        A copy of the input observation with a symmetrized weight map.\n    """\n    sym_obs = obs.copy()\n    if np.any(obs.weight <= 0):\n        new_wgt = obs.weight\n        for k in [1, 2, 3]:\n            msk = np.rot90(obs.weight, k=k) <= 0\n            new_wgt[msk] = 0\n')]), ('interpolate.py:160', [('metadetect/interpolate.py', '\n    nbad = bad_msk.sum()\n    if nbad == 0:\n        # the interpolator cannot be built without points\n        return image.copy()\n\n    bm_frac = nbad/npix\n    if bm_frac <= maxfrac and nbad < npix:\n', '\n    nbad = bad_msk.sum()\n    if nbad == 0:\n        # the interpolator cannot be built without points\n        return image\n\n    bm_frac = nbad/npix\n    if bm_frac <= maxfrac and nbad < npix:\n')]), ('interpolate.py:164', [('metadetect/interpolate.py', '        return image.copy()\n\n    bm_frac = nbad/npix\n    if bm_frac <= maxfrac and nbad < npix:\n        interp_image = image.copy()\n\n        bad_ind, bad_iso, _good_ind = _get_nearby_good_pixels(\n            bad_msk, nbad, buff, iso_buff,\n', '        return image.copy()\n\n    bm_frac = nbad/npix\n    if bm_frac <= maxfrac and nbad < npix:\n        interp_image = image\n\n        bad_ind, bad_iso, _good_ind = _get_nearby_good_pixels(\n            bad_msk, nbad, buff, iso_buff,\n')]), ('interpolate.py:189', [('metadetect/interpolate.py', '\n            msk = bad_iso == 1\n            if np.any(msk):\n                # mark them as ok pixels\n                bad_msk = bad_msk.copy()\n                bad_msk[bad_yx[0][msk], bad_yx[1][msk]] = False\n\n                # keep the ones we have to fill\n', '\n            msk = bad_iso == 1\n            if np.any(msk):\n                # mark them as ok pixels\n                bad_msk = bad_msk\n                bad_msk[bad_yx[0][msk], bad_yx[1][msk]] = False\n\n                # keep the ones we have to fill\n')]), ('interpolate.py:210', [('metadetect/interpolate.py', '                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = rng.normal(\n                    size=shape, scale=1.0/np.sqrt(weight)\n                )\n\n        good_pix = np.array(good_yx).T\n        bad_pix = np.array(bad_yx).T\n        good_im = interp_image[good_yx[0], good_yx[1]]\n        img_interp = CloughTocher2DInterpolator(\n', '                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = rng.normal(\n                    size=shape, scale=1.0/np.sqrt(weight)\n                )\n\n        good_pix = np.asarray(good_yx).T\n        bad_pix = np.array(bad_yx).T\n        good_im = interp_image[good_yx[0], good_yx[1]]\n        img_interp = CloughTocher2DInterpolator(\n')]), ('interpolate.py:211', [('metadetect/interpolate.py', '                    size=shape, scale=1.0/np.sqrt(weight)\n                )\n\n        good_pix = np.array(good_yx).T\n        bad_pix = np.array(bad_yx).T\n        good_im = interp_image[good_yx[0], good_yx[1]]\n        img_interp = CloughTocher2DInterpolator(\n            good_pix,\n', '                    size=shape, scale=1.0/np.sqrt(weight)\n                )\n\n        good_pix = np.array(good_yx).T\n        bad_pix = np.asarray(bad_yx).T\n        good_im = interp_image[good_yx[0], good_yx[1]]\n        img_interp = CloughTocher2DInterpolator(\n            good_pix,\n')]), ('lsst/configs.py:21', [('metadetect/lsst/configs.py', '    -------\n    Full config\n    """\n\n    new_config = deepcopy(DEFAULT_MDET_CONFIG)\n\n    if config is not None:\n        for key in config:\n', '    -------\n    Full config\n    """\n\n    new_config = (DEFAULT_MDET_CONFIG)\n\n    if config is not None:\n        for key in config:\n')]), ('lsst/defaults.py:34', [('metadetect/lsst/defaults.py', "# programatically based on the measurement_type\nDEFAULT_MDET_CONFIG = {\n    'subtract_sky': DEFAULT_SUBTRACT_SKY,\n    'deblender': 'sdss',\n    'detect': deepcopy(DEFAULT_DETECT_CONFIG),\n    'metacal': deepcopy(DEFAULT_METACAL_CONFIG),\n    'pgauss': deepcopy(DEFAULT_PGAUSS_CONFIG),\n    'stamp_size': DEFAULT_STAMP_SIZE,\n", "# programatically based on the measurement_type\nDEFAULT_MDET_CONFIG = {\n    'subtract_sky': DEFAULT_SUBTRACT_SKY,\n    'deblender': 'sdss',\n    'detect': (DEFAULT_DETECT_CONFIG),\n    'metacal': deepcopy(DEFAULT_METACAL_CONFIG),\n    'pgauss': deepcopy(DEFAULT_PGAUSS_CONFIG),\n    'stamp_size': DEFAULT_STAMP_SIZE,\n")]), ('lsst/defaults.py:35', [('metadetect/lsst/defaults.py', "DEFAULT_MDET_CONFIG = {\n    'subtract_sky': DEFAULT_SUBTRACT_SKY,\n    'deblender': 'sdss',\n    'detect': deepcopy(DEFAULT_DETECT_CONFIG),\n    'metacal': deepcopy(DEFAULT_METACAL_CONFIG),\n    'pgauss': deepcopy(DEFAULT_PGAUSS_CONFIG),\n    'stamp_size': DEFAULT_STAMP_SIZE,\n    'shear_bands': None,\n", "DEFAULT_MDET_CONFIG = {\n    'subtract_sky': DEFAULT_SUBTRACT_SKY,\n    'deblender': 'sdss',\n    'detect': deepcopy(DEFAULT_DETECT_CONFIG),\n    'metacal': (DEFAULT_METACAL_CONFIG),\n    'pgauss': deepcopy(DEFAULT_PGAUSS_CONFIG),\n    'stamp_size': DEFAULT_STAMP_SIZE,\n    'shear_bands': None,\n")]), ('lsst/defaults.py:36', [('metadetect/lsst/defaults.py', "    'subtract_sky': DEFAULT_SUBTRACT_SKY,\n    'deblender': 'sdss',\n    'detect': deepcopy(DEFAULT_DETECT_CONFIG),\n    'metacal': deepcopy(DEFAULT_METACAL_CONFIG),\n    'pgauss': deepcopy(DEFAULT_PGAUSS_CONFIG),\n    'stamp_size': DEFAULT_STAMP_SIZE,\n    'shear_bands': None,\n}\n", "    'subtract_sky': DEFAULT_SUBTRACT_SKY,\n    'deblender': 'sdss',\n    'detect': deepcopy(DEFAULT_DETECT_CONFIG),\n    'metacal': deepcopy(DEFAULT_METACAL_CONFIG),\n    'pgauss': (DEFAULT_PGAUSS_CONFIG),\n    'stamp_size': DEFAULT_STAMP_SIZE,\n    'shear_bands': None,\n}\n")]), ('lsst/measure.py:294', [('metadetect/lsst/measure.py', '    -------\n    sources, detexp\n        The sources and the detection exposure\n    """\n    config_override = deepcopy(config) if config is not None else {}\n    if thresh:\n        if \'detect\' not in config_override:\n            config_override[\'detect\'] = {}\n', '    -------\n    sources, detexp\n        The sources and the detection exposure\n    """\n    config_override = (config) if config is not None else {}\n    if thresh:\n        if \'detect\' not in config_override:\n            config_override[\'detect\'] = {}\n')]), ('lsst/metacal_exposures.py:186', [('metadetect/lsst/metacal_exposures.py', '\n    psf_image_array = get_psf_kernel_image(exp=exp, cen=cen)\n    psf_flux = psf_image_array.sum()\n\n    eimage = exp.image.array.copy()\n    if rot:\n        eimage = np.rot90(eimage, k=1)\n\n', '\n    psf_image_array = get_psf_kernel_image(exp=exp, cen=cen)\n    psf_flux = psf_image_array.sum()\n\n    eimage = exp.image.array\n    if rot:\n        eimage = np.rot90(eimage, k=1)\n\n')]), ('lsst/metacal_exposures.py:218', [('metadetect/lsst/metacal_exposures.py', "\n    dilation = 1.0 + 2.0 * STEP\n    psf_dilated = gauss_psf.dilate(dilation)\n\n    psf_dilated_image = psf_image.copy()\n    psf_dilated.drawImage(image=psf_dilated_image, method='no_pixel')\n\n    mdict = {}\n", "\n    dilation = 1.0 + 2.0 * STEP\n    psf_dilated = gauss_psf.dilate(dilation)\n\n    psf_dilated_image = psf_image\n    psf_dilated.drawImage(image=psf_dilated_image, method='no_pixel')\n\n    mdict = {}\n")]), ('lsst/metacal_exposures.py:244', [('metadetect/lsst/metacal_exposures.py', "    else:\n        shear = get_shear_from_type(shear_type)\n        obj = image_int_nopsf.shear(shear)\n\n    shimage = image.copy()\n    galsim.Convolve(obj, psf_dilated).drawImage(\n        image=shimage, method='no_pixel',\n    )\n", "    else:\n        shear = get_shear_from_type(shear_type)\n        obj = image_int_nopsf.shear(shear)\n\n    shimage = image\n    galsim.Convolve(obj, psf_dilated).drawImage(\n        image=shimage, method='no_pixel',\n    )\n")]), ('lsst/metadetect.py:416', [('metadetect/lsst/metadetect.py', '        if sub_mfrac.size == 0:\n            mfracs.append(1.0)\n        else:\n            cy, cx = (y[i] - ystart, x[i] - xstart)\n            this_jac = jac.copy()\n            this_jac.set_cen(row=cy, col=cx)\n\n            obs = ngmix.Observation(\n', '        if sub_mfrac.size == 0:\n            mfracs.append(1.0)\n        else:\n            cy, cx = (y[i] - ystart, x[i] - xstart)\n            this_jac = jac\n            this_jac.set_cen(row=cy, col=cx)\n\n            obs = ngmix.Observation(\n')]), ('lsst/metadetect.py:430', [('metadetect/lsst/metadetect.py', '            # this is the weighted average in the image using the\n            # Gaussian as the weight.\n            mfracs.append(stats["sums"][5] / stats["wsum"])\n\n    return np.array(mfracs)\n\n\ndef add_ormask(ormask, res):\n', '            # this is the weighted average in the image using the\n            # Gaussian as the weight.\n            mfracs.append(stats["sums"][5] / stats["wsum"])\n\n    return np.asarray(mfracs)\n\n\ndef add_ormask(ormask, res):\n')]), ('lsst/metadetect.py:475', [('metadetect/lsst/metadetect.py', "        ormask = np.zeros(dims, dtype='i4')\n    else:\n        for imask, tormask in enumerate(ormasks):\n            if imask == 0:\n                ormask = tormask.copy()\n            else:\n                ormask |= tormask\n\n", "        ormask = np.zeros(dims, dtype='i4')\n    else:\n        for imask, tormask in enumerate(ormasks):\n            if imask == 0:\n                ormask = tormask\n            else:\n                ormask |= tormask\n\n")]), ('lsst/metadetect.py:609', [('metadetect/lsst/metadetect.py', '            jac = util.get_jacobian(exp=exp, cen=cen)\n\n            psf_im = util.extract_psf_image(exp, cen)\n\n            psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0\n            psf_jacob = jac.copy()\n            psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n', '            jac = util.get_jacobian(exp=exp, cen=cen)\n\n            psf_im = util.extract_psf_image(exp, cen)\n\n            psf_cen = (np.asarray(psf_im.shape) - 1.0) / 2.0\n            psf_jacob = jac.copy()\n            psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n')]), ('lsst/metadetect.py:610', [('metadetect/lsst/metadetect.py', '\n            psf_im = util.extract_psf_image(exp, cen)\n\n            psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0\n            psf_jacob = jac.copy()\n            psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n            psf_obs = ngmix.Observation(\n', '\n            psf_im = util.extract_psf_image(exp, cen)\n\n            psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0\n            psf_jacob = jac\n            psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n            psf_obs = ngmix.Observation(\n')]), ('lsst/model_subtractor.py:335', [('metadetect/lsst/model_subtractor.py', '\n        exposures = []\n        for band in self.bands:\n            im = heavy[band].extractImage()\n            masked_im = afw_image.MaskedImageF(im.clone())\n            exp = afw_image.ExposureF(masked_im)\n            exp.setFilter(afw_image.FilterLabel(band))\n            exposures.append(exp)\n', '\n        exposures = []\n        for band in self.bands:\n            im = heavy[band].extractImage()\n            masked_im = afw_image.MaskedImageF(im)\n            exp = afw_image.ExposureF(masked_im)\n            exp.setFilter(afw_image.FilterLabel(band))\n            exposures.append(exp)\n')]), ('lsst/skysub.py:147', [('metadetect/lsst/skysub.py', '        The exposures to process\n    thresh: float\n        Threshold for detection\n    """\n    config_override = deepcopy(config) if config is not None else {}\n\n    if thresh:\n        if \'iterate_detection_and_skysub\' not in config_override:\n', '        The exposures to process\n    thresh: float\n        Threshold for detection\n    """\n    config_override = (config) if config is not None else {}\n\n    if thresh:\n        if \'iterate_detection_and_skysub\' not in config_override:\n')]), ('lsst/skysub.py:192', [('metadetect/lsst/skysub.py', '    """\n    if niter < 1:\n        raise ValueError(f\'niter {niter} is less than 1\')\n\n    config_override = deepcopy(config) if config is not None else {}\n\n    # set threshold\n    if \'detect\' not in config_override:\n', '    """\n    if niter < 1:\n        raise ValueError(f\'niter {niter} is less than 1\')\n\n    config_override = (config) if config is not None else {}\n\n    # set threshold\n    if \'detect\' not in config_override:\n')]), ('lsst/util.py:433', [('metadetect/lsst/util.py', '    -------\n    lsst.afw.image.MultibandExposure\n    """\n\n    new_mbexp = mbexp.clone()\n\n    # clone does not copy the psfs\n    for band in mbexp.bands:\n', '    -------\n    lsst.afw.image.MultibandExposure\n    """\n\n    new_mbexp = mbexp\n\n    # clone does not copy the psfs\n    for band in mbexp.bands:\n')]), ('lsst/util.py:455', [('metadetect/lsst/util.py', '    """\n    try to clone it, if not return a reference\n    """\n    try:\n        new_psf = psf.clone()\n    except RuntimeError:\n        # this happens on some psfs, not sure why\n        # proceed without a copy\n', '    """\n    try to clone it, if not return a reference\n    """\n    try:\n        new_psf = psf\n    except RuntimeError:\n        # this happens on some psfs, not sure why\n        # proceed without a copy\n')]), ('lsst/util.py:485', [('metadetect/lsst/util.py', '\n    for i, exp in enumerate(exposures):\n        shape = exp.image.array.shape\n\n        ycen, xcen = (np.array(shape) - 1) / 2\n        cen = geom.Point2D(xcen, ycen)\n\n        psfobj = exp.getPsf()\n', '\n    for i, exp in enumerate(exposures):\n        shape = exp.image.array.shape\n\n        ycen, xcen = (np.asarray(shape) - 1) / 2\n        cen = geom.Point2D(xcen, ycen)\n\n        psfobj = exp.getPsf()\n')]), ('lsst/util.py:497', [('metadetect/lsst/util.py', "            coadd_exp.image.array[:, :] = 0.0\n\n            weight = np.zeros(shape, dtype='f4')\n\n            psf_im = this_psfim.copy()\n            psf_im[:, :] = 0\n\n        coadd_exp.mask.array |= exp.mask.array\n", "            coadd_exp.image.array[:, :] = 0.0\n\n            weight = np.zeros(shape, dtype='f4')\n\n            psf_im = this_psfim\n            psf_im[:, :] = 0\n\n        coadd_exp.mask.array |= exp.mask.array\n")]), ('lsst/util.py:641', [('metadetect/lsst/util.py', "        logger.debug('original dims: %s' % str(dims))\n        assert dims[0] % 2 != 0, 'image must have odd dims'\n        assert dims[1] % 2 != 0, 'image must have odd dims'\n\n        dims = np.array(dims)\n        cen = (dims - 1) // 2\n        cen = cen.astype('i4')\n\n", "        logger.debug('original dims: %s' % str(dims))\n        assert dims[0] % 2 != 0, 'image must have odd dims'\n        assert dims[1] % 2 != 0, 'image must have odd dims'\n\n        dims = np.asarray(dims)\n        cen = (dims - 1) // 2\n        cen = cen.astype('i4')\n\n")]), ('lsst/util.py:663', [('metadetect/lsst/util.py', "        # adding +1 for slices\n        new_im = im[\n            start_row: end_row + 1,\n            start_col: end_col + 1,\n        ].copy()\n\n        logger.debug('new dims: %s' % str(new_im.shape))\n\n", "        # adding +1 for slices\n        new_im = im[\n            start_row: end_row + 1,\n            start_col: end_col + 1,\n        ]\n\n        logger.debug('new dims: %s' % str(new_im.shape))\n\n")]), ('lsst/util.py:789', [('metadetect/lsst/util.py', "    psf_image = psf_obj.computeKernelImage(cen).array\n\n    assert psf_image.shape[0] == psf_image.shape[1], 'psf is not square'\n    assert psf_image.shape[0] % 2 != 0, 'psf dims are not odd'\n    psf_cen = (np.array(psf_image.shape) - 1.0) / 2.0\n\n    psf_jac = jac.copy()\n    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])\n", "    psf_image = psf_obj.computeKernelImage(cen).array\n\n    assert psf_image.shape[0] == psf_image.shape[1], 'psf is not square'\n    assert psf_image.shape[0] % 2 != 0, 'psf dims are not odd'\n    psf_cen = (np.asarray(psf_image.shape) - 1.0) / 2.0\n\n    psf_jac = jac.copy()\n    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])\n")]), ('lsst/util.py:791', [('metadetect/lsst/util.py', "    assert psf_image.shape[0] == psf_image.shape[1], 'psf is not square'\n    assert psf_image.shape[0] % 2 != 0, 'psf dims are not odd'\n    psf_cen = (np.array(psf_image.shape) - 1.0) / 2.0\n\n    psf_jac = jac.copy()\n    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n    psf_err = psf_image.max() * 0.0001\n", "    assert psf_image.shape[0] == psf_image.shape[1], 'psf is not square'\n    assert psf_image.shape[0] % 2 != 0, 'psf dims are not odd'\n    psf_cen = (np.array(psf_image.shape) - 1.0) / 2.0\n\n    psf_jac = jac\n    psf_jac.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n    psf_err = psf_image.max() * 0.0001\n")]), ('lsst/util.py:983', [('metadetect/lsst/util.py', "        exp = coadd_data['coadd_exp']\n        noise_exp = coadd_data['coadd_noise_exp']\n        mfrac_exp = coadd_data['coadd_mfrac_exp']\n\n        ormasks.append(exp.mask.array.copy())\n        exp.mask.array[:, :] = 0\n        noise_exp.mask.array[:, :] = 0\n        mfrac_exp.mask.array[:, :] = 0\n", "        exp = coadd_data['coadd_exp']\n        noise_exp = coadd_data['coadd_noise_exp']\n        mfrac_exp = coadd_data['coadd_mfrac_exp']\n\n        ormasks.append(exp.mask.array)\n        exp.mask.array[:, :] = 0\n        noise_exp.mask.array[:, :] = 0\n        mfrac_exp.mask.array[:, :] = 0\n")]), ('lsst/util.py:1044', [('metadetect/lsst/util.py', '    psf_err = psf_im.max() * 0.0001\n    psf_wt = psf_im * 0 + 1.0 / psf_err**2\n\n    # use canonical center for the psf\n    psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0\n    psf_jacob = jacob.copy()\n    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n', '    psf_err = psf_im.max() * 0.0001\n    psf_wt = psf_im * 0 + 1.0 / psf_err**2\n\n    # use canonical center for the psf\n    psf_cen = (np.asarray(psf_im.shape) - 1.0) / 2.0\n    psf_jacob = jacob.copy()\n    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n')]), ('lsst/util.py:1045', [('metadetect/lsst/util.py', '    psf_wt = psf_im * 0 + 1.0 / psf_err**2\n\n    # use canonical center for the psf\n    psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0\n    psf_jacob = jacob.copy()\n    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n    # we will have need of the bit names which we can only\n', '    psf_wt = psf_im * 0 + 1.0 / psf_err**2\n\n    # use canonical center for the psf\n    psf_cen = (np.array(psf_im.shape) - 1.0) / 2.0\n    psf_jacob = jacob\n    psf_jacob.set_cen(row=psf_cen[0], col=psf_cen[1])\n\n    # we will have need of the bit names which we can only\n')]), ('lsst/util.py:1166', [('metadetect/lsst/util.py', '\n    # TODO implement bit checking\n    var_image = exp.variance.array\n\n    weight = var_image.copy()\n\n    weight[:, :] = 0\n\n', '\n    # TODO implement bit checking\n    var_image = exp.variance.array\n\n    weight = var_image\n\n    weight[:, :] = 0\n\n')]), ('metadetect.py:199', [('metadetect/metadetect.py', '\n            obs = obslist[0]\n\n            if band == 0:\n                ormask = obs.ormask.copy()\n                bmask = obs.bmask.copy()\n            else:\n                ormask |= obs.ormask\n', '\n            obs = obslist[0]\n\n            if band == 0:\n                ormask = obs.ormask\n                bmask = obs.bmask.copy()\n            else:\n                ormask |= obs.ormask\n')]), ('metadetect.py:200', [('metadetect/metadetect.py', '            obs = obslist[0]\n\n            if band == 0:\n                ormask = obs.ormask.copy()\n                bmask = obs.bmask.copy()\n            else:\n                ormask |= obs.ormask\n                bmask |= obs.bmask\n', '            obs = obslist[0]\n\n            if band == 0:\n                ormask = obs.ormask.copy()\n                bmask = obs.bmask\n            else:\n                ormask |= obs.ormask\n                bmask |= obs.bmask\n')]), ('metadetect.py:885', [('metadetect/metadetect.py', '    """\n    clip values and round to nearest integer\n    """\n\n    vals = vals_in.copy()\n\n    np.rint(vals, out=vals)\n    vals.clip(min=0, max=dim-1, out=vals)\n', '    """\n    clip values and round to nearest integer\n    """\n\n    vals = vals_in\n\n    np.rint(vals, out=vals)\n    vals.clip(min=0, max=dim-1, out=vals)\n')]), ('mfrac.py:51', [('metadetect/mfrac.py', '    """\n    if fwhm is None:\n        fwhm = 1.2\n\n    obs = obs.copy()\n    obs.set_image(mfrac)\n\n    gauss_wgt = ngmix.GMixModel(\n', '    """\n    if fwhm is None:\n        fwhm = 1.2\n\n    obs = obs\n    obs.set_image(mfrac)\n\n    gauss_wgt = ngmix.GMixModel(\n')]), ('mfrac.py:68', [('metadetect/mfrac.py', '    for i in range(x.shape[0]):\n        try:\n            if box_sizes[i] > 0:\n                obs = m.get_obs(i, 0)\n                wgt = obs.weight.copy()\n                msk = (obs.bmask & BMASK_EDGE) != 0\n                wgt[msk] = 0\n                wgt[~msk] = 1\n', '    for i in range(x.shape[0]):\n        try:\n            if box_sizes[i] > 0:\n                obs = m.get_obs(i, 0)\n                wgt = obs.weight\n                msk = (obs.bmask & BMASK_EDGE) != 0\n                wgt[msk] = 0\n                wgt[~msk] = 1\n')]), ('mfrac.py:86', [('metadetect/mfrac.py', '                mfracs.append(1.0)\n        except ngmix.GMixFatalError:\n            mfracs.append(1.0)\n\n    return np.array(mfracs)\n', '                mfracs.append(1.0)\n        except ngmix.GMixFatalError:\n            mfracs.append(1.0)\n\n    return np.asarray(mfracs)\n')])]
