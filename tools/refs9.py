"""Behaviour-preserving edits of detect.py, masking.py, interpolate.py and mfrac.py"""
DE = 'metadetect/detect.py'
MA = 'metadetect/masking.py'
IN = 'metadetect/interpolate.py'
MF = 'metadetect/mfrac.py'
REFS = [
    ('d9-cutout-full', [(DE, """        subim = np.zeros((bsize, bsize), dtype=im.dtype)
        subim += defaults.DEFAULT_IMAGE_VALUES[type]
""", """        fill = defaults.DEFAULT_IMAGE_VALUES[type]
        subim = np.zeros((bsize, bsize), dtype=im.dtype)
        subim[:, :] = fill
""")]),
    ('d9-cutout-unpack', [(DE, """        orow_box, row_box = self._get_clipped_boxes(dims[0], orow, bsize)
        ocol_box, col_box = self._get_clipped_boxes(dims[1], ocol, bsize)

        read_im = im[orow_box[0]:orow_box[1],
                     ocol_box[0]:ocol_box[1]]
""", """        (orow0, orow1), row_box = self._get_clipped_boxes(dims[0], orow, bsize)
        (ocol0, ocol1), col_box = self._get_clipped_boxes(dims[1], ocol, bsize)

        read_im = im[orow0:orow1, ocol0:ocol1]
""")]),
    ('d9-cutout-slices', [(DE, """        read_im = im[orow_box[0]:orow_box[1],
                     ocol_box[0]:ocol_box[1]]
""", """        oslice = (slice(orow_box[0], orow_box[1]), slice(ocol_box[0], ocol_box[1]))
        read_im = im[oslice]
""")]),
    ('d9-cutout-nrow', [(DE, """        dims = im.shape

        c = self._cat
""", """        nrow, ncol = im.shape

        c = self._cat
"""), (DE, "self._get_clipped_boxes(dims[0], orow, bsize)", "self._get_clipped_boxes(nrow, orow, bsize)"),
                        (DE, "self._get_clipped_boxes(dims[1], ocol, bsize)", "self._get_clipped_boxes(ncol, ocol, bsize)")]),
    ('d9-type-dict', [(DE, """        if type == 'image':
            data = self.obs.image
        elif type == 'weight':
            data = self.obs.weight
        elif type == 'bmask':
            data = self.obs.bmask
        elif type == 'noise':
            data = self.obs.noise
        elif type == 'seg':
            data = self.seg

        return data
""", """        if type == 'seg':
            return self.seg

        return getattr(self.obs, type)
""")]),
    ('d9-type-return', [(DE, """        if type == 'image':
            data = self.obs.image
        elif type == 'weight':
            data = self.obs.weight
        elif type == 'bmask':
            data = self.obs.bmask
        elif type == 'noise':
            data = self.obs.noise
        elif type == 'seg':
            data = self.seg

        return data
""", """        obs = self.obs
        if type == 'image':
            return obs.image
        if type == 'weight':
            return obs.weight
        if type == 'bmask':
            return obs.bmask
        if type == 'noise':
            return obs.noise

        return self.seg
""")]),
    ('d9-clip-min', [(DE, """        im_max = dim
        diff = im_max - obox[1]
        if diff < 0:
            obox[1] = im_max
            box[1] = box[1] + diff
""", """        over = obox[1] - dim
        if over > 0:
            obox[1] = dim
            box[1] -= over
""")]),
    ('d9-clip-scalars', [(DE, """        obox = [start, start+bsize]

        # slice range in the sub image into which we will copy
        box = [0, bsize]

        # rows
        if obox[0] < 0:
            obox[0] = 0
            box[0] = 0 - start

        im_max = dim
        diff = im_max - obox[1]
        if diff < 0:
            obox[1] = im_max
            box[1] = box[1] + diff

        return obox, box
""", """        ostart, oend = start, start + bsize

        # slice range in the sub image into which we will copy
        bstart, bend = 0, bsize

        if ostart < 0:
            ostart = 0
            bstart = -start

        if oend > dim:
            bend = bend + (dim - oend)
            oend = dim

        return [ostart, oend], [bstart, bend]
""")]),
    ('d9-mbmeds-comp', [(DE, """        mlist = []
        for band in range(self.nband):
            m = self.get_meds(band)
            mlist.append(m)

        return MultiBandNGMixMEDS(mlist)
""", """        return MultiBandNGMixMEDS(
            [self.get_meds(band) for band in range(self.nband)]
        )
""")]),
    ('d9-meds-inline', [(DE, """        obslist = self.mbobs[band]
        obs = obslist[0]
        return MEDSInterface(
            obs=obs,
            seg=self.seg,
            cat=self.cat,
        )
""", """        return MEDSInterface(
            obs=self.mbobs[band][0], seg=self.seg, cat=self.cat,
        )
""")]),
    ('d9-meds-positional', [(DE, """        return MEDSInterface(
            obs=obs,
            seg=self.seg,
            cat=self.cat,
        )
""", """        meds = MEDSInterface(obs, self.seg, self.cat)
        return meds
""")]),
    ('d9-vars-comp', [(DE, """        vars = []
        for obslist in self.mbobs:
            obs = obslist[0]
            weight = obs.weight
            w = np.where(weight > 0)
            medw = np.median(weight[w])
            vars.append(1/medw)
        return np.array(vars)
""", """        medians = [
            np.median(obslist[0].weight[obslist[0].weight > 0])
            for obslist in self.mbobs
        ]
        return np.array([1/med for med in medians])
""")]),
    ('d9-vars-mask', [(DE, """            weight = obs.weight
            w = np.where(weight > 0)
            medw = np.median(weight[w])
            vars.append(1/medw)
""", """            good = obs.weight > 0
            vars.append(1.0/np.median(obs.weight[good]))
""")]),
    ('d9-detim-zip', [(DE, """        for i, obslist in enumerate(self.mbobs):
            obs = obslist[0]
            detim += obs.image*weights[i]
            if obs.has_bmask():
""", """        for wgt, obslist in zip(weights, self.mbobs):
            obs = obslist[0]
            detim += wgt*obs.image
            if obs.has_bmask():
""")]),
    ('d9-detim-zeros', [(DE, """        vars = self._get_image_vars()
        weights = 1.0/vars
        wsum = weights.sum()
        detnoise = np.sqrt(1/wsum)

        weights /= wsum
""", """        weights = 1.0/self._get_image_vars()
        wsum = np.sum(weights)
        detnoise = np.sqrt(1.0/wsum)
        weights = weights/wsum
""")]),
    ('d9-detim-two-loops', [(DE, """        for i, obslist in enumerate(self.mbobs):
            obs = obslist[0]
            detim += obs.image*weights[i]
            if obs.has_bmask():
                mask |= (obs.bmask & self.nodet_flags != 0)
""", """        for i, obslist in enumerate(self.mbobs):
            detim += obslist[0].image*weights[i]

        for obslist in self.mbobs:
            obs = obslist[0]
            if not obs.has_bmask():
                continue
            mask |= (obs.bmask & self.nodet_flags) != 0
""")]),
    ('d9-detim-attrs', [(DE, """        mask = np.zeros(detim.shape, dtype=bool)
""", """        mask = np.zeros_like(detim, dtype=bool)
"""), (DE, """        self.detim = detim
        self.detnoise = detnoise
        self.detmask = mask
""", """        self.detmask = mask
        self.detim = detim
        self.detnoise = detnoise
""")]),
    ('d9-sep-early', [(DE, """        if cat.size > 0:

            box_size = self._get_box_sizes(cat)

            half_box_size = box_size//2

            maxrow, maxcol = self.detim.shape

            cat['box_size'] = box_size
""", """        if cat.size != 0:

            maxrow = self.detim.shape[0]
            maxcol = self.detim.shape[1]
            box_size = self._get_box_sizes(cat)
            cat['box_size'] = box_size

            half_box_size = box_size//2
""")]),
    ('d9-sep-jacobian', [(DE, """        cat['iso_radius_arcsec'] = (
            cat['iso_radius'] * self.mbobs[0][0].jacobian.get_scale()
        )
""", """        cat['iso_radius_arcsec'] = jacob.get_scale() * cat['iso_radius']
""")]),
    ('d9-sep-clip-new', [(DE, """            ostart_row = orow - half_box_size + 1
            ostart_col = ocol - half_box_size + 1
            oend_row = orow + half_box_size + 1  # plus one for slices
            oend_col = ocol + half_box_size + 1

            ostart_row.clip(min=0, out=ostart_row)
            ostart_col.clip(min=0, out=ostart_col)
            oend_row.clip(max=maxrow, out=oend_row)
            oend_col.clip(max=maxcol, out=oend_col)

            # could result in smaller than box_size above
            cat['orig_start_row'][:, 0] = ostart_row
            cat['orig_start_col'][:, 0] = ostart_col
            cat['orig_end_row'][:, 0] = oend_row
            cat['orig_end_col'][:, 0] = oend_col
            cat['cutout""", """            # could result in smaller than box_size above
            cat['orig_start_row'][:, 0] = (orow - half_box_size + 1).clip(min=0)
            cat['orig_start_col'][:, 0] = (ocol - half_box_size + 1).clip(min=0)
            # plus one for slices
            cat['orig_end_row'][:, 0] = (orow + half_box_size + 1).clip(max=maxrow)
            cat['orig_end_col'][:, 0] = (ocol + half_box_size + 1).clip(max=maxcol)
            cat['cutout""")]),
    ('d9-sep-dt-comp', [(DE, """        new_dt = [
            ('iso_radius_arcsec', 'f4'),
            ('id', 'i8'),
            ('ncutout', 'i4'),
            ('box_size', 'i4'),
            ('file_id', 'i8', ncut),
            ('orig_row', 'f4', ncut),
            ('orig_col', 'f4', ncut),
            ('orig_start_row', 'i8', ncut),
            ('orig_start_col', 'i8', ncut),
            ('orig_end_row', 'i8', ncut),
            ('orig_end_col', 'i8', ncut),
            ('cutout_row', 'f4', ncut),
            ('cutout_col', 'f4', ncut),
            ('psf_cutout_row', 'f4', ncut),
            ('psf_cutout_col', 'f4', ncut),
            ('dudrow', 'f8', ncut),
            ('dudcol', 'f8', ncut),
            ('dvdrow', 'f8', ncut),
            ('dvdcol', 'f8', ncut),
        ]
        cat = eu.""", """        new_dt = [
            ('iso_radius_arcsec', 'f4'),
            ('id', 'i8'),
            ('ncutout', 'i4'),
            ('box_size', 'i4'),
        ]
        new_dt += [('file_id', 'i8', ncut)]
        new_dt += [(name, 'f4', ncut) for name in ('orig_row', 'orig_col')]
        new_dt += [
            (name, 'i8', ncut) for name in (
                'orig_start_row', 'orig_start_col',
                'orig_end_row', 'orig_end_col',
            )
        ]
        new_dt += [
            (name, 'f4', ncut) for name in (
                'cutout_row', 'cutout_col',
                'psf_cutout_row', 'psf_cutout_col',
            )
        ]
        new_dt += [
            (name, 'f8', ncut) for name in (
                'dudrow', 'dudcol', 'dvdrow', 'dvdcol',
            )
        ]
        cat = eu.""")]),
    ('d9-jac-loop', [(DE, """        jacob = self.mbobs[0][0].jacobian
        cat['dudrow'][:, 0] = jacob.dudrow
        cat['dudcol'][:, 0] = jacob.dudcol
        cat['dvdrow'][:, 0] = jacob.dvdrow
        cat['dvdcol'][:, 0] = jacob.dvdcol

        cat['iso""", """        jacob = self.mbobs[0][0].jacobian
        for name in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
            cat[name][:, 0] = getattr(jacob, name)

        cat['iso""")]),
    ('d9-box-bins', [(DE, """        bins = [0]
        bins.extend([sze for sze in defaults.ALLOWED_BOX_SIZES
                     if sze >= mconf['min_box_size']
                     and sze <= mconf['max_box_size']])

        if bins[-1] != mconf['max_box_size']:
            bins.append(mconf['max_box_size'])
""", """        min_size = mconf['min_box_size']
        max_size = mconf['max_box_size']
        bins = [0] + [
            sze for sze in defaults.ALLOWED_BOX_SIZES
            if min_size <= sze <= max_size
        ]

        if bins[-1] != max_size:
            bins.append(max_size)
""")]),
    ('d9-box-bins-loop', [(DE, """        bins.extend([sze for sze in defaults.ALLOWED_BOX_SIZES
                     if sze >= mconf['min_box_size']
                     and sze <= mconf['max_box_size']])
""", """        for sze in defaults.ALLOWED_BOX_SIZES:
            if mconf['min_box_size'] <= sze <= mconf['max_box_size']:
                bins.append(sze)
""")]),
    ('d9-box-take', [(DE, """        bin_inds = np.digitize(box_size, bins, right=True)
        bins = np.array(bins)

        box_sizes = bins[bin_inds]
""", """        bins = np.array(bins)
        box_sizes = bins[np.digitize(box_size, bins, right=True)]
""")]),
    ('d9-box-radius', [(DE, """            rad_min = mconf['rad_min']  # for box size calculations
            rad_fac = mconf['rad_fac']

            box_padding = mconf['box_padding']
            rad = cat['iso_radius'].clip(min=rad_min)

            box_rad = rad_fac*rad

            box_size = (2*box_rad + box_padding).astype('i4')
""", """            rad = np.clip(cat['iso_radius'], mconf['rad_min'], None)
            box_size = 2*mconf['rad_fac']*rad + mconf['box_padding']
            box_size = box_size.astype('i4')
""")]),
    ('d9-sigma-short', [(DE, """        sigma = cat['flux_radius']*2.0/FWHM_FAC
        drad = sigma*mconf['sigma_fac']
        drad = drad*(1.0 + ellipticity)
        drad = np.ceil(drad)
        sigma_size = 2*drad.astype('i4')  # sigma size is twice the radius

        return sigma_size
""", """        sigma = 2.0*cat['flux_radius']/FWHM_FAC
        drad = np.ceil(sigma*mconf['sigma_fac']*(1.0 + ellipticity))

        # sigma size is twice the radius
        return drad.astype('i4')*2
""")]),
    ('d9-sx-dict', [(DE, """            sx_config = {}
            sx_config.update(sx_config_in)
            sx_config['filter""", """            sx_config = dict(sx_config_in)
            sx_config['filter""")]),
    ('d9-sx-none-first', [(DE, """        if sx_config_in is not None:
            sx_config = {}
            sx_config.update(sx_config_in)
            sx_config['filter_kernel'] = np.array(sx_config['filter_kernel'])

            # this isn't a keyword
            self.detect_thresh = sx_config.pop('detect_thresh')
            self.sx_config = sx_config
        else:
            self.sx_config = sxdes.SX_CONFIG
            self.detect_thresh = sxdes.DETECT_THRESH
""", """        if sx_config_in is None:
            self.sx_config = sxdes.SX_CONFIG
            self.detect_thresh = sxdes.DETECT_THRESH
            return

        sx_config = {
            key: val for key, val in sx_config_in.items()
            if key != 'detect_thresh'
        }
        sx_config['filter_kernel'] = np.array(sx_config_in['filter_kernel'])
        self.sx_config = sx_config
        # this isn't a keyword
        self.detect_thresh = sx_config_in['detect_thresh']
""")]),
    ('d9-cat-number', [(DE, """        if number is None:
            cat['id'] = np.arange(cat.size)
            cat['number'] = cat['id'] + 1
        else:
            cat['id'] = number - 1
            cat["number"] = number
""", """        if number is not None:
            cat['number'] = number
            cat['id'] = number - 1
        else:
            cat['id'] = np.arange(cat.size)
            cat['number'] = np.arange(cat.size) + 1
""")]),
    ('d9-cat-seg', [(DE, """        if seg is None:
            self.seg = np.zeros_like(self.mbobs[0][0].image, dtype=np.int32)
        else:
            self.seg = seg
        self.cat = cat
""", """        if seg is None:
            seg = np.zeros(self.mbobs[0][0].image.shape, dtype=np.int32)
        self.seg = seg
        self.cat = cat
""")]),
    ('d9-cat-obs0', [(DE, """        cat = np.zeros(self.x.shape[0], dtype=new_dt)
        if number""", """        obs0 = self.mbobs[0][0]
        cat = np.zeros(self.x.shape[0], dtype=new_dt)
        if number"""), (DE, """        maxrow, maxcol = self.mbobs[0][0].image.shape
""", """        maxrow, maxcol = obs0.image.shape
"""), (DE, """            self.seg = np.zeros_like(self.mbobs[0][0].image, dtype=np.int32)
""", """            self.seg = np.zeros_like(obs0.image, dtype=np.int32)
""")]),
    ('m9-mfrac-nonpositive-first', [(MF, """        try:
            if box_sizes[i] > 0:
                obs = m.get_obs(i, 0)
                wgt = obs.weight.copy()
                msk = (obs.bmask & BMASK_EDGE) != 0
                wgt[msk] = 0
                wgt[~msk] = 1
                obs.set_weight(wgt)

                stats = gauss_wgt.get_weighted_sums(
                    obs,
                    fwhm * 2,
                )
                # this is the weighted average in the image using the
                # Gaussian as the weight.
                mfracs.append(stats["sums"][5] / stats["wsum"])
            else:
                mfracs.append(1.0)
        except ngmix.GMixFatalError:
            mfracs.append(1.0)
""", """        val = 1.0
        if box_sizes[i] > 0:
            try:
                obs = m.get_obs(i, 0)
                wgt = obs.weight.copy()
                msk = (obs.bmask & BMASK_EDGE) != 0
                wgt[msk] = 0
                wgt[~msk] = 1
                obs.set_weight(wgt)

                stats = gauss_wgt.get_weighted_sums(obs, fwhm * 2)
                # this is the weighted average in the image using the
                # Gaussian as the weight.
                val = stats["sums"][5] / stats["wsum"]
            except ngmix.GMixFatalError:
                val = 1.0
        mfracs.append(val)
""")]),
    ('m9-mfrac-where', [(MF, """                wgt = obs.weight.copy()
                msk = (obs.bmask & BMASK_EDGE) != 0
                wgt[msk] = 0
                wgt[~msk] = 1
                obs.set_weight(wgt)
""", """                on_edge = (obs.bmask & BMASK_EDGE) != 0
                obs.set_weight(np.where(on_edge, 0.0, 1.0))
""")]),
    ('m9-mfrac-enumerate', [(MF, """    for i in range(x.shape[0]):
        try:
            if box_sizes[i] > 0:
""", """    for i in range(len(x)):
        try:
            bsize = box_sizes[i]
            if bsize > 0:
""")]),
    ('m9-mfrac-sifier', [(MF, """    mbobs = ngmix.MultiBandObsList()
    obslist = ngmix.ObsList()
    mbobs.append(obslist)
    obslist.append(obs)
    m = CatalogMEDSifier(mbobs, x, y, box_sizes).get_meds(0)
""", """    obslist = ngmix.ObsList()
    obslist.append(obs)
    mbobs = ngmix.MultiBandObsList()
    mbobs.append(obslist)
    sifier = CatalogMEDSifier(mbobs=mbobs, x=x, y=y, box_sizes=box_sizes)
    m = sifier.get_meds(0)
""")]),
    ('k9-apod-any', [(MA, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image[msk] *= ap_mask[msk]
                    obs.noise[msk] *= ap_mask[msk]
                    obs.bmask[msk] |= mask_bit_val
                    if hasattr(obs, "mfrac"):
                        obs.mfrac[msk] = 1.0
                    if msk[0].size == obs.image.size:
                        obs.ignore_zero_weight = False
""", """    msk = ap_mask < 1
    if np.any(msk):
        ap_vals = ap_mask[msk]
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image[msk] *= ap_vals
                    obs.noise[msk] *= ap_vals
                    obs.bmask[msk] |= mask_bit_val
                    if hasattr(obs, "mfrac"):
                        obs.mfrac[msk] = 1.0
                    if np.all(msk):
                        obs.ignore_zero_weight = False
""")]),
    ('k9-apod-early', [(MA, """    msk = np.where(ap_mask < 1)
    if msk[0].size > 0:
        for obslist in mbobs:
            for obs in obslist:
                # the pixels list will be reset upon exiting
                with obs.writeable():
                    obs.image[msk] *= ap_mask[msk]
                    obs.noise[msk] *= ap_mask[msk]
                    obs.bmask[msk] |= mask_bit_val
                    if hasattr(obs, "mfrac"):
                        obs.mfrac[msk] = 1.0
                    if msk[0].size == obs.image.size:
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False
""", """    msk = np.where(ap_mask < 1)
    if msk[0].size == 0:
        return

    for obslist in mbobs:
        for obs in obslist:
            # the pixels list will be reset upon exiting
            with obs.writeable():
                if hasattr(obs, "mfrac"):
                    obs.mfrac[msk] = 1.0
                obs.bmask[msk] |= mask_bit_val
                obs.image[msk] *= ap_mask[msk]
                obs.noise[msk] *= ap_mask[msk]
                all_masked = msk[0].size == obs.image.size
                if all_masked:
                    obs.ignore_zero_weight = False
                obs.weight[msk] = 0.0
                if np.all(obs.weight == 0):
                    obs.ignore_zero_weight = False
""")]),
    ('k9-square-kern', [(MA, """    ny, nx = ap_mask.shape
    for y in range(min(ap_range+1, ny)):
        for x in range(nx):
            ap_mask[y, x] *= _ap_kern_kern(y, ap_range, ap_rad)
            ap_mask[ny-1 - y, x] *= _ap_kern_kern(y, ap_range, ap_rad)
""", """    ny, nx = ap_mask.shape
    for y in range(min(ap_range+1, ny)):
        kern = _ap_kern_kern(y, ap_range, ap_rad)
        for x in range(nx):
            ap_mask[y, x] *= kern
            ap_mask[ny - y - 1, x] *= kern
""")]),
    ('k9-fg-one-interp', [(MA, """    if method == 'interp':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=False,
            iso_buff=iso_buff,
            rng=rng,
        )
    elif method == 'interp-noise':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=True,
            iso_buff=iso_buff,
            rng=rng,
        )
""", """    if method in ('interp', 'interp-noise'):
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=(method == 'interp-noise'),
            iso_buff=iso_buff,
            rng=rng,
        )
""")]),
    ('k9-fg-kw', [(MA, """    if method == 'interp':
        _apply_mask_interp(
            mbobs=mbobs,
            xm=xm,
            ym=ym,
            rm=rm,
            symmetrize=symmetrize,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=False,
""", """    kw = dict(mbobs=mbobs, xm=xm, ym=ym, rm=rm, symmetrize=symmetrize)
    if method == 'interp':
        _apply_mask_interp(
            **kw,
            mask_bit_val=mask_bit_val,
            interp_bit_val=interp_bit_val,
            fill_isolated_with_noise=False,
""")]),
    ('k9-fg-expand-first', [(MA, """    if mask_expand_rad > 0:
        expanded_bmask = make_foreground_bmask(
            xm=xm,
            ym=ym,
            rm=rm + mask_expand_rad,
            dims=mbobs[0][0].image.shape,
""", """    if mask_expand_rad > 0:
        dims = mbobs[0][0].image.shape
        rm_expanded = mask_expand_rad + rm
        expanded_bmask = make_foreground_bmask(
            xm=xm,
            ym=ym,
            rm=rm_expanded,
            dims=dims,
""")]),
    ('k9-interp-all-masked', [(MA, """    bad_logic = fg_bmask != 0
    wbad = np.where(bad_logic)
    if wbad[0].size > 0:
""", """    bad_logic = fg_bmask != 0
    all_masked = np.all(bad_logic)
    wbad = np.where(bad_logic)
    if np.any(bad_logic):
"""), (MA, """                    if np.all(bad_logic):
                        obs.ignore_zero_weight = False
""", """                    if all_masked:
                        obs.ignore_zero_weight = False
"""), (MA, """                    if not np.all(bad_logic):
                        wmsk""", """                    if not all_masked:
                        wmsk""")]),
    ('k9-interp-kw', [(MA, """                        wmsk = obs.weight > 0
                        wgt = np.median(obs.weight[wmsk])
                        interp_image = interpolate_image_at_mask(
                            image=obs.image,
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=wgt,
                        )
                        interp_noise = interpolate_image_at_mask(
                            image=obs.noise,
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=wgt,
                        )
""", """                        interp_kw = dict(
                            bad_msk=bad_logic,
                            maxfrac=1.0,
                            iso_buff=iso_buff,
                            fill_isolated_with_noise=fill_isolated_with_noise,
                            rng=rng,
                            weight=np.median(obs.weight[obs.weight > 0]),
                        )
                        interp_image = interpolate_image_at_mask(
                            image=obs.image, **interp_kw
                        )
                        interp_noise = interpolate_image_at_mask(
                            image=obs.noise, **interp_kw
                        )
""")]),
    ('k9-interp-success-first', [(MA, """                    if interp_image is None or interp_noise is None:
                        obs.bmask |= mask_bit_val
                        if hasattr(obs, "mfrac"):
                            obs.mfrac[:, :] = 1.0
                        obs.ignore_zero_weight = False
                        obs.weight[:, :] = 0.0
                    else:
                        obs.image = interp_image
                        obs.noise = interp_noise
                        obs.bmask[wbad] |= interp_bit_val
""", """                    if interp_image is not None and interp_noise is not None:
                        obs.image = interp_image
                        obs.noise = interp_noise
                        obs.bmask[bad_logic] |= interp_bit_val
                    else:
                        obs.bmask |= mask_bit_val
                        if hasattr(obs, "mfrac"):
                            obs.mfrac[:, :] = 1.0
                        obs.ignore_zero_weight = False
                        obs.weight[:, :] = 0.0
""")]),
    ('k9-apodize-flag-once', [(MA, """                    if np.all(msk):
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0
                    if np.all(obs.weight == 0):
                        obs.ignore_zero_weight = False


def make""", """                    all_masked = np.all(msk)
                    zeroed = np.all((obs.weight == 0) | msk)
                    if all_masked or zeroed:
                        obs.ignore_zero_weight = False
                    obs.weight[msk] = 0.0


def make""")]),
    ('k9-bmask-sym', [(MA, """    if symmetrize:
        bmask |= np.rot90(bmask)

    return bmask
""", """    if not symmetrize:
        return bmask

    return bmask | np.rot90(bmask)
""")]),
    ('k9-intersects-return', [(MA, """    if (
        row > low_row and row < high_row and
        col > low_col and col < high_col
    ):
        return True
    else:
        return False
""", """    return low_row < row < high_row and low_col < col < high_col
""")]),
    ('k9-intersects-early', [(MA, """    low_row = -radius_pixels
    high_row = nrows + radius_pixels - 1
    low_col = -radius_pixels
    high_col = ncols + radius_pixels - 1

    if (
        row > low_row and row < high_row and
        col > low_col and col < high_col
    ):
        return True
    else:
        return False
""", """    low = -radius_pixels
    if row <= low or row >= nrows - 1 + radius_pixels:
        return False
    if col <= low or col >= ncols - 1 + radius_pixels:
        return False
    return True
""")]),
    ('k9-kern-horner', [(MA, """        val = (
            -5 * y ** 7 / 69984
            + 7 * y ** 5 / 2592
            - 35 * y ** 3 / 864
            + 35 * y / 96
            + 1 / 2
        )
        return val
""", """        y2 = y * y
        return 1 / 2 + y * (
            35 / 96 + y2 * (-35 / 864 + y2 * (7 / 2592 - 5 * y2 / 69984))
        )
""")]),
    ('k9-apmask-guard', [(MA, """        if not _intersects(y, x, rad, ny, nx):
            continue

        for _y in range(ny):
            dy2 = (_y - y)**2
            for _x in range(nx):
                dr2 = (_x - x)**2 + dy2
                if dr2 < rad2:
                    ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)
                    nmasked += 1
""", """        if _intersects(y, x, rad, ny, nx):
            for _y in range(ny):
                dy = y - _y
                for _x in range(nx):
                    dx = x - _x
                    dr2 = dx*dx + dy*dy
                    if dr2 >= rad2:
                        continue
                    ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)
                    nmasked += 1
""")]),
    ('k9-fg-zip', [(MA, """    for ifg in range(rows.size):
        row = rows[ifg]
        col = cols[ifg]

        rad = radius_pixels[ifg]
        rad2 = rad * rad
""", """    for row, col, rad in zip(rows, cols, radius_pixels):
        rad2 = rad**2
""")]),
    ('i9-clip-minmax', [(IN, """                row_start = row - iso_buff
                row_end = row + iso_buff
                col_start = col - iso_buff
                col_end = col + iso_buff

                if row_start < 0:
                    row_start = 0
                if row_end > (nrows-1):
                    row_end = nrows-1
                if col_start < 0:
                    col_start = 0
                if col_end > (ncols-1):
                    col_end = ncols-1

                no_good = 1
""", """                row_start = max(row - iso_buff, 0)
                row_end = min(row + iso_buff, nrows-1)
                col_start = max(col - iso_buff, 0)
                col_end = min(col + iso_buff, ncols-1)

                no_good = 1
""")]),
    ('i9-direct', [(IN, """            val = bad_msk[row, col]
            if val:
                bad_ind[ibad] = row * ncols + col
""", """            if bad_msk[row, col]:
                bad_ind[ibad] = ncols * row + col
""")]),
    ('i9-isolated-store', [(IN, """                if no_good == 1:
                    bad_iso[ibad] = 1
""", """                bad_iso[ibad] = no_good
""")]),
    ('i9-notval', [(IN, """                        tval = bad_msk[rc, cc]
                        if not tval:

                            if igood == ngood:
                                raise RuntimeError('good_pix too small')

                            ind = rc*ncols + cc
                            good_ind[igood] = ind
                            igood += 1
""", """                        if bad_msk[rc, cc]:
                            continue

                        if igood == ngood:
                            raise RuntimeError('good_pix too small')

                        good_ind[igood] = rc*ncols + cc
                        igood += 1
""")]),
    ('i9-return-slices', [(IN, """    bad_ind = bad_ind[:ibad]
    bad_iso = bad_iso[:ibad]
    good_ind = good_ind[:igood]

    return bad_ind, bad_iso, good_ind
""", """    return bad_ind[:ibad], bad_iso[:ibad], good_ind[:igood]
""")]),
    ('i9-early-none', [(IN, """    bm_frac = nbad/npix
    if bm_frac <= maxfrac and nbad < npix:
        interp_image = image.copy()
""", """    too_many = nbad/npix > maxfrac or nbad >= npix
    if not too_many:
        interp_image = image.copy()
""")]),
    ('i9-msk-isolated', [(IN, """                bad_msk = bad_msk.copy()
                bad_msk[bad_yx[0][msk], bad_yx[1][msk]] = False

                # keep the ones we have to fill
                noise_fill_yx = (bad_yx[0][msk], bad_yx[1][msk])
""", """                # keep the ones we have to fill
                noise_fill_yx = (bad_yx[0][msk], bad_yx[1][msk])
                bad_msk = bad_msk.copy()
                bad_msk[noise_fill_yx] = False
""")]),
    ('i9-noise-scale', [(IN, """                shape = noise_fill_yx[0].shape
                interp_image[noise_fill_yx[0], noise_fill_yx[1]] = rng.normal(
                    size=shape, scale=1.0/np.sqrt(weight)
                )
""", """                sigma = np.sqrt(1.0/weight)
                noise = rng.normal(scale=sigma, size=noise_fill_yx[0].shape)
                interp_image[noise_fill_yx] = noise
""")]),
    ('i9-good-im', [(IN, """        good_pix = np.array(good_yx).T
        bad_pix = np.array(bad_yx).T
        good_im = interp_image[good_yx[0], good_yx[1]]
        img_interp = CloughTocher2DInterpolator(
            good_pix,
            good_im,
            fill_value=0.0,
        )
        interp_image[bad_msk] = img_interp(bad_pix)
""", """        img_interp = CloughTocher2DInterpolator(
            np.array(good_yx).T,
            interp_image[good_yx],
            fill_value=0.0,
        )
        interp_image[bad_msk] = img_interp(np.array(bad_yx).T)
""")]),
    ('i9-nbad-count', [(IN, """    nbad = bad_msk.sum()
    if nbad == 0:
        # the""", """    nbad = np.sum(bad_msk)
    if not np.any(bad_msk):
        # the""")]),
]
