"""Moments with nan and copies of arrays."""
F = 'metadetect/fitting.py'
I = 'metadetect/interpolate.py'
D = 'metadetect/detect.py'
U = 'metadetect/lsst/util.py'

OLD = """        raw_mom_orig = raw_mom.copy()
        if np.isnan(raw_mom_orig[0]):
            raw_mom[0] = 0
        if np.isnan(raw_mom_orig[1]):
            raw_mom[1] = 0
        reg_mom = np.dot(amat, raw_mom)
        if np.isnan(raw_mom_orig[0]):
            raw_mom[0] = np.nan
            reg_mom[0] = np.nan
        if np.isnan(raw_mom_orig[1]):
            raw_mom[1] = np.nan
            reg_mom[1] = np.nan
"""

REFS = [
    ('a16-nan-flags', [(F, OLD, """        nan0 = np.isnan(raw_mom[0])
        nan1 = np.isnan(raw_mom[1])
        if nan0:
            raw_mom[0] = 0
        if nan1:
            raw_mom[1] = 0
        reg_mom = np.dot(amat, raw_mom)
        if nan0:
            raw_mom[0] = np.nan
            reg_mom[0] = np.nan
        if nan1:
            raw_mom[1] = np.nan
            reg_mom[1] = np.nan
""")]),
    ('b16-nan-copy', [(F, OLD, """        mom = raw_mom.copy()
        nans = [i for i in (0, 1) if np.isnan(raw_mom[i])]
        for i in nans:
            mom[i] = 0
        reg_mom = np.dot(amat, mom)
        for i in nans:
            reg_mom[i] = np.nan
""")]),
    ('c16-nan-loop', [(F, OLD, """        raw_mom_orig = raw_mom.copy()
        for i in range(2):
            if np.isnan(raw_mom_orig[i]):
                raw_mom[i] = 0
        reg_mom = np.dot(amat, raw_mom)
        for i in range(2):
            if np.isnan(raw_mom_orig[i]):
                raw_mom[i] = np.nan
                reg_mom[i] = np.nan
""")]),
    ('d16-ormasks-np-array', [(U, "        ormasks.append(exp.mask.array.copy())\n", "        ormasks.append(np.array(exp.mask.array))\n")]),
    ('e16-ormasks-local', [(U, "        ormasks.append(exp.mask.array.copy())\n        exp.mask.array[:, :] = 0\n",
                            "        mask_array = exp.mask.array\n        ormasks.append(mask_array.copy())\n        mask_array[:, :] = 0\n")]),
    ('f16-psf-copy', [(D, "        return self.obs.psf.image.copy()\n", "        return np.array(self.obs.psf.image)\n")]),
    ('g16-psf-copy-local', [(D, "        return self.obs.psf.image.copy()\n", "        image = self.obs.psf.image\n        return np.copy(image)\n")]),
]
