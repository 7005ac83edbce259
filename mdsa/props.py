"""The properties, where they live in the package, and what decides each of them.

anchors   patterns (fnmatch) over the qualified names of the reference model; the
          functions they select are compared with the package.  Private helpers they
          call are added automatically.
classes   class bodies whose attributes (configuration fields, defaults) are compared
custom    names of the analyses in mdsa.rules that take no reference model
"""

M = 'metadetect.'
L = 'metadetect.lsst.'


def P(id, title, statement, over, text, why, files, mech, anchors, classes=(), consts=(), custom=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, anchors=anchors, classes=classes, consts=consts, custom=custom)


STUBBED = (' The runnable tests only exercise interpolation and configuration parsing; everything else '
           'needs packages that are not installed, so no test reaches this at all.')

PROPS = [
    P('C01', 'Outcome of a metadetect run',
      'A run that cannot be measured (no pixel with masked fraction below one, an all-zero-weight or fully '
      'no-detect-masked observation, or failed metacal) yields a None result; every other run yields a mapping '
      'with an entry for each requested metacal type, None where nothing was measured. Results of several band '
      'combinations are concatenated per type in the order the combinations were given, each using its own '
      'detection bands, which default to all bands. Asking for the result before running is an error, as is '
      'giving only one of the two color arguments.',
      ['inputs', 'configurations'],
      'every set of observations, band combination and configuration',
      'Which branch is taken depends on the content of every image and on the configuration; tests sample a few.' + STUBBED,
      ['metadetect/metadetect.py'],
      [('run orchestration', 'metadetect/metadetect.py: Metadetect.go, _go_bands, do_metadetect'),
       ('constructor defaults', 'metadetect/metadetect.py: Metadetect.__init__, _set_config')],
      [M + 'metadetect.do_metadetect', M + 'metadetect.Metadetect.__init__', M + 'metadetect.Metadetect.go',
       M + 'metadetect.Metadetect.result', M + 'metadetect.Metadetect._*'],
      custom=['interface']),
    P('C02', 'Each sheared catalog is detected and measured on its own sheared image',
      'For every metacal type, sources are detected on, cut out of and measured on the images of that type, '
      'never of another type, and the results and their positions are filed under and corrected for that same type. '
      'Detection uses exactly the detection bands, while measurement uses every band and averages over the '
      'shear bands.',
      ['inputs', 'configurations'],
      'every metacal type, band combination and set of detected sources',
      'Mixing two of the sheared images changes the answer only by a small calibration bias that no example-based '
      'assertion can see.' + STUBBED,
      ['metadetect/metadetect.py', 'metadetect/lsst/metadetect.py', 'metadetect/detect.py'],
      [('loop over metacal types', 'metadetect/metadetect.py: Metadetect._go_bands, _do_detect, _measure'),
       ('loop over metacal types (LSST)', 'metadetect/lsst/metadetect.py: MetadetectTask.run, detect_deblend_and_measure')],
      [M + 'metadetect.Metadetect.go', M + 'metadetect.Metadetect._*', L + 'metadetect.MetadetectTask.run',
       L + 'metadetect.run_metadetect', L + 'metadetect.detect_deblend_and_measure', L + 'measure.measure',
       L + 'measure.get_output', L + 'metacal_exposures.get_metacal_*', L + 'metacal_exposures._get_metacal_exp',
       M + 'detect.MEDSifier.*', M + 'detect.CatalogMEDSifier.*']),
    P('C03', 'Shearing and unshearing positions are inverse to each other',
      'Positions are sheared about the center of the image, in world coordinates given by the jacobian, with the '
      'galsim shear of the metacal type and step; unsheared positions apply the inverse of that shear about the '
      'same center, so that one undoes the other for every type, step, jacobian and image shape. For the '
      'unsheared type both return the positions unchanged.',
      ['inputs', 'configurations'],
      'all positions, shapes, jacobians, steps and metacal types',
      'Holds for a continuum of positions, jacobians and steps; a test can only sample, and errors of the size of '
      'the shear step are easily hidden by tolerances.' + STUBBED,
      ['metadetect/shearpos.py', 'metadetect/metadetect.py'],
      [('position maps', 'metadetect/shearpos.py: shear_positions, unshear_positions, *_obs')],
      [M + 'shearpos.*', M + 'metadetect.Metadetect._add_positions_and_psf'],
      consts=[M + 'shearpos.DEFAULT_STEP'],
      custom=['shear_inverse']),
    P('C04', 'Metacal labels stand for the documented shears and unknown labels are refused',
      'The labels 1p, 1m, 2p and 2m mean a positive or negative shear of the first or second component with the '
      'given step, noshear means none, and any other label raises an error; every part of the package that '
      'interprets a label agrees on this. An image is sheared with exactly the shear its label names, and the step '
      'defaults to the same value everywhere.',
      ['inputs', 'configurations'],
      'every label and every step',
      'Agreement between separate label tables is not visible from any single call.' + STUBBED,
      ['metadetect/shearpos.py', 'metadetect/lsst/metacal_exposures.py'],
      [('label table', 'metadetect/shearpos.py: get_galsim_shear'),
       ('label table (LSST)', 'metadetect/lsst/metacal_exposures.py: get_shear_from_type')],
      [M + 'shearpos.get_galsim_shear', M + 'shearpos.*', L + 'metacal_exposures.get_shear_from_type',
       L + 'metacal_exposures._get_metacal_exp', L + 'metacal_exposures.get_metacal_exps'],
      consts=[M + 'shearpos.DEFAULT_STEP', L + 'defaults.DEFAULT_METACAL_TYPES', L + 'metacal_exposures.STEP'],
      custom=['shear_tables']),
    P('C05', 'Metacal of LSST exposures, with and without fixed noise',
      'For each requested type the output exposure is the input deconvolved from its psf, sheared, and reconvolved '
      'with one shared round target psf, which also becomes the psf of the output; with fixed noise, a noise '
      'exposure goes through the same operations with the opposite rotation, is added to the image, and the '
      'variance is raised accordingly. Masks, weights and the input exposures themselves are otherwise left alone, '
      'and every band of a multiband exposure is treated the same way.',
      ['inputs', 'configurations'],
      'all exposures, psfs and sets of types',
      'Uses external image classes that are not installed; errors only bias the calibration.' + STUBBED,
      ['metadetect/lsst/metacal_exposures.py'],
      [('metacal', 'metadetect/lsst/metacal_exposures.py: get_metacal_*')],
      [L + 'metacal_exposures.*', L + 'util.get_noise_image', L + 'util.make_deconvolved_mbexp']),
    P('C06', 'Masking corrections keep all the planes of an observation consistent',
      'After foreground masking, the pixels under a mask carry the requested flag in the bit mask of every '
      'observation, have zero weight and full masked fraction, and are interpolated over or apodized alike in the '
      'image and the noise image, as the method asks; an observation that cannot be interpolated is flagged and '
      'given zero weight and full masked fraction everywhere, and an unknown method is an error. Apodizing the edges '
      'multiplies image and noise by the same mask and flags, zero-weights and fully masks the pixels it suppresses. '
      'Pixels that are not under a mask keep their image, noise, weight and masked fraction.',
      ['inputs', 'configurations'],
      'all observations, mask positions and radii, and masking configurations',
      'There are several planes, bands and mask kinds whose combinations are not sampled.' + STUBBED,
      ['metadetect/masking.py'],
      [('foreground masking', 'metadetect/masking.py: apply_foreground_masking_corrections, _apply_mask_*'),
       ('edge apodization', 'metadetect/masking.py: apply_apodization_corrections')],
      [M + 'masking.*']),
    P('C07', 'Masking of LSST exposures',
      'For every band, apodized edge masks multiply the image and the noise image by the same edge mask and, wherever '
      'that mask is below one, set the edge bit, infinite variance and full masked fraction, also in the or-masks; '
      'bright-object masks do the same around each bright object, at its own sky position and with its own radius, '
      'with the bright bit. A second, expanded bright bit covers a wider disk around each bright object, and pixels '
      'away from all these masks are left alone.',
      ['inputs', 'configurations'],
      'all multiband exposures, bright-object catalogs and apodization ranges',
      'The combination of planes, bands and objects is open ended and the tests only import the module.',
      ['metadetect/lsst/masking.py'],
      [('edge and bright masks', 'metadetect/lsst/masking.py: apply_apodized_*')],
      [L + 'masking.*', M + 'masking._build_square_apodization_mask', M + 'masking.make_foreground_apodization_mask',
       M + 'masking.make_foreground_bmask', M + 'masking.get_ap_range', M + 'masking._do*', M + 'masking._ap*'],
      consts=[L + 'defaults.BMASK_EDGE', L + 'defaults.BMASK_*', L + 'masking.*']),
    P('C08', 'Geometry of masks and shape of the apodization kernel',
      'A pixel is masked by a foreground object exactly when it lies within the radius of that object on the '
      'image, for every object that intersects the image, and the apodization weight depends only on the distance '
      'to the mask edge: zero well inside, one well outside, rising monotonically in between over six kernel '
      'widths. The square edge mask applies that same profile at all four edges of the image.',
      ['inputs'],
      'all positions, radii, image shapes and kernel widths',
      'A statement about every pixel and every object position, including those that straddle an edge.' + STUBBED,
      ['metadetect/masking.py'],
      [('kernel', 'metadetect/masking.py: _ap_kern_kern, get_ap_range, _build_square_apodization_mask'),
       ('disks', 'metadetect/masking.py: make_foreground_bmask, make_foreground_apodization_mask, _do_*')],
      [M + 'masking.*'],
      custom=['apkernel']),
    P('C09', 'Interpolation replaces only bad pixels, from good neighbours',
      'Interpolation returns a new image equal to the input at every good pixel, with only the bad pixels '
      'replaced by values interpolated from all good pixels within the buffer around them; neither the image nor the '
      'mask passed in is modified. Bad pixels without a good neighbour within the isolation buffer are drawn from '
      'noise with the variance implied by the given weight if that is asked for, which needs a generator and a weight. '
      'When all pixels, or more than the allowed fraction, are bad, None is returned.',
      ['inputs'],
      'all images and masks',
      'Two tests use one image each; masks of other shapes, sizes and positions are not sampled.',
      ['metadetect/interpolate.py'],
      [('interpolation', 'metadetect/interpolate.py: interpolate_image_at_mask, _get_nearby_good_pixels')],
      [M + 'interpolate.*']),
    P('C10', 'Compiled pixel loops never index outside their arrays',
      'The loops compiled without bounds checking never read or write outside the arrays they are given, for any '
      'image shape, mask, object position or radius, including objects that lie off the image. '
      'Loops that collect a variable number of pixels never store past the space allocated for them.',
      ['inputs'],
      'all image shapes, masks, positions and radii',
      'An out-of-bounds access in compiled code may go unnoticed at run time, and only extreme positions reach it.',
      ['metadetect/interpolate.py', 'metadetect/masking.py'],
      [('compiled kernels', 'metadetect/interpolate.py: _get_nearby_good_pixels; metadetect/masking.py: '
        '_do_apodization_mask, _do_mask_foreground, _build_square_apodization_mask')],
      [M + 'interpolate._get_nearby_good_pixels', M + 'masking._do_*', M + 'masking._build_square_apodization_mask',
       M + 'masking._intersects', M + 'masking.make_foreground_*', M + 'interpolate.interpolate_image_at_mask'],
      custom=['kernel_bounds']),
    P('C11', 'Processing flags are distinct bits with faithful names',
      'Every processing flag is a single bit different from all the others and from those of the fitting library '
      'it extends, and converting a flag value to text names exactly the bits that are set. Flags are only ever '
      'combined with a bitwise or, so that no flag is lost.',
      ['inputs', 'histories'],
      'all flag values and all ways they are combined',
      'Requires all combinations of flags.' + STUBBED,
      ['metadetect/procflags.py', 'metadetect/fitting.py'],
      [('flag table', 'metadetect/procflags.py'), ('flag updates', 'metadetect/fitting.py')],
      [M + 'procflags.*', M + 'fitting._*', M + 'fitting.fit_*', M + 'fitting.make_coadd_obs'],
      consts=[M + 'procflags.*'],
      custom=['flag_bits', 'flag_writes']),
    P('C12', 'Unusable input is flagged and never fitted',
      'An object with an empty stamp in some band, with all-zero weight, or with a bit of the configured bad-pixel '
      'flags set somewhere in its stamp in a band is flagged with the reason, for exactly the bands and reasons '
      'that apply, and no fit is made with those data. Usable objects and bands are not flagged for it.',
      ['inputs', 'configurations'],
      'all objects, bands and bad-pixel flags',
      'The combinations of bands and reasons are not sampled.' + STUBBED,
      ['metadetect/fitting.py'],
      [('input screening', 'metadetect/fitting.py: fit_mbobs_wavg, fit_mbobs_list_joint, fit_mbobs_admom, fit_mbobs_gauss, make_coadd_obs')],
      [M + 'fitting.*']),
    P('C13', 'Rows of results start out as not attempted',
      'Every result row starts with not-attempted flags and NaN measurements, and a field only receives a value '
      'when the corresponding measurement was made, so that an unflagged value is always a measured one and an '
      'unmeasured value is always flagged and NaN. There is exactly one row per input object, in the same order.',
      ['inputs', 'configurations', 'fault_sequences'],
      'all lists of objects and all patterns of failures',
      'Failure patterns across objects, bands and fits are not sampled.' + STUBBED,
      ['metadetect/fitting.py', 'metadetect/lsst/measure.py'],
      [('result structures', 'metadetect/fitting.py: get_wavg_output_struct, _make_combine_fit_results_wavg_dtype, fit_*'),
       ('result structures (LSST)', 'metadetect/lsst/measure.py: get_output_struct, get_output')],
      [M + 'fitting.*', L + 'measure.get_output*', L + 'measure.measure', L + 'measure._get_combined_struct']),
    P('C14', 'Fit failures become flags and never escape',
      'A psf or object fit that fails, whether by raising one of the library failure exceptions or by returning '
      'non-zero flags, is recorded in the flags of that object, psf and band, with its results left undefined, and '
      'the remaining objects are still processed. Errors of other kinds, which indicate a mistake in usage, are '
      'not swallowed.',
      ['fault_sequences', 'inputs'],
      'every place where a fit can fail and every kind of failure',
      'Failures must be provoked at each fit separately.' + STUBBED,
      ['metadetect/fitting.py', 'metadetect/metadetect.py', 'metadetect/lsst/measure.py', 'metadetect/lsst/metadetect.py'],
      [('fit wrappers', 'metadetect/fitting.py: fit_all_psfs, _fit_obs*, fit_mbobs_*'),
       ('original psf', 'metadetect/lsst/metadetect.py: fit_original_psfs_mbexp')],
      [M + 'fitting.*', M + 'metadetect._get_psf_stats', M + 'metadetect.Metadetect._get_mbobs_data',
       M + 'metadetect.Metadetect._get_all_metacal',
       L + 'measure.measure', L + 'measure.get_output', L + 'metadetect.fit_original_psfs_mbexp',
       L + 'metadetect.add_original_psf', L + 'metadetect.MetadetectTask.run']),
    P('C15', 'Shapes come from weight-averaged sums over the shear bands only',
      'The combined moments of an object, and of its psf, are averages over exactly the shear bands, weighted by '
      'the weight of each band, with covariances scaled by the square of the normalized weights; per-band fluxes '
      'and flux flags are reported for every band in band order. Regularization and symmetrization are applied '
      'as configured, and shear, size and signal-to-noise fields are those of the combined moments.',
      ['inputs', 'configurations'],
      'all objects, band subsets and weights',
      'Numerical agreement over all inputs; errors appear as biases.' + STUBBED,
      ['metadetect/fitting.py'],
      [('band sums', 'metadetect/fitting.py: _sum_bands_wavg, _combine_fit_results_wavg, fit_mbobs_wavg')],
      [M + 'fitting.*']),
    P('C16', 'Coadds are consistent weighted means of their inputs',
      'A coadd of observations or exposures is the weighted mean of exactly the inputs asked for, with the psf, '
      'noise and masked fraction averaged with the same normalized weights, the variance or weight propagated '
      'accordingly, and the bit masks combined with a bitwise or. Inputs without usable weight contribute nothing, '
      'and when no usable input is left the failure is reported rather than a coadd made up.',
      ['inputs'],
      'all sets of inputs and weights',
      'All combinations of inputs and weights cannot be sampled.' + STUBBED,
      ['metadetect/fitting.py', 'metadetect/lsst/util.py'],
      [('coadds', 'metadetect/fitting.py: make_coadd_obs; metadetect/lsst/util.py: coadd_exposures, coadd_mbobs, extract_multiband_coadd_data')],
      [M + 'fitting.make_coadd_obs', L + 'util.coadd_*', L + 'util.get_stack_kernel_psf',
       L + 'util.extract_multiband_coadd_data', L + 'util.make_deconvolved_mbexp', L + 'util.try_clone_psf', L + 'util._extract_weight',
       M + 'fitting.fit_mbobs_list_joint', M + 'fitting.fit_mbobs_gauss', M + 'fitting.fit_mbobs_admom',
       L + 'measure.DetectAndDeblendTask.run', M + 'fitting.symmetrize_obs_weights']),
    P('C17', 'Original psf columns hold the weighted mean over the shear bands',
      'The psf shape and size columns for the original psf hold the weighted mean, over the shear bands, of the '
      'psf fits of the unsheared input; when a psf fit or the weights fail they hold NaN together with a failure '
      'flag. Every object in every catalog of a run carries the same values.',
      ['inputs', 'fault_sequences'],
      'all psfs, weights and failures',
      'Failures and weight patterns are not sampled.' + STUBBED,
      ['metadetect/metadetect.py', 'metadetect/lsst/metadetect.py', 'metadetect/fitting.py'],
      [('psf statistics', 'metadetect/metadetect.py: _get_psf_stats, _add_positions_and_psf; metadetect/lsst/metadetect.py: fit_original_psfs_mbexp, add_original_psf')],
      [M + 'metadetect._get_psf_stats', M + 'metadetect.Metadetect._add_positions_and_psf',
       M + 'metadetect.Metadetect._get_mbobs_data', M + 'metadetect.Metadetect._measure', M + 'metadetect.Metadetect._go*',
       M + 'fitting.fit_all_psfs', M + 'fitting.get_admom_runner', M + 'fitting.get_gauss_psf_runner',
       L + 'metadetect.fit_original_psfs_mbexp', L + 'metadetect.add_original_psf', L + 'metadetect.MetadetectTask.run',
       L + 'metadetect.detect_deblend_and_measure', L + 'util.extract_shear_band_indices', L + 'util.extract_psf_image',
       L + 'util._extract_psf_image_fix', L + 'util._extract_weight']),
    P('C18', 'Masked fractions are weighted means of the masked-fraction image',
      'The masked-fraction image is the weighted mean over bands of the per-band images, and one where no band has '
      'weight. The value for an object is a Gaussian-weighted mean of that image at the position of the object, '
      'on its own stamp, and is one when nothing of the stamp can be used.',
      ['inputs'],
      'all images, positions and stamp sizes, including positions at and beyond the edges',
      'Positions at the edges and unequal weights are not sampled.' + STUBBED,
      ['metadetect/mfrac.py', 'metadetect/metadetect.py', 'metadetect/lsst/metadetect.py'],
      [('masked fraction', 'metadetect/mfrac.py: measure_mfrac; metadetect/metadetect.py: _get_mfrac; metadetect/lsst/metadetect.py: get_mfrac_mbexp, add_mfrac, measure_weighted_mfrac')],
      [M + 'mfrac.*', M + 'metadetect.Metadetect._get_mfrac', M + 'metadetect.Metadetect._add_positions_and_psf',
       M + 'metadetect.Metadetect.go', M + 'metadetect.Metadetect._get_mbobs_data', M + 'metadetect.Metadetect._set_fitter',
       L + 'metadetect.*mfrac*', L + 'metadetect.MetadetectTask.run', L + 'metadetect.detect_deblend_and_measure',
       L + 'metadetect.run_metadetect',
       M + 'detect.MEDSInterface.*', M + 'detect.CatalogMEDSifier.*']),
    P('C19', 'Mask columns hold the bits at the position of each object',
      'The bit-mask columns of an object hold the bitwise or, over the bands used and over the configured region '
      'around the nearest pixel to its position clipped to the image, of the corresponding mask image; the '
      'unsheared variants use the unsheared position. Positions off the image never fail or wrap around.',
      ['inputs', 'configurations'],
      'all positions, mask images and region sizes',
      'Edge positions and region sizes are not sampled.' + STUBBED,
      ['metadetect/metadetect.py', 'metadetect/lsst/metadetect.py', 'metadetect/lsst/measure.py'],
      [('mask lookup', 'metadetect/metadetect.py: _fill_in_mask_col, _clip_and_round, _get_ormask_and_bmask; metadetect/lsst/metadetect.py: add_ormask, combine_ormasks')],
      [M + 'metadetect._clip_and_round', M + 'metadetect._fill_in_mask_col', M + 'metadetect.Metadetect._get_ormask_and_bmask',
       M + 'metadetect.Metadetect._add_positions_and_psf', M + 'metadetect.Metadetect._get_mbobs_data',
       M + 'metadetect.Metadetect._go*', M + 'metadetect.Metadetect._measure',
       L + 'metadetect.*ormask*', L + 'metadetect.MetadetectTask.run', L + 'metadetect.detect_deblend_and_measure', L + 'metadetect.run_metadetect',
       L + 'measure.get_bmask*', L + 'measure.get_output', L + 'measure.measure'],
      custom=['axes']),
    P('C20', 'Cutouts of an object come from the right pixels of the right plane',
      'A cutout of the requested plane for an object is a stamp of the size of its box filled with the pixels of '
      'that plane that fall inside the image, placed at their proper offset, and with the fill value of that plane '
      'elsewhere; its jacobian center and psf are those of the object. The plane names accepted are those '
      'documented, and a plane that is not available is an error.',
      ['inputs'],
      'all object positions and box sizes, including boxes that cross or lie beyond the edges',
      'Boxes that cross the edges in each direction are not sampled.' + STUBBED,
      ['metadetect/detect.py'],
      [('cutouts', 'metadetect/detect.py: MEDSInterface')],
      [M + 'detect.*']),
    P('C21', 'Detection catalog: box sizes, positions and numbering',
      'The box of every detected object is the size derived from its extent as the configured box type asks, clipped '
      'to the configured limits and rounded up to an allowed size; the box is centered on the pixel of the object, '
      'clipped to the image, and its offset within the box follows from its position. Objects keep the order, '
      'positions and segment numbers of the detection, and a detection without objects gives an empty catalog.',
      ['inputs', 'configurations'],
      'all detected objects and box configurations',
      'Depends on every detected object and configuration.' + STUBBED,
      ['metadetect/detect.py'],
      [('catalogs', 'metadetect/detect.py: MEDSifier._run_sep, _get_box_sizes, _get_sigma_size; CatalogMEDSifier')],
      [M + 'detect.*']),
    P('C22', 'The detection image is the weighted coadd without excluded pixels',
      'Detection runs on the mean of the images of the detection bands weighted by the inverse of their typical '
      'variance, with the noise level implied by those weights and the configured threshold, and pixels with one of '
      'the configured no-detect flags in any of these bands are masked out for it. Observations of several epochs are '
      'refused.',
      ['inputs', 'configurations'],
      'all sets of bands, weights and flags',
      'Depends on weights and flags in each band.' + STUBBED,
      ['metadetect/detect.py', 'metadetect/metadetect.py'],
      [('detection image', 'metadetect/detect.py: MEDSifier._set_detim, _run_sep')],
      [M + 'detect.MEDSifier.*', M + 'metadetect.Metadetect._do_detect', M + 'metadetect.Metadetect._set_config']),
    P('C23', 'Configurations are completed with defaults and unknown entries refused',
      'A valid LSST configuration is returned with every missing entry filled in with its default and every given '
      'entry kept as given; unknown keys, missing required keys and bad values are refused with an error at every '
      'level. The input and the module defaults are left unmodified, so that repeated calls give the same answer.',
      ['configurations', 'histories'],
      'all configurations and sequences of calls',
      'Five tests sample a handful of configurations.',
      ['metadetect/lsst/configs.py', 'metadetect/lsst/defaults.py'],
      [('validation', 'metadetect/lsst/configs.py: get_config and helpers; metadetect/lsst/defaults.py')],
      [L + 'configs.*'], consts=[L + 'defaults.*', L + 'configs.*']),
    P('C24', 'User overrides reach the tasks they are meant for',
      'Every value given in the user configuration of the LSST path (detection, deblending, metacal, weight '
      'function, sky subtraction, stamp sizes) is applied to the task that uses it, at any nesting depth, and '
      'values that are not given keep the documented defaults. A bad choice is refused.',
      ['configurations'],
      'all configurations',
      'The LSST packages are not installed, so no test runs this.',
      ['metadetect/lsst/metadetect.py', 'metadetect/lsst/measure.py', 'metadetect/lsst/util.py',
       'metadetect/lsst/skysub.py', 'metadetect/lsst/photometry.py'],
      [('overrides', 'metadetect/lsst/util.py: override_config, get_fitter'),
       ('task configuration', 'metadetect/lsst/measure.py: get_detect_and_deblend_task; metadetect/lsst/metadetect.py: run_metadetect')],
      [L + 'util.override_config', L + 'util.get_fitter', L + 'measure.get_detect_and_deblend_task', L + 'measure.get_pgauss_fitter',
       L + 'measure.DetectAndDeblend*', L + 'measure.SourceDetectionConfig*', L + 'measure._get_extractor', L + 'metadetect.run_metadetect',
       L + 'metadetect.Metacal*', L + 'metadetect.Metadetect*', L + 'metadetect.detect_deblend_and_measure',
       L + 'skysub.*', L + 'photometry.*'],
      classes=[L + '*'], consts=[L + 'defaults.*', L + 'skysub.*']),
    P('C25', 'Model subtraction and noise replacement restore the image',
      'Adding a source back and removing it again leaves the working image as it was, inside a context manager '
      'even when its body raises; with all sources removed the image is the original minus all the models, and '
      'with one source added only its own model is present. Asking for an unknown source, or inserting or removing '
      'out of turn, is an error.',
      ['histories', 'inputs'],
      'all sequences of insertions and removals, and exceptions at any point of them',
      'Sequences and exceptions are not sampled.' + STUBBED,
      ['metadetect/lsst/model_subtractor.py', 'metadetect/lsst/util.py', 'metadetect/lsst/mbobs_extractor.py'],
      [('model subtractor', 'metadetect/lsst/model_subtractor.py'),
       ('noise replacer', 'metadetect/lsst/util.py: ContextNoiseReplacer, MultibandNoiseReplacer, get_noise_replacer')],
      [L + 'model_subtractor.*', L + 'util.*NoiseReplacer*', L + 'util.get_noise_replacer', L + 'mbobs_extractor.*'],
      custom=['context']),
    P('C26', 'LSST measurement: one output row per child source, from its own data',
      'Every non-skipped source without children gives one output row, in catalog order, with the position, bounding box, '
      'mask bits, flags and measurements of that same source; parents give none. A source that cannot be '
      'measured still gives its row, flagged and with undefined measurements.',
      ['inputs', 'fault_sequences'],
      'all source catalogs and patterns of failure',
      'The LSST packages are not installed, so no test runs this.',
      ['metadetect/lsst/measure.py', 'metadetect/lsst/util.py'],
      [('measurement loop', 'metadetect/lsst/measure.py: measure, get_output, get_bmask')],
      [L + 'measure.*', L + 'mbobs_extractor.*', L + 'util.get_stamp_mbobs', L + 'util.get_bbox', L + 'util.get_integer_center',
       L + 'photometry.*', L + 'metadetect.detect_deblend_and_measure']),
    P('C27', 'The configured shear bands select the bands for shear',
      'The bands named as shear bands in the configuration of the LSST path, by default all of them, are located by '
      'name among the bands of the data, whatever their order, and exactly those contribute to the shapes and to the '
      'mean original psf, while detection and fluxes use all bands. The shear bands reported with each result are '
      'the ones used, and a requested band that is not in the data is refused.',
      ['configurations', 'inputs'],
      'all orders of bands and selections',
      'Band order and subset combinations are not sampled.' + STUBBED,
      ['metadetect/lsst/util.py', 'metadetect/lsst/metadetect.py', 'metadetect/lsst/measure.py'],
      [('band selection', 'metadetect/lsst/util.py: extract_shear_band_indices; metadetect/lsst/metadetect.py: detect_deblend_and_measure')],
      [L + 'util.extract_shear_band_indices', L + 'util.extract_multiband_coadd_data', L + 'util.get_mbexp', L + 'metadetect.*',
       L + 'measure.measure', L + 'measure.get_output', L + 'measure._get_combined_struct', L + 'measure.DetectAndDeblendTask.*', L + 'photometry.*',
       M + 'fitting._sum_bands_wavg', M + 'fitting._combine_fit_results_wavg']),
    P('C28', 'All randomness comes from the generator passed in',
      'Every random number used comes from the random number generator given by the caller, in an order determined '
      'by the inputs alone, so that two runs with equal inputs and equally seeded generators agree. No global '
      'generator is used or reseeded, and no separate generator is created except from the one given or from a fixed seed.',
      ['inputs', 'histories'],
      'all inputs and call histories',
      'Reproducibility over all inputs; a hidden use of a global generator shows only on particular paths.' + STUBBED,
      ['metadetect/fitting.py', 'metadetect/metadetect.py', 'metadetect/lsst/metadetect.py', 'metadetect/lsst/measure.py',
       'metadetect/masking.py', 'metadetect/interpolate.py', 'metadetect/lsst/util.py'],
      [('generator plumbing', 'every function with an rng or seed parameter')],
      [L + 'metadetect.*', L + 'measure.*', L + 'util.get_fitter', L + 'util.get_noise_image', L + 'util.*NoiseReplacer*', L + 'util.get_noise_replacer',
       L + 'metacal_exposures.*', L + 'photometry.*', L + 'mbobs_extractor.*',
       M + 'metadetect.Metadetect.*', M + 'metadetect.do_metadetect', M + 'fitting.*', M + 'masking.*', M + 'interpolate.*', M + 'mfrac.*'],
      custom=['rng']),
    P('C29', 'Inputs of the caller are not modified',
      'Configurations, observations, exposures, catalogs and result arrays passed in by the caller are left as '
      'they were, except where the function is documented to work in place; in particular the configuration can be '
      'reused for another run. Returned arrays do not share memory with inputs that are later modified.',
      ['inputs', 'histories'],
      'all inputs and repeated calls',
      'Needs every path that writes through a reference to caller data.' + STUBBED,
      ['metadetect/metadetect.py', 'metadetect/detect.py', 'metadetect/fitting.py', 'metadetect/lsst/*.py'],
      [('copies', 'every public function')],
      [M + '*'],
      custom=['mutation']),
    P('C30', 'Sky subtraction iterates and records what it removed',
      'Sky subtraction runs the configured number of iterations of background subtraction followed by detection on '
      'every band, at least one being required, and records the total sky removed; a failure in one band is '
      'reported as no result and does not stop the others. The configured threshold and overrides are used.',
      ['inputs', 'configurations', 'fault_sequences'],
      'all exposures, iteration counts and failures',
      'The LSST packages are not installed, so no test runs this.',
      ['metadetect/lsst/skysub.py'],
      [('sky subtraction', 'metadetect/lsst/skysub.py')],
      [L + 'skysub.*', L + 'util.override_config', L + 'util.get_stats_mask', L + 'util.get_detection_mask'],
      classes=[L + 'skysub.*'], consts=[L + 'skysub.*', L + 'defaults.*']),
    P('C31', 'Results have the documented columns and types',
      'Results have the same columns with the same types and shapes for a given configuration, whatever was '
      'detected or failed, so that results can be concatenated; names carry the prefix of the fitter and flux '
      'columns are per band. Every column that is written exists in the result it is written to.',
      ['inputs', 'configurations'],
      'all configurations and outcomes',
      'All paths that create result structures must agree.' + STUBBED,
      ['metadetect/fitting.py', 'metadetect/metadetect.py', 'metadetect/lsst/measure.py', 'metadetect/lsst/metadetect.py', 'metadetect/detect.py', 'metadetect/util.py'],
      [('structures', 'metadetect/fitting.py: get_wavg_output_struct, _make_combine_fit_results_wavg_dtype; metadetect/lsst/measure.py: get_output_dtype; metadetect/util.py: Namer')],
      [M + 'fitting.*', M + 'util.*', M + 'metadetect.Metadetect._add_positions_and_psf', M + 'detect.MEDSifier.*', M + 'detect.CatalogMEDSifier.*',
       L + 'measure.get_output*', L + 'measure._get_combined_struct', L + 'measure.measure', L + 'metadetect.add_*'],
      custom=['columns']),
    P('C32', 'Parts of the package agree on the interfaces they share',
      'Every call inside the package passes arguments the callee accepts, unpacks as many values as the callee '
      'returns on every path, and uses attributes and modules that exist; every variable is bound before it is '
      'used on every path. No reachable path ends in such an error.',
      ['programs', 'inputs', 'configurations'],
      'all call sites and paths',
      'Python resolves these only when the path runs, and most of the package cannot run here.',
      ['metadetect/*.py', 'metadetect/lsst/*.py'],
      [('whole package', 'every call site')],
      [M + '*'],
      custom=['interface', 'definite']),
    P('C33', 'Conversion between exposures and observations keeps the data',
      'Converting an exposure to an observation takes the image, the weight as the inverse variance with zero for '
      'unusable pixels, the psf and jacobian at the position asked for with the center in the local frame of the stamp, '
      'and the mask planes, from the same pixels; the reverse keeps them as well. Missing data and all-zero weights '
      'are reported with their dedicated errors.',
      ['inputs'],
      'all exposures, bounding boxes and positions',
      'The LSST packages are not installed, so no test runs this.',
      ['metadetect/lsst/util.py', 'metadetect/lsst/mbobs_extractor.py'],
      [('conversions', 'metadetect/lsst/util.py: extract_obs, exp2obs, obs2exp, get_stamp_mbobs, get_jacobian, extract_psf_image')],
      [L + 'util.*', L + 'mbobs_extractor.*', L + 'model_subtractor.ModelSubtractor.get_*']),
    P('C34', 'Rows and columns are never exchanged',
      'Wherever a position indexes an image, the row (y) selects the first axis and the column (x) the second, and '
      'shapes, origins, offsets and jacobian derivatives are paired with the same axis throughout. Results for '
      'a transposed scene are the transposed results, for images of any, not only square, shape.',
      ['inputs'],
      'all positions and non-square shapes',
      'Exchanged axes go unnoticed on square images with symmetric positions.' + STUBBED,
      ['metadetect/metadetect.py', 'metadetect/detect.py', 'metadetect/shearpos.py', 'metadetect/masking.py', 'metadetect/mfrac.py',
       'metadetect/lsst/*.py', 'metadetect/interpolate.py'],
      [('axis handling', 'all image indexing')],
      [M + 'metadetect.*', M + 'detect.*', M + 'shearpos.*', M + 'masking.*', M + 'interpolate.*', M + 'mfrac.*',
       L + 'metadetect.*', L + 'measure.*', L + 'masking.*', L + 'util.*', L + 'model_subtractor.*', L + 'mbobs_extractor.*', L + 'metacal_exposures.*'],
      custom=['axes']),
    P('C35', 'Results of several fitters are joined column-wise without loss',
      'Joining the results of several fitters keeps every column of every fitter for every object unchanged, with '
      'shared columns present once and required to agree; different lengths are an error. When there are no '
      'objects, an empty result with all known columns is returned, or None when there is no result at all.',
      ['inputs', 'configurations'],
      'all lists of results',
      'Every combination of results, lengths and missing results.' + STUBBED,
      ['metadetect/fitting.py', 'metadetect/metadetect.py'],
      [('joining', 'metadetect/fitting.py: combine_fit_res'), ('fitter loop', 'metadetect/metadetect.py: _measure, _set_fitter')],
      [M + 'fitting.combine_fit_res', M + 'metadetect.Metadetect._measure', M + 'metadetect.Metadetect._set_fitter',
       M + 'fitting.fit_mbobs_list_*', M + 'fitting.get_wavg_output_struct'],
      custom=['combine']),
    P('C36', 'Cached and color-dependent data belong to the request they answer',
      'Data cached within a run are only reused for a request with the same color and the same shear bands, so '
      'that a result never depends on the order of the requests. With color-dependent observations, each object is '
      'measured, for each metacal type, on the observations of its own color at its own position and box, and its '
      'row stays in order.',
      ['histories', 'inputs', 'configurations'],
      'all sequences of requests, colors and band combinations',
      'A stale entry shows only for particular sequences of requests.' + STUBBED,
      ['metadetect/metadetect.py'],
      [('cache', 'metadetect/metadetect.py: Metadetect._get_mbobs_data'),
       ('color path', 'metadetect/metadetect.py: Metadetect._go_bands_with_color')],
      [M + 'metadetect.Metadetect.*', M + 'detect.CatalogMEDSifier.*'],
      custom=['cachekeys']),
]

NA = [
    ('N01', 'Recovered shear is unbiased',
     'For simulated fields with a known constant shear, the shear recovered from the catalogs with the metacal '
     'responses agrees with the truth within the requirement on the calibration bias.',
     'A statistical statement about floating-point results of third-party fitters over random images; nothing in '
     'the shape of this source bounds it.'),
    ('N02', 'Detection is complete and pure above threshold',
     'Sources above the configured threshold are detected once each, and noise peaks are not, at the rates implied '
     'by the threshold.',
     'Quantifies over pixel noise and the behaviour of the external detection library, which is not part of this source.'),
    ('N03', 'Interpolated values are close to the true image',
     'Interpolated pixels differ from the unmasked image by no more than a small fraction of the noise for smooth images.',
     'Numerical accuracy of an external interpolator on arbitrary image content; no static bound exists in the source.'),
    ('N04', 'Fits converge and error estimates match the scatter',
     'Fits of well measured objects converge, and reported errors agree with the scatter over noise realizations.',
     'Depends on iterations inside the external fitting library and on noise statistics.'),
    ('N05', 'Residual sky level after subtraction is consistent with zero',
     'After sky subtraction the mean of blank pixels is zero within its error.',
     'A statistical statement about the output of external tasks on random images.'),
]
