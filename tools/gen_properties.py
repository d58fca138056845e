"""Writes properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
S1 = 'kymatio/scattering1d/'
S2 = 'kymatio/scattering2d/'
S3 = 'kymatio/scattering3d/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


p('C01', '1D scattering values follow the definition',
  'For every valid (J, Q, T, stride, max_order, signal length) and every real signal or batch, each coefficient '
  'returned by Scattering1D under local averaging equals, at every retained time sample, the textbook cascade: reflect-pad, convolve '
  'with the Morlet wavelet(s) of its path with j2 > j1, take the modulus after each wavelet, convolve with the '
  'Gaussian low-pass of support T, and sample every stride-th instant of the padded time axis that falls inside the signal. '
  'All paths of the filter banks appear, in increasing order of (scattering order, filter indices), within floating-point accuracy, in the NumPy, Torch, TensorFlow and JAX frontends.',
  ['inputs', 'configurations'],
  'all J, Q (int, 1-tuple, pair), T (None, any number in [1, N]), power-of-two stride <= T, N (odd, non-dyadic, short), '
  'max_order 1 or 2, batch shapes, float32/float64, signals',
  'Tests compare a few stored arrays and shapes at one or two dyadic lengths (mostly J<=8, Q=8 or 16, default T); they do not '
  'cover the product of J, Q, T, stride and odd lengths, where padding, filter resolution and subsampling interact.',
  [S1 + 'core/scattering1d.py', S1 + 'frontend/base_frontend.py', S1 + 'filter_bank.py', S1 + 'utils.py'],
  [('cascade with subsampling at each node', S1 + 'core/scattering1d.py:scattering1d'),
   ('padding and unpadding', S1 + 'frontend/base_frontend.py:ScatteringBase1D.build/scattering'),
   ('border indices at every resolution', S1 + 'utils.py:compute_border_indices')],
  ['value returned by Scattering1D.__call__'])

p('C02', '1D filter banks have their closed form at every resolution',
  'For every J, Q, T and N, the exposed low-pass and wavelet filters equal periodized Gaussian and Morlet profiles with unit '
  'l1 norm in time, wavelets have exactly zero mean, and their center frequencies and bandwidths follow a geometric progression of ratio '
  '2^(-1/Q) down to the bandwidth 0.1/2^J and then an arithmetic one. The exposed scale j of each wavelet is the largest subsampling whose '
  'Nyquist limit contains xi + 5 sigma, and the filter stored for a coarser resolution is the periodization of the full-resolution one, available for every '
  'resolution the transform can reach.',
  ['configurations', 'inputs'],
  'all J, Q pairs, T, N; and for the filter functions all xi, sigma, N',
  'Tests check normalization and zero mean for a few J and Q at full resolution; the coarser levels and the elbow between the two progressions '
  'are only exercised through stored coefficients.',
  [S1 + 'filter_bank.py'],
  [('Morlet construction', S1 + 'filter_bank.py:morlet_1d'), ('frequencies', S1 + 'filter_bank.py:anden_generator'),
   ('levels', S1 + 'filter_bank.py:scattering_filter_factory'), ('subsampling factor', S1 + 'filter_bank.py:get_max_dyadic_subsampling')],
  ['psi1_f, psi2_f, phi_f', 'kymatio.scattering1d.filter_bank functions'])

p('C03', '1D averaging modes and strides are consistent views of one transform',
  "With T=0 Scattering1D returns the modulus coefficients themselves, each cropped to the signal at the rate 2^j of its last wavelet; with T='global' it returns, as a "
  'single sample, the sum over padded time of these same coefficients (and of the padded signal at order 0). With local averaging, a transform at stride s agrees, up to the small '
  'aliasing allowed by the filter design, with every s-th sample of the stride-1 transform on the same padded time axis, and oversampling=k is the transform at stride 2^(floor(log2 T)-k).',
  ['inputs', 'configurations'],
  'all J, Q, N, T modes, strides, oversampling levels, signals and frontends',
  'Tests run T=0 and global averaging on one signal and check shapes or agreement with NumPy, not the relation between the modes.',
  [S1 + 'frontend/base_frontend.py', S1 + 'core/scattering1d.py', S1 + 'utils.py'],
  [('mode parsing', S1 + 'utils.py:parse_T'), ('mode-dependent unpadding', S1 + 'frontend/base_frontend.py:ScatteringBase1D.scattering'),
   ('global sum', S1 + 'backend/*:average_global')],
  ['value returned by Scattering1D.__call__'])

p('C04', '1D metadata describes the output channel by channel',
  'For every valid configuration meta() of Scattering1D has one row per output channel, in output order, and its key, n, order, j, xi and sigma are those of the path that '
  'produced that channel (NaN beyond the order), identical to what list and dict outputs carry. output_size() equals the number of channels, output_size(detail=True) the numbers per order, '
  'and neither calling them nor the averaging mode changes the transform.',
  ['configurations'],
  'all J, Q, T modes, stride, max_order, N and frontends',
  'Tests check meta on two or three configurations with default T; small T, pairs Q and max_order=1 with every averaging mode are not combined.',
  [S1 + 'frontend/base_frontend.py'],
  [('dry run of the cascade', S1 + 'frontend/base_frontend.py:ScatteringBase1D.meta'), ('counting', S1 + 'frontend/base_frontend.py:ScatteringBase1D.output_size')],
  ['meta(), output_size(), list output'])

p('C05', 'Output formats carry the same coefficients',
  "For a given transform and input, out_type='array' is the stack of the coefficients of out_type='list' in the same order, and the dict output maps each path's filter index tuple to the same "
  'coefficient (1D, 2D where supported, and joint time-frequency in both formats). Path descriptors in the list output (order, n, j, and theta in 2D) identify the same path that meta() lists at that position.',
  ['inputs', 'configurations'],
  'all configurations, batch shapes, frontends and out_type values',
  'Tests compare array and list on single configurations.',
  [S1 + 'frontend/base_frontend.py', S2 + 'frontend/numpy_frontend.py', S2 + 'frontend/torch_frontend.py', S2 + 'frontend/tensorflow_frontend.py'],
  [('formatting', S1 + 'frontend/base_frontend.py:scattering'), ('formatting 2D', S2 + 'core/scattering2d.py:scattering2d')],
  ['value returned by the call operator under each out_type'])

p('C06', '2D scattering values follow the definition',
  'For every valid (J, L, max_order, spatial shape, pre_pad) and every real image or batch, each map returned by Scattering2D equals the cascade of reflection '
  'padding to a multiple of 2^J, convolution with the oriented Morlet wavelet(s) with j2 > j1, modulus, convolution with the Gaussian of scale 2^J, sampling every 2^J pixels '
  'and removal of the one-sample border. Non-square, odd and minimal (2^J) sizes are included, and with pre_pad=True the input is used as already padded, in the NumPy, Torch, TensorFlow and JAX frontends.',
  ['inputs', 'configurations'],
  'all J, L, shapes M x N with min >= 2^J, max_order, pre_pad, batch shapes, dtypes, images',
  'Tests compare one stored 32x32 (or 64x64) example with J=5, L=8 and check shapes elsewhere.',
  [S2 + 'core/scattering2d.py', S2 + 'frontend/base_frontend.py', S2 + 'backend/numpy_backend.py', S2 + 'backend/torch_backend.py', S2 + 'backend/tensorflow_backend.py'],
  [('cascade', S2 + 'core/scattering2d.py:scattering2d'), ('padding, including pad equal to image size', S2 + 'backend/*:Pad'), ('padded size', S2 + 'utils.py:compute_padding')],
  ['value returned by Scattering2D.__call__'])

p('C07', '2D filter banks have their closed form at every resolution',
  'For every J, L and image size the exposed 2D wavelets are periodized Morlet filters of scale 0.8*2^j, frequency 3pi/4/2^j, slant 4/L and L equally spaced angles, with zero '
  'mean and real Fourier transform, listed scale-major then angle; the low-pass is the periodized isotropic Gaussian of scale 0.8*2^(J-1). Each coarser level is the '
  'band-limited periodization of the full-resolution filter, available at every level the transform needs.',
  ['configurations'],
  'all J, L, padded sizes, levels',
  'Tests check one stored filter bank and the periodization of random arrays at one size.',
  [S2 + 'filter_bank.py'],
  [('Morlet', S2 + 'filter_bank.py:morlet_2d'), ('Gabor', S2 + 'filter_bank.py:gabor_2d'), ('levels', S2 + 'filter_bank.py:periodize_filter_fft'), ('bank', S2 + 'filter_bank.py:filter_bank')],
  ['psi, phi attributes', 'kymatio.scattering2d.filter_bank functions'])

p('C08', '2D output layout: channels, path order and shape',
  'For every valid configuration Scattering2D returns 1 + JL (+ L^2 J(J-1)/2 at order 2) channels, ordered by scattering order and then by (scale, angle) of the successive wavelets with strictly '
  'increasing scale, each of spatial size floor(M/2^J) x floor(N/2^J), behind unchanged leading batch dimensions. In the list output, j, theta and n of every path describe the filters actually used, '
  'as shown by probing with inputs concentrated at a single wavelet.',
  ['configurations', 'inputs'],
  'all J, L, shapes, max_order, batch shapes, out_types and frontends',
  'Tests check the channel count for a few configurations; the path labels are compared with nothing.',
  [S2 + 'core/scattering2d.py', S2 + 'frontend/numpy_frontend.py', S2 + 'frontend/torch_frontend.py', S2 + 'frontend/tensorflow_frontend.py', S2 + 'frontend/keras_frontend.py'],
  [('path loop', S2 + 'core/scattering2d.py:scattering2d'), ('reshaping', S2 + 'frontend/*:scattering')],
  ['shape and list output of Scattering2D'])

p('C09', '3D solid harmonic scattering values follow the definition',
  'For every valid (J, L, sigma_0, max_order, rotation_covariant, integral_powers, shape) and every real volume or batch, HarmonicScattering3D returns at (scale path, l, power q) the sum over space of '
  'the q-th power of the solid harmonic modulus sqrt(sum_m |x * psi_jlm|^2) (first order, scales 0..J) and of the same operator with j2 > j1 applied to it (second order, pairs in lexicographic order). '
  'With rotation_covariant=False only the first azimuthal order is used; results agree in the NumPy, Torch, TensorFlow and JAX frontends.',
  ['inputs', 'configurations'],
  'all J, L, sigma_0, powers, shapes (odd, even, non-cubic), max_order, batch shapes, volumes',
  'Tests compare one stored example (J=2, 128^3 or 16^3) and check batch shapes.',
  [S3 + 'core/scattering3d.py', S3 + 'frontend/numpy_frontend.py', S3 + 'backend/numpy_backend.py', S3 + 'backend/torch_backend.py', S3 + 'backend/tensorflow_backend.py'],
  [('cascade', S3 + 'core/scattering3d.py:scattering3d'), ('rotation modulus', S3 + 'backend/*:modulus_rotation'), ('integrals', S3 + 'backend/*:compute_integrals')],
  ['value returned by HarmonicScattering3D.__call__'])

p('C10', '3D solid harmonic filters have their closed form',
  'For every grid size (odd or even in each dimension), scale, l and m, the exposed 3D filters equal the Fourier transform of the normalized solid harmonic Gaussian wavelet '
  'r^l exp(-r^2/2sigma^2) Y_lm, centered at index zero; all wavelets with l >= 1 have zero mean, and the sum over m of their squared modulus is radial. '
  'In signal space the same construction gives the inverse transform, and the Gaussian filters are their l = 0 analogue with unit integral.',
  ['configurations'],
  'all M, N, O, J, L, sigma_0; fourier and signal space',
  'Tests check the filters through two stored examples with even cubic grids.',
  [S3 + 'filter_bank.py', S3 + 'utils.py'],
  [('solid harmonics', S3 + 'filter_bank.py:solid_harmonic_3d'), ('Gaussians', S3 + 'filter_bank.py:gaussian_3d'), ('angles', S3 + 'utils.py:get_3d_angles')],
  ['filters, gaussian_filters', 'filter bank functions'])

p('C11', '3D scattering is translation and rotation invariant and homogeneous',
  'HarmonicScattering3D returns the same coefficients for a volume and any circular integer translate of it, and, when rotation_covariant is True, for the volume rotated by quarter turns, mirrored or with permuted axes '
  '(with the shape permuted accordingly). Scaling the volume by a factor c multiplies the coefficients of power q by |c|^q.',
  ['inputs', 'configurations'],
  'all volumes, shifts, axis permutations and flips, factors, configurations, frontends',
  'Tests check one rotation and one translation of a Gaussian sum at J=2.',
  [S3 + 'core/scattering3d.py', S3 + 'filter_bank.py'],
  [('sum over m', S3 + 'backend/*:modulus_rotation'), ('spatial integration', S3 + 'backend/*:compute_integrals')],
  ['value returned by HarmonicScattering3D.__call__'])

p('C12', 'Joint time-frequency scattering values follow the definition',
  'For every valid (J, J_fr, Q, Q_fr, T, F, stride, stride_fr, format) and every signal, TimeFrequencyScattering returns order 0, then for every frequential filter (nonnegative spin at first order, both spins at second order, '
  'width-first over the temporal wavelet) the modulus of the scalogram convolved in time and along log-frequency, averaged in time by T and in frequency by F (no additional frequency averaging when the frequential filter is the low-pass), '
  "subsampled and cropped to the signal and to the existing first-order filters. The 0 and 'global' modes of T and F respectively skip or replace the averaging by a sum, in the NumPy, Torch, TensorFlow and JAX frontends.",
  ['inputs', 'configurations'],
  'all configurations in the documented domain, signals, batch shapes, frontends',
  'Tests run a handful of configurations and check shapes, key sets and energy, with no independent values.',
  [S1 + 'core/timefrequency_scattering.py', S1 + 'frontend/base_frontend.py'],
  [('width-first time scattering', S1 + 'core/timefrequency_scattering.py:time_scattering_widthfirst'), ('frequency scattering', S1 + 'core/timefrequency_scattering.py:frequency_scattering'),
   ('averaging', S1 + 'core/timefrequency_scattering.py:time_averaging/frequency_averaging'), ('frequential padding', S1 + 'frontend/base_frontend.py:TimeFrequencyScatteringBase.build')],
  ['value returned by TimeFrequencyScattering.__call__'])

p('C13', 'Joint time-frequency metadata and formats match the output',
  "For every valid configuration meta() of TimeFrequencyScattering lists exactly the paths of the output, in output order, in both formats and all out_types, and order, n, n_fr, j, xi, sigma, j_fr, xi_fr, sigma_fr and spin are those of the filters of the path. "
  "format='time' is format='joint' split along the first-order axis: coefficient (n1, ...) is the row of the joint coefficient at log-frequency n1, and keys are unique.",
  ['configurations', 'inputs'],
  'all configurations, formats, out_types, averaging modes',
  'Tests check key lengths for two configurations.',
  [S1 + 'frontend/base_frontend.py', S1 + 'core/timefrequency_scattering.py'],
  [('meta', S1 + 'frontend/base_frontend.py:TimeFrequencyScatteringBase.meta'), ('time formatting', S1 + 'core/timefrequency_scattering.py:time_formatting'), ('frequency unpadding', S1 + 'backend/*:unpad_frequency')],
  ['meta(), list and dict outputs'])

p('C14', 'All frontends compute the same transform',
  'For the same parameters and input, the NumPy, scikit-learn, Torch, TensorFlow, JAX (and, for 1D and 2D arrays, Keras) frontends return the same coefficients in the same order and shape within floating-point accuracy, for the 1D, 2D, 3D and joint time-frequency transforms. '
  'Each returns arrays of its own framework, accepts any number of leading batch dimensions, and rejects configurations that the others reject.',
  ['inputs', 'configurations'],
  'all parameters, batch shapes (including none and several dimensions) and inputs',
  'Tests run each frontend on its own stored example; cross-frontend agreement on other parameters is not tested.',
  ['kymatio/frontend/', 'kymatio/backend/', S1 + 'backend/', S2 + 'backend/', S3 + 'backend/'],
  [('shared core with framework primitives', 'kymatio/*/core'), ('framework frontends', 'kymatio/*/frontend')],
  ['outputs of the frontend classes in kymatio.numpy, torch, tensorflow, jax, keras, sklearn'])

p('C15', 'Batch elements are independent and batch shape is preserved',
  'For every transform and frontend, transforming a batch equals transforming its elements one by one: an element\'s coefficients do not depend on the other elements (their values, scale or number) or on its position, and the leading dimensions of the input, '
  'however many, are the leading dimensions of the output. In particular adding a singleton batch dimension only adds that dimension.',
  ['inputs', 'configurations'],
  'all batch shapes and contents, transforms, out_types and frontends',
  'Tests try two or three batch shapes and check shapes, or compare one element.',
  ['kymatio/backend/', S1 + 'frontend/base_frontend.py', S2 + 'frontend/', S3 + 'frontend/'],
  [('reshape to a flat batch and back', 'kymatio/backend/*:reshape_input/reshape_output'), ('batched primitives', 'kymatio/*/backend')],
  ['outputs of batched calls'])

p('C16', 'A transform has no memory and leaves its inputs alone',
  'Whatever sequence of calls precedes - transforms of other inputs, meta() and size queries, construction and use of other transform objects with other parameters, in-place modification of previously returned outputs, changes of out_type and back, rejected inputs - '
  'a scattering object returns for a given input the same result as a freshly built object. Inputs are never modified, and returned arrays do not alias the input or the state of the object.',
  ['histories', 'inputs', 'configurations'],
  'all interleavings of operations on several live objects, transforms and frontends',
  'Tests call each object once or twice.',
  [S1 + 'frontend/', S2 + 'frontend/', S3 + 'frontend/', S1 + 'filter_bank.py'],
  [('filters built once, read-only use', 'kymatio/*/frontend'), ('filter reloading in torch', 'kymatio/*/frontend/torch_frontend.py:load_filters')],
  ['outputs along a history', 'inputs after the call'])

p('C17', 'Torch transforms behave as modules',
  'Every Torch scattering object is a module whose filters are buffers: it has no trainable parameters, state_dict() followed by load_state_dict() into an equally configured object (also through serialization) restores the transform, the values of the buffers determine the result '
  '(scaling all of them by c scales order-m coefficients by c^(m+1)), and copy.deepcopy gives an independent equal module. Conversion to double precision and back, train/eval mode and nesting in other modules do not change the coefficients beyond rounding, and double input to a double module gives double output.',
  ['configurations', 'histories', 'inputs'],
  'all transforms, configurations and sequences of module operations',
  'Tests check the state_dict of one 2D and one 1D configuration and device transfer when a GPU exists.',
  [S1 + 'frontend/torch_frontend.py', S2 + 'frontend/torch_frontend.py', S3 + 'frontend/torch_frontend.py', 'kymatio/frontend/torch_frontend.py'],
  [('register_filters / load_filters', 'kymatio/*/frontend/torch_frontend.py')],
  ['state_dict(), buffers(), forward'])

p('C18', 'Gradients are exact and finite',
  'In the Torch, TensorFlow and JAX frontends the gradient of any smooth function of the coefficients with respect to the input equals the derivative of the transform as defined, for the 1D, 2D, 3D and joint time-frequency transforms and all averaging modes and out_types. '
  'It is finite for every input where the transform is locally Lipschitz, in particular 1D, 2D and joint time-frequency gradients at the zero signal and at constant or sparse signals, where the modulus contributes the zero subgradient.',
  ['inputs', 'configurations'],
  'all inputs (generic, sparse, zero, constant), output weightings and configurations',
  'Tests differentiate one 1D configuration per frontend (and modulus on one tensor).',
  ['kymatio/backend/torch_backend.py', S1 + 'backend/', S2 + 'backend/', S3 + 'backend/'],
  [('stable modulus', 'kymatio/backend/torch_backend.py:ModulusStable'), ('differentiable primitives', 'kymatio/*/backend')],
  ['autograd / GradientTape / jax.grad results'])

p('C19', 'Scattering is homogeneous, sign-blind, mean-blind and nonexpansive',
  'For every configuration of the 1D, 2D and joint transforms: multiplying the input by c multiplies order 0 by c and all other coefficients by |c|; order 0 is linear; adding a constant to the signal changes nothing above order 0, where it adds that constant; coefficients above order 0 are nonnegative up to the rounding and Gibbs effects of resampling. '
  'In 1D with local averaging the largest change of any coefficient is at most the largest change of the signal.',
  ['inputs', 'configurations'],
  'all signals, factors, offsets, pairs of signals, configurations and frontends',
  'Tests check nothing of this beyond constant signals in one configuration.',
  [S1 + 'core/scattering1d.py', S2 + 'core/scattering2d.py', S1 + 'core/timefrequency_scattering.py', S1 + 'filter_bank.py'],
  [('zero-mean, l1-normalized filters', S1 + 'filter_bank.py:morlet_1d'), ('modulus', 'kymatio/*/backend')],
  ['outputs'])

p('C20', 'Scattering commutes with the symmetries of its grid',
  'Reversing an even-length signal in time reverses the stride-1 1D coefficients of every path. Cyclically shifting a pre-padded image by multiples of 2^J shifts every 2D map by the corresponding number of samples, and transposing an image (L even) transposes every map and permutes its angles by reflection about the diagonal (up to the one-sided truncation at Nyquist of the filters when L is small); mirroring a pre-padded image about a grid point mirrors every map and reflects its angles. Reversing a signal in time reverses the stride-1 joint time-frequency coefficients and exchanges the paths of opposite spin. '
  'Shifting a signal in time by a multiple of the stride shifts 1D coefficients away from the borders of the signal.',
  ['inputs', 'configurations'],
  'all signals/images, shifts, configurations and frontends',
  'Tests contain no symmetry checks in 1D or 2D.',
  [S1 + 'core/scattering1d.py', S2 + 'core/scattering2d.py', S2 + 'filter_bank.py', S1 + 'utils.py'],
  [('symmetric filters and padding', S1 + 'filter_bank.py, ' + S2 + 'filter_bank.py'), ('grid alignment', S1 + 'utils.py:compute_border_indices')],
  ['outputs'])

p('C21', 'Invalid arguments are rejected with the documented error class',
  'Every constructor argument or input outside the documented domain is rejected with an exception of the documented class before any coefficient is returned: signal lengths and spatial sizes that do not match, too few dimensions, T larger than the signal or in (0, 1), unknown out_type or format, non-power-of-two or incompatible strides, negative or non-integer oversampling, Q below 1, 2^J larger than an image side, unknown method or backend, non-tensor input. '
  'Conversely every argument inside the documented domain is accepted.',
  ['inputs', 'configurations'],
  'all out-of-domain values of each argument and their combination with valid values of the others, in each frontend',
  'Tests try one invalid value per argument in one configuration.',
  [S1 + 'frontend/base_frontend.py', S1 + 'utils.py', S2 + 'frontend/', S3 + 'frontend/', 'kymatio/frontend/base_frontend.py'],
  [('argument checks', S1 + 'frontend/base_frontend.py:build/_check_runtime_args'), ('input checks', 'kymatio/backend/*:input_checks')],
  ['exceptions'])

p('C22', 'Backend primitives meet their contracts',
  'For every backend and every admissible tensor, Fourier-domain subsampling by k is the transform of keeping every k-th sample, forward and inverse transforms invert each other, the real transforms agree with the complex ones, pointwise multiplication broadcasts the (complex, or where the backend supports it real) filter over the batch only, the modulus is the complex modulus, padding mirrors (or zero-extends) without repeating the edge and unpadding inverts it, '
  'and stacking, averaging, swapping, splitting act on the documented axis. Real-valued operations reject complex data and vice versa, multiplication rejects incompatible filters.',
  ['inputs'],
  'all tensor shapes, batch ranks, factors, paddings and values',
  'Tests try one or two shapes for each primitive.',
  ['kymatio/backend/', S1 + 'backend/', S2 + 'backend/', S3 + 'backend/'],
  [('subsample_fourier', '*/backend/*:subsample_fourier'), ('cdgmm', 'kymatio/backend/*:cdgmm'), ('pad/unpad', '*/backend/*:pad, Pad, unpad')],
  ['backend methods'])

p('C23', 'scikit-learn and Keras integration agree with the core transforms',
  'A scikit-learn scattering transformer returns from transform and predict the flattened NumPy coefficients of each row for any number of rows, is unchanged by fit, and get_params, set_params-free clone and Pipeline use preserve its behaviour. '
  'A Keras scattering layer returns the TensorFlow coefficients inside any model, compute_output_shape equals the actual output shape, and get_config/from_config rebuild an equivalent layer, so that models holding one can be cloned, saved and loaded.',
  ['configurations', 'inputs'],
  'all parameters, row counts, input ranks',
  'Tests use one configuration per class.',
  ['kymatio/frontend/sklearn_frontend.py', 'kymatio/frontend/keras_frontend.py', S1 + 'frontend/keras_frontend.py', S2 + 'frontend/keras_frontend.py', S1 + 'frontend/sklearn_frontend.py', S2 + 'frontend/sklearn_frontend.py', S3 + 'frontend/sklearn_frontend.py'],
  [('transformer mixin', 'kymatio/frontend/sklearn_frontend.py'), ('layer wrapper', 'kymatio/frontend/keras_frontend.py')],
  ['predict/transform, clone, layers and models'])

p('C24', 'Cache directories resolve and are created as documented',
  'The base cache directory is the explicit argument if given, else the environment variable KYMATIO_CACHE, else kymatio_cache under the home directory. get_cache_dir returns that base joined with the name, creating it (with parents) only when creation is allowed, leaving existing content untouched, and raises ValueError without side effects when it is missing and creation is not allowed.',
  ['histories', 'inputs'],
  'all names (nested, empty), bases, environments and sequences of calls and filesystem changes',
  'Tests check one directory.',
  ['kymatio/caching.py'],
  [('resolution', 'kymatio/caching.py:find_cache_base_dir'), ('creation', 'kymatio/caching.py:get_cache_dir')],
  ['returned path, filesystem'])

p('C25', 'Compiled and traced transforms equal eager ones',
  'Wrapping a scattering object in jax.jit, jax.vmap, tf.function (with static or unknown batch size where the frontend supports it) or torch.jit.trace gives the same coefficients as calling it eagerly, including for later inputs with other values than the one used for tracing.',
  ['inputs', 'configurations', 'histories'],
  'all configurations, inputs and reuse of the compiled function',
  'Tests trace one configuration in TensorFlow 2D/1D and none in JAX.',
  [S1 + 'backend/', S2 + 'backend/', S3 + 'backend/', S2 + 'frontend/tensorflow_frontend.py'],
  [('framework-native primitives, no value-dependent branches', 'kymatio/*/backend')],
  ['outputs of the compiled functions'])

p('C26', '3D synthetic densities equal sums of Gaussians',
  'generate_weighted_sum_of_gaussians returns, for every grid, batch of positions, weights and width, the sum of the weighted normalized 3D Gaussians at these positions up to the first zero weight of each batch element, so that it is linear in the weights, covariant to translations of grid and positions, and integrates to the total weight when the support is inside the grid.',
  ['inputs'],
  'all grids, positions, weights (including zeros and padding), sigma, batch sizes',
  'Tests use it only to generate one input.',
  [S3 + 'utils.py'],
  [('sum', S3 + 'utils.py:generate_weighted_sum_of_gaussians')],
  ['returned array'])

p('C27', 'The frontend selector yields the requested frontend with the same behaviour',
  'kymatio.Scattering1D, Scattering2D, HarmonicScattering3D and TimeFrequencyScattering return, for every frontend name in any letter case (NumPy by default), an object of that frontend which behaves like the class imported from the frontend module, pass all other arguments through, reject unknown frontends with RuntimeError and mismatched backends with ImportError, and propagate constructor errors. '
  'Arguments that are left out take the documented defaults. Derived attributes (stride, T, F, Q, log2 values, M and N) report the values the transform actually uses.',
  ['configurations'],
  'all frontends, spellings, transforms, arguments',
  'Tests check the names once with fixed arguments.',
  ['kymatio/frontend/entry.py', 'kymatio/frontend/base_frontend.py', S1 + 'frontend/entry.py', S2 + 'frontend/entry.py', S3 + 'frontend/entry.py'],
  [('dispatch', 'kymatio/frontend/entry.py:ScatteringEntry.__init__'), ('backend check', 'kymatio/frontend/base_frontend.py:_instantiate_backend')],
  ['type and outputs of the object returned'])

p('C28', 'Overlapping and interrupted calls do not disturb one another',
  'Whatever the interleaving of threads that call one scattering object, build and call others, or query metadata, each operation returns what it returns alone. '
  'An operation cut short at any point by an exception (an interrupt, lack of memory, an error in a callback) leaves no trace: every later call of the same object, and every object built later, gives the result of an undisturbed process, and inputs are unmodified.',
  ['schedules', 'crash points', 'histories'],
  'all interleavings and interruption points inside the library, for all transforms and configurations',
  'Tests are single-threaded and never interrupt a call.',
  ['kymatio/scattering1d/frontend/', 'kymatio/scattering2d/frontend/', 'kymatio/scattering3d/frontend/', 'kymatio/scattering1d/core/', S1 + 'backend/', S2 + 'backend/', S3 + 'backend/'],
  [('no per-call state on the object', 'kymatio/*/frontend/*:scattering'), ('filter reloading in torch', 'kymatio/*/frontend/torch_frontend.py:load_filters'), ('stateless primitives', 'kymatio/*/backend')],
  ['outputs of calls under a generated schedule or after an interrupted one'])

p('C29', 'Calls and dropped objects keep nothing alive',
  'A call keeps no reference to its input, its intermediate results or its output: once the caller drops them (and, in a framework with gradients, the graph) their memory can be reclaimed, whatever the number, shapes, types and failures of previous calls, so that memory in use does not grow with the number of calls. '
  'A scattering object that is dropped is reclaimed with its filters, and repeating a history of constructions and calls leaves no more live arrays than before.',
  ['histories', 'inputs', 'configurations'],
  'all histories of calls, rejected calls, gradients, metadata queries, constructions and deletions, for all transforms, output types and frontends',
  'Tests never look at what stays alive after a call.',
  ['kymatio/scattering1d/frontend/', 'kymatio/scattering2d/frontend/', 'kymatio/scattering3d/frontend/', 'kymatio/scattering1d/core/', 'kymatio/scattering2d/core/', 'kymatio/scattering3d/core/', S1 + 'backend/', S2 + 'backend/', S3 + 'backend/', 'kymatio/backend/'],
  [('no per-call state on objects', 'kymatio/*/frontend/*:scattering'), ('stateless primitives', 'kymatio/*/backend'), ('filters owned by the object', 'kymatio/*/frontend/*:create_filters, register_filters')],
  ['weak references to inputs, outputs and objects; live arrays and traced memory'])

p('C30', 'Process-wide settings are neither changed nor able to change results',
  'No construction, call, rejected call, metadata query, gradient or interrupted operation changes a setting of the process (NumPy error state, random states, environment, working directory, warning filters, signal handlers, default dtypes, gradient and thread modes, framework options), prints, writes to disk, or raises a warning other than the documented deprecations and the border-effect notice. '
  'Conversely, coefficients and their types do not depend on such settings at construction or call: floating-point errors raised (underflow excepted) or ignored, seeds, torch default dtype, gradient, inference, determinism and anomaly modes, TensorFlow eager functions, Keras float type, JAX x64, NaN debugging and disabled compilation, closed standard streams, other threads, forked processes, interpreter flags, hash seeds and import orders.',
  ['histories', 'configurations', 'crash points'],
  'all histories of operations of all transforms and frontends, under all such settings and in other processes',
  'Tests run in one process with default settings and never look at them afterwards.',
  ['kymatio/frontend/', 'kymatio/backend/', 'kymatio/scattering1d/', 'kymatio/scattering2d/', 'kymatio/scattering3d/'],
  [('filters moved to torch with a given dtype', 'kymatio/*/frontend/torch_frontend.py:register_filters'), ('local error state', 'kymatio/scattering3d/utils.py:sqrt'), ('arrays allocated with the dtype of the input', 'kymatio/*/backend/torch_backend.py')],
  ['process-wide settings after each operation; outputs under other settings and in other processes'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
