"""Source of properties.jsonl (run tools/gen.py to regenerate it and MANIFEST.json)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


SLM, LIB, SIM, PRO, WIN, ANA, BE = ("pySLM2/slm.py", "pySLM2/_lib.py", "pySLM2/simulation.py", "pySLM2/profile.py",
                                    "pySLM2/window.py", "pySLM2/analysis.py", "pySLM2/_backend.py")
CTL, SAM = "pySLM2/util/controller.py", "pySLM2/util/sample.py"

prop("C01", "Fourier-plane geometry of every modulator",
     "For every modulator size and pixel pitch, the pixel in row i and column j is placed at x = (j - Nx/2)*pitch and "
     "y = (Ny/2 - i)*pitch, in arrays of shape (Ny, Nx) (x to the right, y upwards). Padding a simulation extends the "
     "same lattice outwards (rows by padding_y, columns by padding_x) without moving any device pixel, and converting a "
     "coordinate to a pixel index is the exact inverse of converting a pixel index to a coordinate.",
     ["inputs", "configurations"], "all Nx, Ny (even, odd, square or not), all pitches, all paddings, all pixels",
     "The tests compare two library grids with each other for one even-sized DLP9500; odd sizes, other pitches and the "
     "index conversion are never evaluated.", [SLM, SIM],
     [("pixel index to coordinate conversion", "SLM._convert_pixel_index_to_dmd_coordinate"),
      ("inverse conversion", "SLM._convert_slm_coordinate_to_pixel_index"),
      ("padded grid", "SLMSimulation._fourier_plane_padded_grid")],
     ["SLM.fourier_plane_grid", "SLMSimulation.fourier_plane_padded_grid"])

prop("C02", "Image-plane grid is the DFT-conjugate lattice",
     "The image-plane grid of a modulator, and the padded grid of a simulation, are the centred discrete Fourier "
     "conjugates of the corresponding Fourier-plane lattice: column k is at x = lambda*f*(k - floor(N/2))/(N*pitch) with "
     "the padded number of columns, row l at y = -lambda*f*(l - floor(M/2))/(M*pitch) with the padded number of rows, in "
     "arrays shaped like the simulated field.",
     ["inputs", "configurations"], "all sizes (even or odd), pitches, wavelengths, focal lengths and paddings",
     "Only an even DLP9500 with padding of exactly half its size is compared, and only padded against unpadded.",
     [SLM, SIM], [("image grid", "SLM._image_plane_grid"), ("padded image grid", "SLMSimulation._image_plane_padded_grid")],
     ["SLM.image_plane_grid", "SLMSimulation.image_plane_padded_grid"])

prop("C03", "Device models and derived optical constants",
     "A modulator reports exactly the wavelength, focal length, size and pitch it was built with and the scaling factor "
     "wavelength*focal_length; the first-order origin of a DMD is (cos theta, sin theta)*scaling_factor/(periodicity*pitch). "
     "The presets are DLP9500 1920x1080 at 10.8 um, DLP7000 1024x768 at 13.68 um, DLP9000 2560x1600 at 7.56 um and PLUTO_2 "
     "1920x1080 at 8 um, and every preset passes all its optional arguments on.",
     ["configurations", "inputs"], "every preset, every argument value including negative_order",
     "Tests never compare the preset data with the data sheets nor pass negative_order through a preset.", [SLM],
     [("presets", "DLP9500/DLP7000/DLP9000/PLUTO_2.__init__"), ("first order origin", "DMD.first_order_origin")],
     ["SLM properties", "DMD.first_order_origin"])

prop("C04", "Profile sampling onto the device grid",
     "Turning a profile into a tensor samples a function profile on the Fourier-plane grid by default and on the "
     "image-plane grid on request, and takes arrays, tensors and numbers as they are. The result always has shape (Ny, Nx) "
     "and the configured real dtype, or the complex dtype on request, whatever the kind of the profile.",
     ["inputs"], "all profile kinds (real or complex function profile, array, tensor, number), both planes, both dtypes",
     "The tests only pass function profiles, always through the default plane/dtype of one caller.", [SLM],
     [("sampling", "SLM.profile_to_tensor")], ["SLM.profile_to_tensor", "every method that accepts a profile"])

prop("C05", "Propagation law of the simulation",
     "After propagation the input field is the zero-padded incident profile, the output field is the zero-padded product of "
     "the incident profile with the modulator response, and the image field is the centred inverse DFT of that output field "
     "times Nx*Ny*pitch^2/(lambda*f) with padded sizes. Fields enter the transform in centred layout and leave it in "
     "centred layout for odd as well as even sizes; rows are padded by padding_y and columns by padding_x on both sides.",
     ["inputs", "configurations"], "all incident profiles, device states, sizes (odd and even), paddings",
     "Tests use even sizes only, where fftshift and ifftshift coincide, and symmetric beams, which hide row/column and "
     "orientation errors.", [SIM, LIB], [("propagation", "SLMSimulation.propagate_to_image")],
     ["SLMSimulation.input_field/output_field/image_plane_field"])

prop("C06", "Power accounting and energy conservation",
     "Each power is the sum of |field|^2 of its own plane times the pixel area of that plane, with image pixel area "
     "(lambda*f)^2/(Nx*Ny*pitch^2) for padded sizes. These areas and the propagation scale satisfy Parseval's identity, so "
     "in exact arithmetic image power equals output power for every field and padding.",
     ["inputs", "configurations"], "all fields, sizes, paddings and optical constants",
     "One Gaussian and one padding are tested with every mirror on; the image-power test is skipped.", [SIM],
     [("areas", "SLMSimulation.fourier_plane_pixel_area / image_plane_pixel_area"),
      ("powers", "SLMSimulation.get_input_power / get_output_power / get_image_plane_power")],
     ["SLMSimulation.get_*_power"])

prop("C07", "Simulation results follow the last propagation",
     "Before any propagation and after clear() every field and intensity reads None; after a propagation each accessor "
     "returns the field, or |field|^2, of its own plane from the latest propagation only. Reading a result never changes "
     "it, and propagating again recomputes all three planes from the current device state.",
     ["histories"], "all sequences of propagate, clear, block and reads, with device changes in between",
     "No test calls clear, reads before propagation, or compares two propagations of one simulation.", [SIM],
     [("result fields", "SLMSimulation.propagate_to_image / clear"), ("accessors", "SLMSimulation.*_field / *_intensity")],
     ["SLMSimulation accessors"])

prop("C08", "Blocking the zeroth order",
     "block_zeroth_order sets exactly the image-plane samples with x^2+y^2 < r^2 to zero on the padded image grid and leaves "
     "all others, and the input and output fields, as they were; r defaults to half the distance between the diffraction "
     "orders, lambda*f/(2*periodicity*pitch). Calling it before a propagation raises TypeError and changes nothing.",
     ["inputs", "histories"], "all fields, radii, paddings and call orders",
     "The tests call it once with the default radius and look at the first order only.", [SIM],
     [("mask", "DMDSimulation.block_zeroth_order")], ["DMDSimulation.image_plane_field"])

prop("C09", "Profile arithmetic is pointwise and type-safe",
     "For profiles p, q and numbers c, evaluating p+q, p-q, p*q, p/q, c+p, c*p, p+c, p-c, p*c, p/c, p**c and -p at (x, y) gives "
     "the same operation applied to the values at (x, y), with operands in the written order. Mixing real and complex "
     "operands gives the complex result; building a combination changes no operand.",
     ["inputs", "programs"], "all profile expressions of any depth, real and complex operands, int/float/complex scalars",
     "Tests combine a profile with a copy of itself and real scalars; no mixed real/complex product, complex scalar or "
     "quotient of two different profiles is tested.", [PRO],
     [("operators", "FunctionProfile.__add__ ... __neg__"), ("promotion", "FunctionProfile._make_attribute_func")],
     ["FunctionProfile.__call__"])

prop("C10", "Geometric transforms of profiles",
     "rotate(t) evaluates the profile at (cos t*x - sin t*y, sin t*x + cos t*y), shift(dx, dy) at (x-dx, y-dy), rescale_x(m) at "
     "(x/m, y), rescale_y(m) at (x, y/m), and as_complex_profile gives exp(i*p). They work on every kind of profile, "
     "including combinations and other transforms, and leave the original unchanged.",
     ["inputs", "programs"], "all profiles, angles, shifts and scales",
     "rotate and rescale are never tested, shift only inside a tolerance test.", [PRO],
     [("transforms", "FunctionProfile.rotate/shift/rescale_x/rescale_y/as_complex_profile")], ["FunctionProfile.__call__"])

prop("C11", "Beam profile formulas",
     "Hermite-Gaussian, Laguerre-Gaussian, super-Gaussian and constant profiles evaluate the documented formulas "
     "(including the order of the Hermite polynomial per axis, exp(-i*l*phi) and the polynomial L_p^|l| of 2r^2/w^2) with "
     "their own centre, width and amplitude, for all parameters and orders.",
     ["inputs"], "all centres, amplitudes, widths, orders (n, m, l, p) and super-Gaussian powers, all points",
     "Tests check orders up to (1,0) and one centre against each other, never negative l, p > 0, or n != m against the "
     "formula.", [PRO], [("formulas", "HermiteGaussian/LaguerreGaussian/SuperGaussian/ConstantProfile._func")],
     ["FunctionProfile.__call__"])

prop("C12", "Zernike polynomials",
     "Zernike(a, radius, n, m) evaluates a * N * R_n^|m|(rho) * (cos(m*phi) for m >= 0, sin(|m|*phi) for m < 0) with "
     "rho = r/radius, N = sqrt(n+1) for m = 0 and sqrt(2n+2) otherwise, N = 1 if normalize is off. It is zero for rho > 1 "
     "unless extrapolate is set, and indices with |m| > n or n-m odd raise ValueError.",
     ["inputs"], "all valid (n, m), all invalid (n, m), amplitudes, radii, points, both flags",
     "Tests cover n <= 3 and compare inside the aperture only; invalid indices and normalize=False are never tried.", [PRO],
     [("polynomial", "Zernike.__init__ / Zernike._func")], ["Zernike.__call__", "Zernike constructor"])

prop("C13", "Windows are exact 0/1 indicators",
     "The rectangular window is 1 exactly where |x-x0| < wx/2 and |y-y0| < wy/2 and 0 elsewhere; the circular window is 1 "
     "exactly where (x-x0)^2+(y-y0)^2 <= r^2 and 0 elsewhere, for all centres and extents.",
     ["inputs"], "all centres, widths, radii and points",
     "Windows are only used as arguments of one hologram test with equal widths.", [WIN],
     [("indicator", "RectangularWindowRectangle/RectangularWindowCircular._func")], ["window __call__"])

prop("C14", "Profile parameters are live and consistent",
     "Every public parameter of a profile or window reads back the value given at construction or by the last assignment, "
     "each under its own name. Assigning a parameter changes exactly that parameter, and takes effect in the next "
     "evaluation of the profile and of everything built from it, even after earlier evaluations.",
     ["histories", "inputs"], "all sequences of assignments and evaluations, all parameters, profiles and combinations",
     "No test assigns a parameter; a value frozen when the computation graph is first traced only shows on a second "
     "evaluation.", [PRO, WIN], [("variables", "tf.Variable attributes read by _func"), ("setters", "property setters")],
     ["profile properties", "FunctionProfile.__call__"])

prop("C15", "Precision configuration protocol",
     "Importing the package does not fix the precision; it can be set to 32 or 64 bits (as the TensorFlow type, the NumPy "
     "type or its name, all of which configure the same TensorFlow type) until any tensor type is first read, any other value raises ValueError, and once fixed an assignment raises instead of being applied. The complex and "
     "integer types always match the configured real type.",
     ["histories", "configurations"], "all orders of import, configuration and first use; both precisions",
     "The only test of it is skipped because it has to run in a process of its own.", [BE],
     [("freeze flag", "_BackEnd.dtype / dtype_complex / dtype_int")], ["BACKEND.dtype*", "import of pySLM2"])

prop("C16", "Uniform precision of all computations",
     "Every tensor the library creates uses the configured precision: no operation mixes 32- and 64-bit or real and complex "
     "tensors in either configuration. Fields are complex, profiles, phases, thresholds and grids real, and results come "
     "back in the configured types.",
     ["configurations", "inputs"], "both precisions, every public entry point and argument kind",
     "Tests run both precisions but reach only some entry points and only real inputs; mixing raises only when the "
     "operation is reached.", [SLM, LIB, SIM, PRO, WIN],
     [("dtype arguments", "all tf.constant/tf.cast/tf.range/tf.random calls")], ["result dtypes"])

prop("C17", "Interchangeable FFT backends",
     "Both FFT backends compute the same two-dimensional transform over the same axes with the same sign and normalization, "
     "and the forward and inverse transforms of a backend undo each other. Selecting a backend takes effect from the next "
     "transform on, also for computations that have already run, and results keep shape and configured complex type.",
     ["configurations", "histories"], "both backends, both directions, any switch between calls, all shapes",
     "On a machine without a GPU the TensorFlow branch is never executed, and no test switches the backend.", [LIB, BE],
     [("dispatch", "_lib._fourier_transform / _inverse_fourier_transform"), ("variable", "_BackEnd._fft_backend")],
     ["BACKEND.fft_backend", "all simulations and holograms"])

prop("C18", "Grating patterns of the ideal, simple and random methods",
     "The ideal pattern is amp*(1 + cos(2*pi/p*(x cos theta + y sin theta) - (phase_out - phase_in)))/2. The simple pattern is "
     "on exactly where the ideal one exceeds 0.5, and the random pattern is on exactly where "
     "(tanh(r*(u+w)) - tanh(r*(u-w)))/2 exceeds an independent uniform number per pixel, with u = arccos(cos(phase)), "
     "w = arcsin(amp), r = 10 by default.",
     ["inputs"], "all amplitude and phase maps, periods, angles, steepness values",
     "Tests check one reconstruction for ideal and ifta within 5 percent; simple and random are never run.", [LIB, SLM],
     [("patterns", "_lib._calculate_dmd_grating_ideal/_simple/_random")], ["DMD.set_dmd_grating_state"])

prop("C19", "Negative diffraction order",
     "With negative_order set, every method and every way of computing a grating (whole device, patch, from profiles, through "
     "every device preset) uses exactly the pattern of the positive order with both phase maps negated; it affects "
     "nothing else. Changing the attribute takes effect in the next calculation.",
     ["configurations", "inputs", "histories"], "all methods x all entry points x presets x both orders",
     "negative_order is never set in a test.", [SLM, LIB],
     [("sign flip", "_lib._calculate_dmd_grating_*"), ("forwarding", "DMD.set_dmd_grating_state/circular_patch/calculate_dmd_state")],
     ["DMD.dmd_state"])

prop("C20", "IFTA iteration",
     "The ifta method starts from s times the ideal grating and performs exactly N rounds; round i forces values above "
     "1 - t to 1 and below t to 0 with t = 0.5*(i+1)/N, propagates, replaces the image field by the ideal one inside the "
     "signal window only (blending with the weight of the window), propagates back and divides by the incident field. Pixels without incident light are 0, and the "
     "result is the final grating > 0.5 (defaults N = 200, s = 1).",
     ["inputs"], "all profiles, windows, iteration counts and scalings",
     "One run with N = 100 is checked within 5 percent; thresholds, unlit pixels, s and the default N are not.", [LIB, SLM],
     [("loop", "_lib._calculate_dmd_grating_ifta")], ["DMD.calculate_dmd_state(method='ifta')"])

prop("C21", "Mode matching from profiles",
     "For any input and target, the amplitude passed to the grating is the centred DFT of the target divided by the input "
     "amplitude, scaled so that its maximum is 1 and exactly 0 where the target spectrum is 0; phase_in is the phase of the "
     "input and phase_out that of the target spectrum (0 where it vanishes), after the optional window. The returned "
     "efficiency is pitch^2*Nx*Ny/(lambda*f) divided by the maximum of that ratio, for every method.",
     ["inputs"], "all input and target profiles, windows, methods, sizes (odd and even)",
     "The efficiency test is skipped; windows, complex inputs and odd sizes are never used.", [SLM],
     [("matching", "DMD._calc_amp_phase / DMD.calculate_dmd_state")], ["DMD.dmd_state", "return value"])

prop("C22", "DMD states and packing",
     "A new DMD and set_dmd_state_off are all off, set_dmd_state_on all on, as boolean (Ny, Nx) arrays; simple, random and "
     "ifta always leave a boolean (Ny, Nx) state and ideal a real grey-scale one. Packing gives one bit per mirror in "
     "row-major order, most significant bit first, and raises TypeError for a state that is not boolean.",
     ["histories", "inputs"], "all devices, methods and sequences of operations",
     "Only all-on and all-off states are packed, where order does not matter; no state dtype is checked.", [SLM],
     [("states", "DMD.set_dmd_state_off/on"), ("packing", "DMD.pack_dmd_state")], ["DMD.dmd_state", "DMD.pack_dmd_state"])

prop("C23", "Circular patches are local",
     "circular_patch changes exactly the mirrors whose pixel index lies strictly closer than d/2 to (i, j), with i counting "
     "rows and j columns; inside, the state becomes what set_dmd_grating_state gives for the same arguments, and every "
     "other mirror keeps its value, whatever was on the device before.",
     ["inputs", "histories"], "all centres (also off the device), diameters, methods and previous states",
     "circular_patch is never tested.", [SLM], [("mask", "DMD._circular_mask / DMD.circular_patch")], ["DMD.dmd_state"])

prop("C24", "Gerchberg-Saxton and MRAF iterations",
     "Both algorithms start from a phase uniform in [0, 2*pi) and run exactly N (default 200) rounds: propagate the input with "
     "the current phase, keep the image phase, impose the target amplitude (gs: everywhere; mraf: mixing*target weighted "
     "with the window plus (1-mixing) times the propagated field weighted with one minus the window, mixing 0.4 by default), propagate back and take the phase "
     "relative to the input beam. Target and window are taken in the layout of the image grid.",
     ["inputs"], "all input and target profiles, windows, mixing factors and iteration counts, odd and even sizes",
     "No test calls calculate_hologram.", [LIB, SLM],
     [("loops", "_lib._calculate_lcos_slm_hologram_gs / _mraf")], ["LCOS_SLM.slm_state"])

prop("C25", "LCOS holograms and LCOS simulation agree",
     "The LCOS modulator responds with exp(i*state), of unit modulus for every real state, so an all-zero state transmits the "
     "beam unchanged. This is the modulation for which calculate_hologram solves: the stored state is a real (Ny, Nx) phase map "
     "with the same sign and transform direction as the simulation.",
     ["inputs", "histories"], "all states, inputs and targets",
     "No test simulates an LCOS modulator.", [SLM, LIB, SIM],
     [("response", "LCOS_SLM._state_tensor"), ("hologram", "LCOS_SLM.calculate_hologram")],
     ["LCOS_SLM.slm_state", "SLMSimulation.image_plane_field of an LCOS_SLM"])

prop("C26", "A failed calculation leaves the device as it was",
     "An unknown method name raises ValueError from every calculation entry point, and whenever a calculation raises, the "
     "state of the device is exactly what it was before the call. A missing signal window raises instead of computing "
     "without one.",
     ["inputs", "histories", "fault_sequences"], "all entry points, any argument that makes a step fail, any failing step",
     "No test passes a bad method or looks at the state after an exception.", [SLM, LIB],
     [("dispatch", "_lib.calculate_dmd_grating / calculate_lcos_slm_hologram"), ("commit point", "assignments of dmd_state / slm_state")],
     ["DMD.dmd_state", "LCOS_SLM.slm_state"])

prop("C27", "No hidden sharing of arrays",
     "No function modifies an array, list, profile or keyword dictionary given by the caller. Grids and results handed out "
     "are the caller's own: writing into them changes neither the library's later results nor another array handed out, "
     "and arrays handed out earlier (including device states) are not changed by later calls.",
     ["histories", "programs"], "all call sequences and all in-place changes a caller can make",
     "Tests never write into a result or compare an argument before and after.", [SLM, SIM, ANA, PRO, LIB],
     [("copies", "np.array(...) in public accessors"), ("rebinding", "state assignments")],
     ["public array-valued attributes", "arguments"])

prop("C28", "Caches and compiled functions never serve stale data",
     "Anything memoised or compiled on first use depends only on data that cannot change afterwards and belongs to the same "
     "object: no result depends on which other device, simulation or profile was used before, nor on a value an object had "
     "earlier. Two devices of different geometry never share grids.",
     ["histories", "configurations"], "all interleavings of several devices, simulations and profiles",
     "Each test uses fresh objects once, so a stale or shared cache entry cannot show.", [SLM, SIM, PRO, LIB],
     [("lru_cache on grids", "SLM._fourier_plane_grid, SLM._image_plane_grid, SLMSimulation._*_padded_grid"),
      ("tf.function tracing", "all @tf.function")], ["grids", "profile values", "holograms"])

prop("C29", "Determinism and source of randomness",
     "Grids, profiles, windows, analysis, simulation and the ideal, simple and ifta methods are deterministic functions of their "
     "inputs. Randomness enters only the random threshold and the initial gs/mraf phase, one fresh draw per pixel and call "
     "from TensorFlow's generator, so that seeding TensorFlow makes every result reproducible.",
     ["histories", "inputs"], "all call sequences; every entry point",
     "Tests never seed or repeat a call; a draw frozen at trace time gives the same pattern for ever without failing a test.",
     [LIB], [("draws", "tf.random.uniform in _lib")], ["DMD.dmd_state", "LCOS_SLM.slm_state"])

prop("C30", "Zernike analysis of phase maps",
     "zernike_decomposition returns num_terms coefficients in ANSI order; coefficient j is the mean over the aperture (distance "
     "to the array centre strictly below radius) of profile times the unit Zernike of index (n_j, m_j), and the "
     "reconstruction is the sum of coefficient times polynomial. remove_trivial_phase subtracts, in turn, piston, both tilts "
     "and on request defocus computed the same way; ansi_j_to_n_m is the ANSI bijection; verbose changes no result.",
     ["inputs"], "all phase maps (odd and even shapes), radii, numbers of terms and flags",
     "Two even-sized smooth maps are tested; reconstruct, extrapolate, odd shapes and values outside the aperture are not.",
     [ANA], [("projection", "analysis.remove_trivial_phase / zernike_decomposition / ansi_j_to_n_m")],
     ["return values"])

prop("C31", "No hardware command before initialization or after close",
     "Loading images, firing the trigger and querying the size of a controller raise and send nothing to the hardware unless "
     "the controller was initialized and not closed since. A controller counts as initialized only after the whole hardware "
     "initialization has succeeded, and construction alone does not initialize it.",
     ["histories", "fault_sequences"], "all call sequences, all public operations, failures at any hardware call",
     "All controller tests need real hardware and are skipped.", [CTL],
     [("guard", "_check_initialization"), ("flag", "DMDControllerBase._initialized")],
     ["calls to the vendor library"])

prop("C32", "Image loading protocol of the controllers",
     "Loading stops the running display before touching device memory, announces exactly the number of given images, uploads "
     "each image once at its own position, and starts the display only after the last upload. Every mode the display depends "
     "on (projection mode, trigger edge, bin mode, timing, image count) is set by the load itself, so the outcome does not "
     "depend on earlier loads; multiple images are shown in order, one per trigger, a single one at once.",
     ["histories", "inputs"], "any number of images, any sequence of load_single and load_multiple",
     "All controller tests need real hardware and are skipped.", [CTL],
     [("ALP load", "ALPController.load_single / load_multiple"), ("Luxbeam load", "LuxbeamController.load_single / load_multiple"),
      ("sequencer program", "LuxbeamController.initialize")], ["calls to the vendor library"])

prop("C33", "Controller resources are released",
     "On-board memory of a sequence is released before another one is allocated and when the controller is closed, and never "
     "released twice. Closing halts the display, then releases the sequence, then the device; leaving a with block closes "
     "the controller, also after an exception, which is passed on.",
     ["histories", "fault_sequences"], "any number of loads and any exit",
     "All controller tests need real hardware and are skipped.", [CTL],
     [("release", "ALPController.close / _free_sequence / __exit__")], ["calls to the vendor library"])

prop("C34", "Optional hardware libraries and inversion",
     "The package and its utilities import without any vendor library; constructing a controller whose library is missing "
     "raises ModuleNotFoundError. A requested inversion is passed to the hardware exactly once and only when requested, images "
     "are sent with the full on/off range and never inverted in software, and connection arguments reach the vendor library.",
     ["configurations"], "each vendor library present or absent, invert on or off",
     "In the test environment both libraries are absent and no constructor is called.", [CTL],
     [("guarded imports", "top of util/controller.py"), ("constructors", "ALPController / LuxbeamController.__init__")],
     ["import of pySLM2.util", "calls to the vendor library"])

prop("C35", "Algorithm options reach the algorithm",
     "Every documented option (N, s, r, mixing_factor, signal_window, window, normalize, extrapolate, remove_defocus, padding, "
     "method) given to a public method changes only the quantity it names and reaches the computation unchanged from every "
     "public entry point; an omitted option has its documented default.",
     ["inputs", "configurations"], "all options x all entry points",
     "Only N and signal_window are ever passed, and no test would notice if they were ignored.", [SLM, LIB, PRO, ANA],
     [("kwargs dispatch", "_lib.calculate_dmd_grating / calculate_lcos_slm_hologram")], ["results"])

prop("C36", "Public interface is complete and self-consistent",
     "Everything a module of the package declares public exists and is importable from the package as documented, and every "
     "call in the package, the examples and the benchmarks to a library function, constructor or method matches the "
     "signature of its target. Public constructors, functions and methods accept their documented parameters by position "
     "and by keyword.",
     ["programs", "configurations"], "all exported names, all call sites",
     "Examples, benchmarks and most call sites are never executed by the tests.",
     ["pySLM2/__init__.py", "pySLM2/util/__init__.py", SLM, LIB, SIM, PRO, WIN, ANA, CTL, "examples", "pySLM2/runtime_benchmark"],
     [("exports", "__all__ and star imports")], ["import", "call sites"])

prop("C37", "Numbered test images",
     "number_image returns a fresh boolean array of shape (Ny, Nx) drawn with the decimal representation of the number in a "
     "font of half the image height, and a controller's number_image uses its own device size in the same order.",
     ["inputs"], "all numbers and sizes",
     "Only used in tests that need hardware.", [SAM, CTL], [("drawing", "sample.number_image")], ["return value"])

prop("C38", "Unusable arguments are rejected",
     "Arguments outside the documented domain are refused, not silently reinterpreted: a padding that is not an integer, or a "
     "device that is not a modulator (for DMDSimulation: not a DMD), raises TypeError; a map whose shape does not fit the device "
     "raises wherever a profile is accepted; combining a profile with anything but a profile or a number raises. The refused call "
     "leaves devices and simulations as they were.",
     ["inputs", "configurations"], "all entry points taking a profile, a padding or a device; all unfitting shapes",
     "The tests pass a few wrong types to the constructors and never a map of a wrong shape.", [SIM, SLM, PRO],
     [("type checks", "SLMSimulation.__init__ / DMDSimulation.__init__"), ("shape check", "SLM.profile_to_tensor"),
      ("operand check", "FunctionProfile._make_attribute_func")], ["exceptions", "device and simulation state"])

prop("C39", "Profile arguments may be given in any kind",
     "Wherever a public operation takes a profile (amplitude and phase maps, input, target and incident beams, windows and signal "
     "windows), a function profile of any class or combination, an array, a tensor, a real or complex number and a NumPy scalar "
     "are equivalent: the result is the one for the values sampled on the plane of that argument (image plane for targets and "
     "signal windows of calculate_dmd_state and calculate_hologram, Fourier plane otherwise).",
     ["inputs", "configurations"], "all entry points x all profile arguments x all kinds",
     "The tests pass one or two kinds to a few arguments, mostly with values for which the difference does not show.", [SLM, LIB, SIM, PRO],
     [("conversion of arguments", "SLM.profile_to_tensor and its callers")], ["device states", "fields", "returned efficiency"])

prop("C90", "Hologram algorithms converge",
     "More iterations of gs, mraf and ifta give, on typical targets, a simulated image closer to the target inside the signal window.",
     ["inputs"], "typical targets and inputs", "One target within 5 percent is tested.", [LIB],
     [("loops", "_lib")], ["simulated image"])
prop("C91", "Numerical accuracy of 32-bit results",
     "Results in 32-bit and 64-bit precision, and on CPU and GPU, agree within a small multiple of the 32-bit rounding error.",
     ["inputs", "configurations"], "all entry points", "Only coarse tolerances on few inputs are tested.", [LIB, PRO, SIM],
     [("arithmetic", "all numeric code")], ["results"])
prop("C92", "Zernike decomposition inverts synthesis on sampled apertures",
     "Decomposing a sampled sum of Zernike polynomials returns its coefficients up to a discretization error that vanishes with the number "
     "of samples in the aperture.",
     ["inputs"], "all coefficient vectors and resolutions", "One resolution is tested to three digits.", [ANA, PRO],
     [("projection", "analysis.zernike_decomposition")], ["coefficients"])
prop("C93", "GPU acceleration",
     "On a machine with a GPU the iterative algorithms run there and are substantially faster than on the CPU.",
     ["configurations"], "GPU machines", "CI has no GPU.", ["pySLM2/runtime_benchmark", BE],
     [("backend choice", "_BackEnd.__init__")], ["run time"])
