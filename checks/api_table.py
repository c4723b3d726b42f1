"""Public interface: parameters in order (name, optional); None: attribute."""
TABLE = {
    ('pySLM2', 'SLM'): {
        '__init__': [('wavelength', False), ('focal_length', False), ('Nx', False), ('Ny', False), ('pixel_size', False)],
        'scaling_factor': None,
        'Nx': None,
        'Ny': None,
        'wavelength': None,
        'focal_length': None,
        'pixel_size': None,
        'fourier_plane_grid': None,
        'image_plane_grid': None,
        'profile_to_tensor': [('profile', False), ('at_fourier_plane', True), ('complex', True)],
    },
    ('pySLM2', 'DMD'): {
        '__init__': [('wavelength', False), ('focal_length', False), ('periodicity', False), ('theta', False), ('Nx', False), ('Ny', False), ('pixel_size', False), ('negative_order', True)],
        'set_dmd_state_off': [],
        'set_dmd_state_on': [],
        'set_dmd_grating_state': [('amp', True), ('phase_in', True), ('phase_out', True), ('method', True)],
        'circular_patch': [('i', False), ('j', False), ('amp', False), ('phase_in', False), ('phase_out', False), ('d', False), ('method', True)],
        'calculate_dmd_state': [('input_profile', False), ('target_profile', False), ('method', True), ('window', True)],
        'theta': None,
        'first_order_origin': None,
        'pack_dmd_state': [],
    },
    ('pySLM2', 'DLP9500'): {
        '__init__': [('wavelength', False), ('focal_length', False), ('periodicity', False), ('theta', False), ('negative_order', True)],
    },
    ('pySLM2', 'DLP7000'): {
        '__init__': [('wavelength', False), ('focal_length', False), ('periodicity', False), ('theta', False), ('negative_order', True)],
    },
    ('pySLM2', 'DLP9000'): {
        '__init__': [('wavelength', False), ('focal_length', False), ('periodicity', False), ('theta', False), ('negative_order', True)],
    },
    ('pySLM2', 'LCOS_SLM'): {
        '__init__': [('wavelength', False), ('focal_length', False), ('Nx', False), ('Ny', False), ('pixel_size', False)],
        'reset_slm_state': [],
        'calculate_hologram': [('input_profile', False), ('target_amp_profile', False), ('method', True)],
    },
    ('pySLM2', 'PLUTO_2'): {
        '__init__': [('wavelength', False), ('focal_length', False)],
    },
    ('pySLM2', 'SLMSimulation'): {
        '__init__': [('slm', False), ('padding_x', True), ('padding_y', True)],
        'clear': [],
        'fourier_plane_pixel_area': None,
        'image_plane_pixel_area': None,
        'padding_x': None,
        'padding_y': None,
        'Nx': None,
        'Ny': None,
        'image_plane_padded_grid': None,
        'fourier_plane_padded_grid': None,
        'propagate_to_image': [('input_profile', False)],
        'input_field': None,
        'output_field': None,
        'image_plane_field': None,
        'input_intensity': None,
        'output_intensity': None,
        'image_plane_intensity': None,
        'get_input_power': [],
        'get_output_power': [],
        'get_image_plane_power': [],
        'scaling_factor': None,
    },
    ('pySLM2', 'DMDSimulation'): {
        '__init__': [('dmd', False), ('padding_x', True), ('padding_y', True)],
        'first_order_origin': None,
        'block_zeroth_order': [('r', True)],
    },
    ('pySLM2', 'FunctionProfile'): {
        '__call__': [('x', False), ('y', False)],
        'rotate': [('theta', False)],
        'shift': [('dx', False), ('dy', False)],
        'rescale_x': [('m', False)],
        'rescale_y': [('m', False)],
        'as_complex_profile': [],
    },
    ('pySLM2', 'ConstantProfile'): {
        '__init__': [('c', True)],
        'c': None,
    },
    ('pySLM2', 'HermiteGaussian'): {
        '__init__': [('x0', False), ('y0', False), ('a', False), ('w', False), ('n', True), ('m', True)],
        'x0': None,
        'y0': None,
        'a': None,
        'w': None,
        'n': None,
        'm': None,
    },
    ('pySLM2', 'LaguerreGaussian'): {
        '__init__': [('x0', False), ('y0', False), ('a', False), ('w', False), ('l', True), ('p', True)],
    },
    ('pySLM2', 'SuperGaussian'): {
        '__init__': [('x0', False), ('y0', False), ('a', False), ('w', False), ('p', True)],
        'x0': None,
        'y0': None,
        'a': None,
        'w': None,
        'p': None,
    },
    ('pySLM2', 'Zernike'): {
        '__init__': [('a', False), ('radius', False), ('n', True), ('m', True), ('normalize', True), ('extrapolate', True)],
        'a': None,
        'radius': None,
        'is_normalized': [],
        'normalization': None,
        'n': None,
        'm': None,
    },
    ('pySLM2', 'RectangularWindowRectangle'): {
        '__init__': [('x0', False), ('y0', False), ('wx', False), ('wy', False)],
        'x0': None,
        'y0': None,
        'wx': None,
        'wy': None,
    },
    ('pySLM2', 'RectangularWindowCircular'): {
        '__init__': [('x0', False), ('y0', False), ('r', False)],
        'x0': None,
        'y0': None,
        'r': None,
    },
    ('pySLM2', 'remove_trivial_phase'): [('profile', False), ('radius', False), ('remove_defocus', True), ('verbose', True)],
    ('pySLM2', 'ansi_j_to_n_m'): [('idx', False)],
    ('pySLM2', 'zernike_decomposition'): [('profile', False), ('radius', False), ('num_terms', False), ('verbose', True), ('reconstruct', True), ('extrapolate', True)],
    ('pySLM2.util', 'DMDControllerBase'): {
        '__init__': [('invert', True)],
        'initialize': [],
        'is_initialized': [],
        'close': [],
        'load_single': [('dmd_state', False)],
        'load_multiple': [('dmd_states', False)],
        'load_sequence': [('images', False)],
        'Nx': None,
        'Ny': None,
        'fire_software_trigger': [],
        'number_image': [('i', False)],
    },
    ('pySLM2.util', 'ALPController'): {
        '__init__': [('invert', True), ('version', True)],
        'initialize': [],
        'close': [],
        'Nx': None,
        'Ny': None,
        'load_single': [('dmd_state', False)],
        'load_multiple': [('dmd_states', False)],
    },
    ('pySLM2.util', 'LuxbeamController'): {
        '__init__': [('ip', False), ('invert', True), ('timeout', True)],
        'initialize': [],
        'close': [],
        'load_single': [('dmd_state', False)],
        'load_multiple': [('dmd_states', False)],
        'Nx': None,
        'Ny': None,
        'fire_software_trigger': [],
    },
    ('pySLM2.util', 'number_image'): [('i', False), ('Nx', False), ('Ny', False)],
}
