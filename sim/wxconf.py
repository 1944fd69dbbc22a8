"""Configuration files for simulated jobs."""

SECTIONS = {
    "General": ["equations", "depth_approx"],
    "System": ["desired_device"],
    "Grid": ["grid_type", "discretization", "lambda0", "phi0", "alpha0", "ztop", "x0", "x1", "z0", "z1"],
    "Test_case": ["case_number", "matsuno_wave_type", "matsuno_amp", "bubble_theta", "bubble_rad"],
    "Time_integration": ["dt", "t_end", "time_integrator", "exponential_solver", "tolerance", "gmres_restart",
                         "starting_step", "jacobian_method", "verbose_solver", "exode_method", "exode_controller",
                         "krylov_size", "linear_solver"],
    "Preconditioning": ["preconditioner", "precond_flux", "precond_tolerance", "num_pre_smoothe", "num_post_smoothe", "mg_smoother",
                        "exp_smoothe_spectral_radii", "exp_smoothe_num_iters", "mg_solve_coarsest", "kiops_dt_factor",
                        "verbose_precond", "dg_to_fv_interp", "pseudo_cfl", "num_mg_levels"],
    "Spatial_discretization": ["num_solpts", "num_elements_horizontal", "num_elements_vertical", "filter_apply",
                               "filter_order", "filter_cutoff", "filter_tapering", "expfilter_apply", "expfilter_order",
                               "expfilter_strength", "expfilter_cutoff", "relief_layer_height", "apply_sponge", "sponge_tscale", "sponge_zscale"],
    "Output_options": ["stat_freq", "output_freq", "save_state_freq", "store_solver_stats", "output_dir",
                       "base_output_file", "solver_stats_file", "store_total_time", "output_format"],
}
WHERE = {k: s for s, ks in SECTIONS.items() for k in ks}

SW = dict(equations="shallow_water", grid_type="cubed_sphere", lambda0=0.0, phi0=0.7853981633974483, alpha0=0.0,
          case_number=6, dt=600, t_end=1200, time_integrator="tvdrk3", tolerance=1e-7, num_solpts=3,
          num_elements_horizontal=2, preconditioner="none")
EULER = dict(equations="euler", depth_approx="shallow", grid_type="cubed_sphere", lambda0=0.0, phi0=0.0, alpha0=0.0,
             ztop=10000.0, case_number=31, dt=10, t_end=20, time_integrator="tvdrk3", tolerance=1e-7, num_solpts=2,
             num_elements_horizontal=2, num_elements_vertical=2, preconditioner="none")

CART = dict(equations="euler", grid_type="cartesian2d", discretization="dg", x0=0, x1=1000, z0=0, z1=1500, case_number=2, bubble_theta=303.15,
            bubble_rad=250.0, dt=1, t_end=2, time_integrator="tvdrk3", tolerance=1e-7, num_solpts=3, num_elements_horizontal=3,
            num_elements_vertical=4, preconditioner="none")


def ini(base, **kw):
    d = dict(base)
    d.update(kw)
    secs = {}
    for k, v in d.items():
        if v is None:
            continue
        secs.setdefault(WHERE[k], []).append(f"{k} = {v}")
    return "\n".join(f"[{s}]\n" + "\n".join(ls) + "\n" for s, ls in secs.items())
