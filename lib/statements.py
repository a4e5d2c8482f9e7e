"""What the properties say, and where they are anchored.  lib/gen.py writes properties.jsonl and MANIFEST.json from this."""
NOTES = "No hooks in /repo: everything is observed at the public API, at the sanitizers' instrumentation and at the process boundary (linker-wrapped exit and allocation)."
NA = {}
P = {}


def prop(pid, title, statement, over, q, why, files, mech, observe, technique, note, state=None):
    P[pid] = dict(title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state)


EXPL = "exploration: held on the generated executions listed in the evidence; nothing is claimed about executions not driven. "
TESTS = "The existing tests are a handful of fixed runs of callxrtm and examples with one configuration each; "

prop("C01", "Results depend only on the current inputs, not on the history of calls",
     "After any sequence of setter calls, update calls, clear calls and solution calls on one model, a solution call returns the same radiances, mean radiances, fluxes and derivatives (to rounding) as a freshly created model of the same configuration that is given only the current inputs. Saved intermediate results must never leak from an earlier input state into a later answer.",
     ["histories", "inputs", "configurations"],
     "all configurations the library accepts, all orders of changing any input (layer optical properties, angles, levels, sources, surface, accuracy parameters, linearized inputs), interleaved with solutions by any enabled solver and for any output type",
     TESTS + "each run sets inputs once and calls once, so no history with a change after a solution is ever judged.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_save_tree.c"],
     [("dependency flags", "src/xrtm_model.c: set_deps(), DEP_MASK_*"), ("setters invalidate", "src/xrtm_interface.c: set_deps() in each xrtm_set_*"), ("derivative flag update", "src/xrtm_interface.c: xrtm_update_varied_layers()")],
     ["xrtm_radiance", "xrtm_mean_radiance", "xrtm_flux", "xrtm_solution"],
     "offline history monitor: metamorphic comparison with a fresh instance as reference model", EXPL + "Trusts the fresh instance as the reference; a defect that affects both equally belongs to another property.",
     [("dependency bits", "which saved intermediates are stale", "src/xrtm_model.h: xrtm_data.dep_flags*")])

prop("C02", "Saving and stack-reuse options change speed only, never results",
     "With any combination of the save options (Legendre polynomials, phase matrices, local r/t, layer R/T/S, total R/T/S) or with stack reuse in adding, every solution over any history of input changes equals, to rounding, the solution of a fresh model with none of these options. The stack reuse guarantee is limited to models without thermal sources.",
     ["histories", "configurations", "inputs"],
     "all subsets of the save options and stack reuse with every solver that accepts them, over histories of input changes and repeated solutions",
     TESTS + "the save options and stack reuse are each run once from cold and never after a partial change of inputs.",
     ["src/xrtm_model.c", "src/xrtm_stacks.c", "src/xrtm_interface.c"],
     [("saved results per layer / Fourier term", "src/xrtm_model.c: get_local_r_t_u_w_all(), get_layer_R_T_S_U_W_V_all(), get_total_TOA_R_S_U_V()"), ("stack chain", "src/xrtm_stacks.c: build_stack_chain()")],
     ["xrtm_radiance", "xrtm_solution"],
     "offline history monitor: differential comparison with and without the option", EXPL + "The reference is the same library without the options.",
     [("stacks", "products of adding kept per group of layers without derivatives", "src/xrtm_stacks.h: stack_data")])

prop("C04", "No memory error, undefined behaviour or leak in any use of the interface",
     "No sequence of accepted or rejected calls of the public interface reads or writes outside its arrays, uses freed memory, executes undefined arithmetic, or loses memory: after destroying a model everything it allocated has been released.",
     ["histories", "inputs", "configurations"],
     "all configurations and call histories of the public interface, including rejected calls and repeated creation and destruction",
     TESTS + "they run uninstrumented, so an out-of-bounds access that does not change the printed numbers passes.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_work.c"],
     [("allocation by configured dimensions", "src/xrtm_interface.c: xrtm_create(), src/xrtm_work.c"), ("work arrays", "src/xrtm_work.c: get_work_*()"), ("release", "src/xrtm_interface.c: xrtm_destroy()")],
     ["sanitizer reports", "process exit status"],
     "AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer over the workloads of all monitors", EXPL + "Red-zone tools do not see intra-object overflows; Fortran and OpenBLAS are only checked at their interceptable calls. Pointer arithmetic of zero-length arrays (pointer-overflow, vla-bound) is not judged.",
     None)

prop("C06", "All complete solvers give the same solution of the same problem",
     "For one set of inputs, with the phase functions resolved by the quadrature, the discrete ordinate solvers eig_add, eig_bvp, doub_add, pade_add and mem_bvp, and the closed-form two_stream, four_stream and six_stream against eig_bvp with as many streams, return the same radiances, mean radiances, fluxes and derivatives within their method error, for scalar and vector radiation, any surface, source, output angle and level they share.",
     ["inputs", "configurations"],
     "random atmospheres (1 to 5 layers, optical depths 1e-3 to 20), surfaces, sun and view angles, thermal and isotropic sources, delta-M and TMS, plane-parallel and pseudo-spherical, every pair of solvers",
     TESTS + "they compare each solver with its own stored output, so two solvers that disagree both pass.",
     ["src/xrtm_model.c", "src/xrtm_eig_bvp.c", "src/xrtm_eig_rts.c", "src/xrtm_doubling.c", "src/xrtm_pade_rts.c", "src/xrtm_mem_bvp.c", "src/xrtm_two_stream.c", "src/xrtm_four_stream.c", "src/xrtm_six_stream.c"],
     [("solver dispatch", "src/xrtm_model.c: fourier_get_bvp(), fourier_get_add_*()"), ("adding", "src/xrtm_adding.c"), ("boundary value problem", "src/xrtm_eig_bvp.c: rtm_eig_bvp()")],
     ["xrtm_radiance", "xrtm_solution"], "N-version oracle: online differential monitor over pairs of independent solvers", EXPL + "A defect shared by all the solvers (phase matrices, surface matrices) belongs to C14, C17 and C19.")

prop("C07", "Analytic derivatives equal the rate of change of the results",
     "Each derivative returned with calc_derivs (of radiance, mean radiance and flux, at every output) equals the directional derivative of the corresponding value along the linearized inputs of that slot: optical thickness, single scattering albedo, phase function, surface kernel weight and parameters (direct/diffuse and user-defined kernels), thermal and isotropic sources, alone and mixed, for every linearized solver. Albedos are inside (0,1) and, for vector radiation, no phase matrix element vanishes.",
     ["inputs", "configurations"],
     "random configurations and random linearization directions of every kind, compared with a Richardson-extrapolated central difference of the same solver without derivatives",
     TESTS + "they hold stored derivative output of a few setups; a sign or a missing term in another combination of options is not seen.",
     ["src/xrtm_model.c", "src/xrtm_eig_util.c", "src/xrtm_eig_bvp.c", "src/xrtm_adding.c", "src/xrtm_sfi.c", "src/xrtm_brdf.c"],
     [("linearized solution", "the *_l arguments of every solver routine"), ("which slots vary in which layer", "src/xrtm_derivs.c, src/xrtm_interface.c: xrtm_update_varied_layers()")],
     ["xrtm_solution: K_p, K_m, mean_l, flux_l"], "online oracle: finite differences of the values as reference for the analytic derivatives", EXPL + "Differences whose truncation error is large are counted as inconclusive and not judged.")

prop("C08", "Derivative slots are independent and linear; values do not depend on them",
     "The values are the same with and without derivatives and with any number of slots; the derivative of a slot depends only on that slot's linearized inputs, not on its position or on other slots; a slot that is a linear combination of two others has that combination of their derivatives; a slot with no varied input is zero.",
     ["inputs", "configurations"], "random configurations, permutations of slots, added slots, random coefficients", TESTS + "they never permute or combine slots.",
     ["src/xrtm_derivs.c", "src/xrtm_interface.c", "src/xrtm_model.c"],
     [("varied flags per layer and slot", "src/xrtm_derivs.c"), ("updates", "src/xrtm_interface.c: update_varied_layers()")],
     ["xrtm_solution"], "metamorphic monitor", EXPL)

prop("C10", "Splitting a layer in two identical ones changes nothing",
     "Replacing a homogeneous layer by two layers of the same optical properties whose optical depths sum to the original (and a Planck function linear in between) leaves every radiance, flux and derivative unchanged, for every solver, in plane-parallel geometry.",
     ["inputs", "configurations"], "random configurations, layer and split fraction, output levels renumbered", TESTS + "layers are never split.",
     ["src/xrtm_adding.c", "src/xrtm_eig_bvp.c", "src/xrtm_sos.c", "src/xrtm_two_os.c"], [("layer to layer coupling", "src/xrtm_adding.c, src/xrtm_eig_bvp.c: solve_bvp()"), ("beam transmittance per level", "src/xrtm_model.c: get_beam_params()")],
     ["xrtm_solution"], "metamorphic monitor", EXPL)

prop("C11", "What is asked for does not change what is returned",
     "The values at a view angle, azimuth, level, direction or of an output type are the same whatever other angles, azimuths, levels, directions or output types are requested with them, and the same whether a level is requested by number or by its optical depth. (two_os is judged at the top of the atmosphere, the only level it computes.)",
     ["inputs", "configurations"], "random requests and random sub- and supersets of them in any order, for every solver", TESTS + "each configuration is requested in one way only.",
     ["src/xrtm_model.c", "src/xrtm_interface.c", "src/xrtm_sfi.c", "src/xrtm_source.c"], [("user angles", "src/xrtm_interface.c: xrtm_set_out_thetas()"), ("user levels and optical depths", "src/xrtm_interface.c: xrtm_set_out_levels(), xrtm_set_out_taus()")],
     ["xrtm_solution"], "metamorphic monitor", EXPL)

prop("C12", "Solutions are linear in the sources",
     "The solution with several sources is the sum of the solutions with each source alone, and scales with the strength of a source: solar beam, thermal emission of the atmosphere, thermal emission of the surface, isotropic illumination at top and bottom; likewise the derivatives.",
     ["inputs", "configurations"], "random configurations and random source strengths including zero, for every solver", TESTS + "sources are never separated.",
     ["src/xrtm_source.c", "src/xrtm_adding.c", "src/xrtm_eig_bvp.c", "src/xrtm_model.c"], [("source vectors", "src/xrtm_source.c"), ("adding of sources", "src/xrtm_adding.c")],
     ["xrtm_solution"], "metamorphic monitor", EXPL)

prop("C13", "Energy is conserved and never created",
     "Fluxes are not negative; without thermal emission the net flux never grows along its direction; with conservative scattering (albedo 1) and any Lambertian surface the net flux is the same at every level; over a Lambertian surface the upward flux at the bottom is the albedo times the downward flux.",
     ["inputs", "configurations"], "random atmospheres, many with albedo 1 in every layer, optical depth up to 20 per layer, all solvers that compute fluxes", TESTS + "no flux budget is ever evaluated.",
     ["src/xrtm_model.c", "src/xrtm_adding.c", "src/xrtm_eig_bvp.c", "src/xrtm_brdf.c", "src/xrtm_scatter.c"], [("flux integration", "src/xrtm_model.c: calc_mean_and_flux()"), ("surface", "src/xrtm_model.c: get_brdf_*()")],
     ["xrtm_solution: fluxes"], "online physical invariant monitor", EXPL + "Tolerances include the adjustment of albedo 1 to 1 - 1e-5 documented in src/xrtm.h.")

prop("C14", "Reflection and transmission obey reciprocity",
     "Exchanging sun and view angle scales the reflected intensity by the ratio of cosines (with the atmosphere unchanged) and, over a black surface, the diffusely transmitted intensity with the order of layers reversed, at any azimuth, for every solver and reciprocal surface kernel.",
     ["inputs", "configurations"], "random atmospheres, surfaces, angle pairs and azimuths", TESTS + "no pair of exchanged directions is ever run.",
     ["src/xrtm_scatter.c", "src/xrtm_brdf.c", "src/xrtm_adding.c", "src/xrtm_two_os.c", "src/xrtm_sos.c"], [("phase matrices", "src/xrtm_scatter.c"), ("surface matrices", "src/xrtm_brdf.c: brdf_build_ref_*()")],
     ["xrtm_radiance"], "online physical invariant monitor", EXPL + "Li kernels are not symmetric by definition and are excluded.")

prop("C15", "Mean radiances and fluxes are the integrals of the radiances",
     "The mean radiance and flux at each level, and their derivatives, equal the quadrature sums of the azimuthally averaged radiances at the quadrature angles, plus, downwards, the direct beam F0 mu0 exp(-tau/mu0) and the same beam in the mean radiance.",
     ["inputs", "configurations"], "random configurations with output at the quadrature angles, all solvers", TESTS + "fluxes are never compared with radiances.",
     ["src/xrtm_model.c", "src/xrtm_interface.c"], [("integration", "src/xrtm_model.c: calc_mean_and_flux()")], ["xrtm_solution"], "online cross-check of two outputs of one call", EXPL)

prop("C16", "Azimuthal laws: period, rotation, mirror, overhead sun, mean",
     "Radiances and derivatives have period 360 degrees in azimuth; they depend on the azimuth relative to the sun only; mirroring the azimuth keeps I and Q and flips U and V; for the sun overhead scalar radiance does not depend on azimuth; the azimuthal mean equals the solution with no_azimuthal.",
     ["inputs", "configurations"], "random configurations, rotations and mirrored azimuths, all solvers", TESTS + "one or two azimuths are run per test.",
     ["src/xrtm_model.c", "src/xrtm_scatter.c"], [("Fourier series", "src/xrtm_model.c: get_solution_internal()"), ("single scattering phase matrix", "src/xrtm_scatter.c: scat_vector_rotate_hovenier()")],
     ["xrtm_radiance"], "metamorphic monitor", EXPL)

prop("C19", "Single scattering is the closed-form solution, and the thin limit of all",
     "The single solver returns the closed-form first-order solution for every layer, level, angle and azimuth: phase matrix (P11 by Legendre and P12 by generalized spherical functions, rotated to the meridian planes) times the exact layer integral of beam and path transmittance, plane-parallel or pseudo-spherical, with delta-M scaling and the untruncated phase function (N-T TMS), plus the beam reflected by the surface; every full solver tends to it as optical depth goes to zero.",
     ["inputs", "configurations"], "random atmospheres, angles, azimuths, levels, optical depths and options, scalar and vector",
     TESTS + "stored numbers cannot tell a right phase matrix from a consistently wrong one.",
     ["src/xrtm_single.c", "src/xrtm_scatter.c", "src/xrtm_model.c", "src/xrtm_utility.c"],
     [("layer integrals", "src/xrtm_single.c: ssr_up_layer(), ssr_dn_layer()"), ("phase vector and rotation", "src/xrtm_scatter.c: build_scat_vector_gc(), scat_vector_rotate_hovenier()"), ("spherical path factors", "src/xrtm_utility.c: chapman_functions()")],
     ["xrtm_radiance"], "online oracle: independent closed-form evaluation of each observed radiance", EXPL + "Accidental agreement of the moved sun angle is avoided by skipping sun angles within 1e-5 of a view cosine.")

prop("C17", "Scalar and vector solutions agree where polarization plays no part",
     "A vector model whose phase matrices have no polarizing elements returns the scalar model's intensity, fluxes and derivatives, with Q, U and V zero; with 3 and 4 Stokes elements I, Q and U are the same for Rayleigh-like scattering, with V zero.",
     ["inputs", "configurations"], "random atmospheres and surfaces, all solvers with a vector mode, derivatives included (away from degenerate eigenvalues)", TESTS + "scalar and vector runs are never compared.",
     ["src/xrtm_scatter.c", "src/xrtm_model.c", "src/xrtm_eig_util.c", "src/xrtm_single.c"], [("phase matrices from generalized spherical functions", "src/xrtm_scatter.c: build_phase_mats_vector_gc()"), ("Stokes elements per stream", "src/xrtm_model.c, src/xrtm_utility.c")],
     ["xrtm_solution"], "differential monitor of the vector against the scalar model", EXPL + "View cosines within 2.5e-5 of the sun's are skipped, the library moves the sun there.")

prop("C18", "Delta-M solves the scaled problem, and N-T TMS corrects its single scattering",
     "A model with delta_m equals one without it that is given the delta-M scaled optical depths, albedos and expansion coefficients (and their linearizations); N-T TMS adds exactly the difference between the exact and the truncated single scattering at every angle and level.",
     ["inputs", "configurations"], "random phase functions longer and shorter than twice the streams, all solvers that accept delta_m, derivatives included; TMS in plane-parallel and pseudo-spherical geometry", TESTS + "no test scales inputs independently.",
     ["src/xrtm_model.c", "src/xrtm_utility.c", "src/xrtm_single.c"], [("scaling", "src/xrtm_model.c: get_delta_m_f(), update_opt_props(); src/xrtm_utility.c: delta_m_*()"), ("correction", "src/xrtm_model.c: apply_corrections_radiance(), apply_corrections_fourier()")],
     ["xrtm_solution"], "differential monitor: the scaling recomputed outside, the correction from an independent closed form", EXPL)

prop("C20", "The surface reflects as its kernels say",
     "Through a transparent atmosphere the reflected beam is the Fourier series (over the kernel quadrature) of the weighted sum of the published kernels, at every angle and azimuth; the order of the kernels does not matter; a user-defined kernel of the same formula gives the result of the built-in one, derivatives included.",
     ["inputs", "configurations"], "all built-in kernels but Cox-Munk, weights and parameters, sums of up to three, every solver", TESTS + "kernels are run once each against their own stored output.",
     ["src/xrtm_brdf.c", "src/xrtm_brdf_a.c", "src/xrtm_model.c", "src/xrtm_single.c"], [("kernel formulas", "src/xrtm_brdf.c: *_kernel()"), ("Fourier terms", "src/xrtm_brdf.c: brdf_build_kernel_vecs(), brdf_build_ref_vec(), brdf_build_ref_mat()")],
     ["xrtm_radiance"], "online oracle: kernels written again from their definitions", EXPL + "The Fourier sum takes the library's own kernel quadrature nodes. The azimuth of a kernel is that of the scattering convention.")

prop("C21", "An isothermal enclosure radiates as a black body",
     "With the Planck source B in every layer, at the surface and coming from the top, every radiance in every direction and level is B and unpolarized, and every flux is B times the quadrature's hemispheric integral, whatever the layers scatter, the surface reflects and the solver is.",
     ["inputs", "configurations"], "random scattering layers, surfaces and quadratures, the four solvers with thermal sources, scalar and vector", TESTS + "no test is in thermal equilibrium.",
     ["src/xrtm_source.c", "src/xrtm_doubling.c", "src/xrtm_eig_rts.c", "src/xrtm_eig_bvp.c", "src/xrtm_model.c"], [("layer emission", "src/xrtm_source.c, src/xrtm_doubling.c"), ("surface emission", "src/xrtm_model.c: update_diff_bound_input()")],
     ["xrtm_solution"], "online physical invariant monitor (Kirchhoff's law)", EXPL)

prop("C22", "Pseudo-spherical geometry tends to plane-parallel for a large planet",
     "With psa and a planet radius of 1e11 the radiances, fluxes and derivatives are those of the plane-parallel model, for every solver.",
     ["inputs", "configurations"], "random configurations of every solver, level heights and sun angles", TESTS + "psa is run with one radius.",
     ["src/xrtm_model.c", "src/xrtm_utility.c", "src/xrtm_single.c", "src/xrtm_sfi.c"], [("Chapman factors", "src/xrtm_utility.c: chapman_functions()"), ("beam parameters", "src/xrtm_model.c: get_beam_params()")],
     ["xrtm_solution"], "differential monitor in a limit", EXPL)

prop("C31", "Accuracy parameters bound the error they name",
     "A Fourier tolerance, the initial optical depth of doubling, and the orders-of-scattering layer thickness and tolerance change the results by no more than a small multiple of the error they allow. (Fourier tolerance with N-T TMS is judged for Lambertian surfaces.)",
     ["inputs", "configurations"], "random configurations, tolerances from 1e-9 to 1e-2 against the tightest setting", TESTS + "each runs with one setting.",
     ["src/xrtm_model.c", "src/xrtm_doubling.c", "src/xrtm_sos.c"], [("Fourier convergence", "src/xrtm_model.c: get_solution_internal()"), ("doubling count", "src/xrtm_doubling.c"), ("orders", "src/xrtm_sos.c")],
     ["xrtm_radiance"], "metamorphic monitor: loose against tight setting", EXPL + "Automatic Pade orders are a heuristic without a stated error and are not judged.")

prop("C23", "Invalid use is refused with the documented error and changes nothing",
     "xrtm_create() refuses every configuration that is out of range or self-contradictory; every setter, getter and solution call with an index, value or call condition outside its documented domain returns the documented error value, leaves every input of the model unchanged, and leaves every later result unchanged. Valid calls are not refused.",
     ["inputs", "configurations", "histories"], "about 70 kinds of invalid call and 35 kinds of invalid configuration, in models of every kind, before, between and after valid setters and solutions", TESTS + "none makes an invalid call.",
     ["src/xrtm_interface.c", "src/xrtm_support.c"], [("configuration checks", "src/xrtm_interface.c: xrtm_create()"), ("argument checks", "src/xrtm_interface.c: CHECK_*, xrtm_set_*(), xrtm_get_*()"), ("call conditions", "src/xrtm_interface.c: check_inputs_initialized(), xrtm_solution()")],
     ["xrtm_create", "xrtm_set_*", "xrtm_get_*", "xrtm_solution"], "online monitor with fault injection: invalid calls interleaved with a valid history, state read back around each, results compared with an undisturbed twin", EXPL + "xrtm_set_pade_params and xrtm_set_phi_0 check nothing by design (the checks are commented out in the source).")

prop("C24", "Getters return what was set, whatever was called in between",
     "After any order of setter calls by any of their variants, updates and solutions, every getter of the configuration and of each input (element by element, linearized ones included) returns exactly the value last set, and before an input is set its getter returns the error value.",
     ["histories", "configurations", "inputs"], "all getters, all setter variants, models of every kind", TESTS + "no test calls a getter.",
     ["src/xrtm_interface.c"], [("setter and getter templates", "src/xrtm_interface.c: XRTM_SET_*, XRTM_GET_*"), ("storage", "src/xrtm_interface.h: xrtm_data")],
     ["xrtm_get_*"], "online monitor: a mirror of the model's inputs kept outside and compared element by element", EXPL + "omega above 1-1e-5 and angles moved off a quadrature node by the library are compared with the tolerance the library documents for it.")

prop("C03", "Model instances are independent, in one thread and in several",
     "Any number of models may exist at once, be used in any interleaving, and be used by different threads at the same time (each model by one thread): every result is bit for bit what the same calls return when the model is alone in the process, and no two threads race on any data.",
     ["schedules", "histories", "configurations"], "sets of random models of all solvers run alone, interleaved call by call in one thread, and concurrently in several threads", TESTS + "each holds one model in one thread.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_work.c", "misc/gutil_error.c"],
     [("per-model work memory and saved state", "src/xrtm_work.c; src/xrtm_save_tree.c"), ("file-scope variables", "src/xrtm_interface.c, src/xrtm_scatter.c, misc/gutil_error.c")],
     ["xrtm_solution", "ThreadSanitizer reports"], "ThreadSanitizer and a bit-exact differential monitor over interleaved and concurrent executions", EXPL + "Schedules are those the scheduler and random delays produce. OpenBLAS and libgfortran are not instrumented.")

prop("C05", "Results never depend on memory that was not initialised",
     "Repeating the same calls on models whose fresh heap blocks, stack and output arrays were filled with different garbage returns bit-identical results; no branch or returned value depends on uninitialised memory.",
     ["inputs", "configurations", "histories"], "random configurations of all solvers, each run under several fill patterns, and the workloads of other monitors under memcheck", TESTS + "fresh memory happens to be zero in a short-lived test process.",
     ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_work.c", "src/xrtm_source.c", "src/xrtm_work.c"],
     [("work arrays handed out without clearing", "src/xrtm_work.c: get_work_*()"), ("initial state", "src/xrtm_interface.c: xrtm_create()")],
     ["xrtm_solution", "memcheck reports"], "differential monitor under heap, stack and output poisoning; valgrind memcheck; a build whose allocator poisons", EXPL + "One memcheck suppression (lib/memcheck.supp): the sun column of surface kernel tables is computed from an unset sun direction in models without solar sources and never used.")

prop("C25", "A solution requires exactly the inputs that the configuration uses",
     "A solution call is refused with the error value, without writing output, as long as any input that the configuration uses has not been given, whichever it is and in whatever order the others were; so is the derivative update. Once the last one is given, it is accepted and returns what a model given its inputs in any other order returns.",
     ["histories", "configurations"], "random configurations; one to three required inputs (per layer, per kernel, per parameter) withheld, solutions attempted in between", TESTS + "none omits an input.",
     ["src/xrtm_interface.c"], [("required-input accounting", "src/xrtm_interface.c: check_inputs_initialized(), INPUT flags in xrtm_set_*()"), ("optical depths of outputs", "src/xrtm_interface.c: xrtm_set_out_taus(), solution-time check")],
     ["xrtm_solution", "xrtm_radiance", "xrtm_update_varied_layers"], "online monitor with fault injection (withheld inputs)", EXPL + "Lambda is not required by design.")

prop("C27", "An input file means the model it describes, read, written or run",
     "Reading an input (file or string, either syntax, any order and index form) gives the model, derivatives or finite difference perturbations that the same values give through the interface; coefficients given by name or file are those named. Writing a model and reading it back gives the same model to the digits written, and writing it again the same text. callxrtm prints that model's radiances, mean radiances, fluxes and derivatives. An input with mistakes is refused or accepted without touching memory it should not or crashing.",
     ["inputs", "configurations"], "random problems of all solvers written down with random order, spacing, comments, whole arrays, slices or single elements, numbers and named coefficients; two syntaxes, read from files and strings; the program run with an input file, standard input and an input string; random edits of valid inputs", TESTS + "they never write an input and read a handful of fixed ones.",
     ["utils/input_util.c", "utils/input_yylex.l", "utils/callxrtm.c", "misc/rtutil_scat_io.c"],
     [("reading and writing of inputs", "utils/input_util.c"), ("lexical analysis", "utils/input_yylex.l"), ("the program and its output", "utils/callxrtm.c"), ("coefficients by name", "misc/rtutil_scat_io.c")],
     ["xrtm_fread_input", "xrtm_sread_input", "xrtm_fwrite_input_fn", "xrtm_get_*", "callxrtm's output"], "online round-trip and differential monitor against the model given the same values through the interface; address and undefined behaviour sanitizers watch reader, writer and program", EXPL + "Domain: one solar angle per model and no user-defined kernels; a mistaken input is judged by memory safety and orderly refusal alone.")

prop("C28", "Names, indices and masks of options, solvers, outputs and kernels agree",
     "For options, solvers, outputs and kernels, index, mask (or value) and name convert to each other without loss, counts and longest-name lengths are right, a list of names built from any set of masks parses back to the same set and never overruns its buffer, and unknown names, masks and indices give the error value.",
     ["inputs"], "every entry of every table, every subset size of masks, names altered by prefix, suffix, case and truncation, buffers of exact and insufficient size", TESTS + "they use a handful of names.",
     ["src/xrtm_support.c", "misc/rtutil_support.c", "misc/gindex_name_value.c"], [("tables", "src/xrtm_support.c: *_names[], *_masks[]"), ("conversion", "misc/gindex_name_value.c")],
     ["xrtm_*_index_to_name", "xrtm_*_name_to_mask", "xrtm_*_mask_list_to_name_list"], "online monitor against the documented tables, under AddressSanitizer", EXPL)

prop("C29", "Quadratures have positive weights and their full degree of exactness",
     "For every type and order the streams returned are distinct, lie inside the interval of the type, have positive weights, and integrate all polynomials up to the degree of exactness of the type; user view angles are appended to the streams as their exact cosines, in order.",
     ["inputs", "configurations"], "normal Gauss and double Gauss of 1 to 400 streams, and the surface kernel quadrature, alone and in models with and without user view angles", TESTS + "the streams are only compared with a stored copy.",
     ["misc/rtutil_math.c", "src/xrtm_interface.c", "src/xrtm_support.c"], [("nodes and weights", "misc/rtutil_math.c: gauss_leg_quadx()"), ("streams of a model", "src/xrtm_interface.c: xrtm_create(), xrtm_qx(), xrtm_qw()")],
     ["xrtm_qx", "xrtm_qw"], "online numerical invariant monitor (Legendre moments)", EXPL)

prop("C33", "Scattering data written to files are read back; phase functions follow theory",
     "Headers, phase functions, expansion coefficients (text and binary, either precision, any number of elements and coefficients), total scattering parameters and phase matrices written to a file by the library are read back equal to what was written to the precision of the format, truncated to the numbers of coefficients and elements asked for and with the header passed over when it is not wanted; interpolation is linear in every value; the Henyey-Greenstein, double Henyey-Greenstein and Rayleigh coefficients and their linearizations equal their definitions; a damaged, missing or unwritable file is an error that leaves nothing open or allocated and harms nothing.",
     ["inputs", "faults"], "random headers and data of every kind of file, one or more records to a file, damaged in their sizes, names, numbers and lengths, on full devices and in missing places; random asymmetry and depolarization parameters with linearizations", "The tests read coefficients from a few good files only.",
     ["misc/rtutil_scat_io.c", "misc/rtutil_support.c"], [("headers", "misc/rtutil_scat_io.c: scat_header_*()"), ("coefficients", "misc/rtutil_scat_io.c: scat_coefs_read_fp(), scat_coefs_read_bin_fp(), scat_coefs_write_*(), scat_coefs_interp()"), ("totals and matrices", "misc/rtutil_scat_io.c: scat_total_*(), phase_mats_*()"), ("analytic phase functions", "misc/rtutil_scat_io.c: scat_coefs_hg*(), scat_coefs_dhg*(), scat_coefs_ray*()")],
     ["scat_coefs_read_bin_fn", "scat_header_read_fn", "scat_coefs_hg", "scat_coefs_ray_l"], "online round-trip and closed-form monitors with file faults, under AddressSanitizer, UBSan and LeakSanitizer", EXPL)

prop("C30", "A model creation that runs out of memory reports the error",
     "Whichever allocation made by xrtm_create() fails, the call returns the error value, the process survives, other models keep their results bit for bit, and models can be created again.",
     ["faults", "configurations"], "random configurations of all solvers; the first, the last and random allocations of xrtm_create() made to fail through linker-wrapped malloc, calloc and realloc", "No test makes an allocation fail.",
     ["src/xrtm_interface.c", "src/xrtm_utility.c"], [("allocation of the model and its flags", "src/xrtm_interface.c: xrtm_create(), xrtm_create2(), xrtm_create_misc()"), ("flags arrays", "src/xrtm_utility.c: flags_alloc(), flags_alloc2()")],
     ["xrtm_create", "malloc"], "fault injection into the allocator with an online monitor, under AddressSanitizer", EXPL + "Limited to creation: allocations during a solution are unchecked by design of the work memory. What a failed creation leaves behind is a known finding.")

prop("C26", "The C++, Fortran 90, Fortran 77 and Python interfaces behave as the C interface",
     "Every subprogram of the C++, Fortran 90, Fortran 77 and Python interfaces, and of the C++ and FORTRAN interfaces to the finite difference functions, called with the same arguments in the same order as its C counterpart, gives the same status and exactly the same values in every output element: array extents and index orders correspond, derivative, level, angle, azimuth and Stokes dimensions are not exchanged, errors are reported as errors, and nothing outside the given arrays is read or written.",
     ["inputs", "configurations", "histories"], "scripts of 20 to 500 calls of all 115 subprograms, and of the 47 of the finite difference interface, on random configurations, sizes, data, orders of calls and invalid calls", "The examples in each language make one fixed sequence of calls whose output is compared with one file; most subprograms are never called.",
     ["interfaces/xrtm_int_cpp.cpp", "interfaces/xrtm_int_f90.f90", "interfaces/xrtm_int_f90_util.c", "interfaces/xrtm_int_f77.f", "interfaces/xrtm_int_f77_util.c", "interfaces/xrtm_int_py.c", "misc/gutil_alloc.c", "interfaces/xrtm_fd_int_cpp.cpp", "interfaces/xrtm_fd_int_f90.f90", "interfaces/xrtm_fd_int_f90_util.c", "interfaces/xrtm_fd_int_f77.f", "interfaces/xrtm_fd_int_f77_util.c"],
     [("array extents and pointer tables", "interfaces/xrtm_int_f90_util.c, interfaces/xrtm_int_f77_util.c, interfaces/xrtm_int_py.c, misc/gutil_alloc.c array_from_mem()"), ("errors and values", "interfaces/xrtm_int_*")],
     ["return status, return values and output arrays of every subprogram of each language"], "differential online monitor: the same random script executed through each language and compared call by call with the C interface; repeated under AddressSanitizer", EXPL + "Domain: the IDL and Julia interfaces cannot run here; Python has no interface to the finite difference functions. Outputs of solution() that were not asked for are not compared. get_n_kernels-style bad kernel or layer indices to subprograms whose array extents depend on them are not made.")

prop("C32", "The finite difference interface returns the difference quotients it promises",
     "xrtm_fd_solution() and xrtm_fd_radiance() return the results of the unperturbed model and, for every derivative j, (x(+p_j) - x)/delta_j (forward), (x(-p_j) - x)/delta_j (backward) or (x(+p_j) - x(-p_j))/delta_j (central), where x(+-p_j) are the radiances, mean radiances and fluxes of a model of its own with all inputs of derivative j moved by +-p_j. Perturbations read back as set through any setter, derivatives do not affect one another, and the inputs and results of the model are unchanged afterwards. A model with analytic derivatives is refused.",
     ["inputs", "histories"], "random problems of every solver with one to several derivatives perturbing optical thickness, albedo, phase function coefficients, thermal, isotropic and surface inputs, given through randomly chosen setters", TESTS + "none uses the finite difference interface.",
     ["src/xrtm_fd_interface.c", "src/xrtm_fd_interface.h", "src/xrtm_support.c"],
     [("perturb_values(), xrtm_fd_solution()", "src/xrtm_fd_interface.c"), ("setters of perturbations", "src/xrtm_fd_interface.c")],
     ["xrtm_fd_solution", "xrtm_fd_radiance", "xrtm_fd_set_*", "xrtm_fd_get_*"], "online differential monitor: every quotient is recomputed from fresh models given the perturbed inputs", EXPL + "The sign of delta is the caller's: the backward quotient is the perturbed minus the unperturbed result.")

prop("C34", "Adding in one direction gives the radiances of adding in both",
     "With top_down the radiances, fluxes and mean radiances at the bottom, and with bottom_up those at the top, and all their derivatives, equal those of the same problem solved without the option, also after inputs change between calls and with the save options.",
     ["inputs", "configurations", "histories"], "random problems of the adding solvers with up to 6 layers, with and without surface, derivatives, thermal sources and save options; up to three calls with inputs changed in between", TESTS + "they hold few cases with these options.",
     ["src/xrtm_model.c", "src/xrtm_adding.c", "src/xrtm_radiance.c"],
     [("one-sided stacking", "src/xrtm_model.c get_total_BOA_R_S_U_V(), get_total_TOA_R_S_U_V()"), ("radiances at the boundary", "src/xrtm_radiance.c radiance_boa_ref(), radiance_toa_ref()")],
     ["xrtm_solution"], "online differential monitor against adding in both directions", EXPL + "Domain: no isotropic radiance at the top with top_down and no derivative with respect to the one at the bottom with bottom_up (recorded findings).")

prop("C37", "Valid problems of any size and extremity give finite, consistent results",
     "A valid problem is solved whatever its size or extremity: cutting homogeneous layers into up to hundreds of thinner ones changes no result or derivative, solvers agree at tens of streams, and layers of vanishing or huge optical thickness, no or conservative scattering, and grazing or vertical directions give finite results without ending the process.",
     ["inputs", "configurations"], "up to 400 layers, up to 40 streams, optical thicknesses from 1e-10 to 3000, single scattering albedos 0 to 1, angles up to 89.999 degrees, with and without derivatives", TESTS + "they use a handful of layers and moderate values.",
     ["src/xrtm_model.c", "src/xrtm_eig_util.c", "src/xrtm_eig_bvp.c", "src/xrtm_eig_rts.c", "src/xrtm_adding.c", "src/xrtm_work.c"],
     [("eigenproblem and degenerate eigenvalues", "src/xrtm_eig_util.c"), ("stacking of layers", "src/xrtm_adding.c, src/xrtm_eig_bvp.c"), ("work memory", "src/xrtm_work.c")],
     ["xrtm_solution", "process exit"], "online metamorphic monitor (layer cutting, solver pairs) and finiteness monitor over extreme workloads", EXPL + "Domain: with a pseudo-spherical beam the sun is at most 80 degrees from the zenith and layers are at most 20 thick (average secants overflow beyond); single conservative layers are taken at omega = 1 - 1e-5 by the library where it does so.")
