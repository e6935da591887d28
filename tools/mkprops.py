#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/elli/" + f for f in files],
                               state=[dict(name=n, meaning=m, where="src/elli/" + w) for n, m, w in state],
                               mechanism=[dict(name=n, where="src/elli/" + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop("P01", "Isotropic stacks: amplitudes are the exact solution of Maxwell's equations",
     "For every stack of homogeneous isotropic passive layers between a transparent front and any passive exit medium, at every wavelength and angle of incidence below 90 degrees, both the 2x2 and the 4x4 solver return the complex r_pp, r_ss, t_pp, t_ss of the exact plane-wave solution (time dependence exp(-i w t), n + ik, r_p and t_p referring to the full electric field, r_p = +r of (n_t cos_i - n_i cos_t)/(n_t cos_i + n_i cos_t)), and no cross-polarisation. This includes zero layers, zero thickness, absorbing and metallic media, and total internal reflection, where the transmitted wave decays.",
     ["inputs", "configurations"],
     "all layer counts, indices n + ik with n, k >= 0, thicknesses including opaque layers, wavelengths, angles 0..89.5 degrees, scalar or array wavelengths, both solvers",
     "The tests compare a handful of stored spectra of one or two structures, and compare the solvers with each other; branch choices (total reflection, metals, zero thickness), layer order and sign conventions at other inputs are never computed independently.",
     ["solver2x2.py", "solver4x4.py", "experiment.py", "structure.py"],
     [("Fresnel matrices multiplied along the stack", "solver2x2.py:Solver2x2.calculate"),
      ("Snell angles with forward branch", "solver2x2.py:Solver2x2.list_snell"),
      ("Berreman transfer matrix", "solver4x4.py:Solver4x4.calculate"),
      ("half-space transition matrices", "solver4x4.py:Solver4x4.transition_matrix_iso_halfspace")],
     ["Structure.evaluate / Experiment.evaluate", "Result.jones_matrix_r", "Result.jones_matrix_t"])

prop("P02", "Energy is conserved: passivity, reciprocity and total reflection",
     "For every passive structure (Hermitian permittivities for lossless, lossy ones with non-negative loss) between lossless isotropic half-spaces, the total reflected plus transmitted power of each incident polarisation is at most one, and exactly one if every layer is lossless; each reported reflectance and transmittance lies between 0 and 1. If the exit medium carries no propagating wave, the reported transmittance is zero and a lossless structure reflects everything; of s-polarised light meeting a lossless isotropic stack on an absorbing exit, what is not reflected is reported as transmitted. Reciprocity holds: turning the sample by 180 degrees about its normal leaves r_pp and r_ss and exchanges r_ps with -r_sp, and turning the whole structure over transposes its power transmittance matrix.",
     ["inputs", "configurations"],
     "all stacks of isotropic and anisotropic (rotated, gyrotropic-free and symmetric) layers, angles, wavelengths, both solvers",
     "No test asserts a balance; errors in power normalisation or in the branch of the exit wave leave the tested ellipsometric angles intact.",
     ["result.py", "solver2x2.py", "solver4x4.py"],
     [("power correction of the transmitted wave", "solver4x4.py:Solver4x4.calculate"),
      ("power correction of the transmitted wave", "solver2x2.py:Solver2x2.calculate"),
      ("reflectance and transmittance matrices", "result.py:Result.R_matrix, T_matrix")],
     ["Result.R_matrix", "Result.T_matrix", "Result.R", "Result.T"])

prop("P03", "Anisotropic stacks: amplitude matrices solve the Berreman equations",
     "For every stack whose layers and exit medium have arbitrary (uniaxial, biaxial, rotated, complex, or - through a material class of the user - non-symmetric gyrotropic) permittivity tensors, the 4x4 solver's full reflection matrix - and for an isotropic exit also the transmission matrix - is the exact solution of Maxwell's equations for that tensor profile, including both cross-polarised elements with their sign and their order (first index outgoing, second incident polarisation). The linear propagator is the first-order expansion of the exact one.",
     ["inputs", "configurations"],
     "all tensor profiles within moderate attenuation, all rotations, angles, wavelengths, propagators, exit media with separable forward and backward waves",
     "The tests use a few textbook configurations of one structure each (twisted nematic, one uniaxial plate, one Bragg stack); tensor components such as eps_xz or eps_yz and rotated or absorbing exit media are barely reached.",
     ["solver4x4.py", "materials.py", "structure.py"],
     [("Delta matrix of a tensor", "solver4x4.py:Solver4x4.build_delta_matrix"),
      ("propagators", "solver4x4.py:PropagatorExpm, PropagatorEig, PropagatorLinear"),
      ("sorting of exit modes", "solver4x4.py:Solver4x4.transition_matrix_halfspace")],
     ["Result.jones_matrix_r", "Result.jones_matrix_t", "Propagator.calculate_propagation"])

prop("P04", "The answer does not depend on the numerical route taken",
     "Every way of asking for the same physics gives the same answer: both solvers, every exact propagator and its backends, Structure.evaluate and Experiment.evaluate with its defaults, and an isotropic medium described as a uniaxial, biaxial, rotated or trivially mixed material. An unusable solver option is refused with an error rather than ignored.",
     ["inputs", "configurations"],
     "all pairs of routes over random structures, materials and angles",
     "Existing tests compare two solvers on two fixed structures.",
     ["solver2x2.py", "solver4x4.py", "experiment.py", "structure.py", "materials.py"],
     [("propagator and backend selection", "solver4x4.py:PropagatorExpm.__init__"),
      ("default solver and polarisation", "structure.py:Structure.evaluate"),
      ("choice of half-space treatment by material type", "solver4x4.py:Solver4x4.calculate")],
     ["Result.jones_matrix_r", "Result.jones_matrix_t"])

prop("P05", "Layer containers expand to exactly the sequence of slices they describe",
     "A structure is equivalent to the flat sequence of homogeneous slices its containers describe: repeated layers are 'before' trailing entries, then the period n times, then 'after' leading entries, with any nesting; twisted and graded layers are equal slices whose tensors are evaluated at the slice midpoints (rotation angle proportional to depth; mixture fraction modulation of relative depth); layers keep their order front to back. Total thickness is preserved, and values outside the documented domain (negative thickness, fewer than one repetition or slice, wrong types) are rejected without changing the object, so that later setter calls always act on a valid container.",
     ["inputs", "histories", "configurations"],
     "all trees of layers, repeated, twisted and graded layers, all before/after counts, all sequences of setter calls",
     "The tests build one Bragg mirror and one twisted layer; nesting, before/after combined with nesting and setter histories are not explored.",
     ["structure.py"],
     [("expansion of repetitions", "structure.py:RepeatedLayers.get_permittivity_profile"),
      ("slicing at midpoints", "structure.py:InhomogeneousLayer.get_permittivity_profile"),
      ("assembly with half-spaces", "structure.py:Structure.get_permittivity_profile")],
     ["Structure.get_permittivity_profile", "AbstractLayer.get_permittivity_profile"],
     [("layers", "ordered children of a container", "structure.py:RepeatedLayers.layers, Structure.layers"),
      ("repetitions/before/after", "how often children repeat and partial periods", "structure.py:RepeatedLayers")])

prop("P06", "Every wavelength is computed independently of the others in a call",
     "Evaluating a wavelength array gives, element by element and in the given order, what evaluating each wavelength alone gives - for dispersions, material tensors, mixtures, layers and whole structures, for unsorted or repeated wavelengths, a scalar, a one-element array, and integer or double-precision wavelength arrays of equal value. The leading axis of every tensor and every result has the length of the wavelength array.",
     ["inputs", "configurations"],
     "all dispersions, materials, EMA mixtures, layer types, solvers and propagators; all wavelength arrays",
     "Tests use one sorted array per case, so cross-talk between wavelengths, dtype or order dependence is invisible.",
     ["dispersions", "materials.py", "structure.py", "solver2x2.py", "solver4x4.py", "experiment.py"],
     [("vectorised tensor construction", "materials.py:SingleMaterial.get_tensor"),
      ("batched propagation", "solver4x4.py:PropagatorExpm.calculate_propagation"),
      ("wavelength normalisation", "experiment.py:Experiment.set_lbda")],
     ["get_dielectric", "get_tensor", "evaluate"])

prop("P07", "Results are snapshots and evaluation has no side effects",
     "A result never changes after it was returned, whatever is later done to the structure, layers, materials, dispersions, parameters, experiment or wavelength array it came from; and what it reports about the experiment stays as it was at evaluation. Evaluating - dispersions, mixtures, structures, results - changes none of the objects involved nor the numeric error settings, so repeating an evaluation gives the same answer, and after a mutation through the public setters the next evaluation reflects exactly the mutated state. An experiment does not follow later changes of the wavelength array it was given, and copies of a structure share nothing with it.",
     ["histories"],
     "all interleavings of setter calls, evaluations and reads of earlier results",
     "Tests evaluate fresh objects once; aliasing only shows after a later mutation.",
     ["solver.py", "result.py", "experiment.py", "materials.py", "structure.py"],
     [("deep copy of the experiment", "solver.py:Solver.__init__"),
      ("restoring numpy error state", "materials.py:MaxwellGarnettEMA.get_tensor_fraction")],
     ["Result properties", "Structure.evaluate", "numpy.geterr"],
     [("experiment", "copied structure, wavelengths, angle and polarisation", "solver.py:Solver.experiment")])

prop("P08", "All representations of a result agree with its amplitude matrices",
     "Every quantity a result offers is the documented function of its two Jones matrices: rho, tan(psi) = |rho|, delta = -arg(rho), their matrices normalised by the ss element, reflectances, transmittances and their unpolarised means, circular-basis matrices, and the normalised Mueller matrix. Element access by name (linear p/s, circular L/R and numeric indices, Greek aliases, attribute access or get) addresses the corresponding matrix element with the first index the outgoing polarisation, and an unknown name is an error.",
     ["inputs"],
     "all complex 2x2 reflection and transmission matrices, all attribute names",
     "The tests check a handful of attributes for one structure; consistency between representations over arbitrary (anisotropic) Jones matrices is never asserted.",
     ["result.py"],
     [("attribute resolution", "result.py:Result.__getattr__"),
      ("Mueller matrix from the Kronecker product", "result.py:Result.mueller_matrix"),
      ("circular basis change", "result.py:Result.jones_matrix_rc, jones_matrix_tc")],
     ["Result attributes", "Result.get"])

prop("P09", "Delta is reported in the requested range and is the same angle",
     "Whatever range is selected, every reported delta (scalar, matrix, reflection, transmission, and converted tables) is congruent to the original phase modulo 360 degrees and lies inside the range; for the range 0 to 180 it is the original angle folded into that range (d or 360 - d). While 0 to 180 is selected rho is reported on the side that has this angle, that is complex conjugated where necessary; apart from that selecting ranges, however often, never changes psi, rho or the amplitudes, and the last selection wins; an unsupported range is refused and leaves the previous selection in force.",
     ["inputs", "histories"],
     "all admissible ranges [-360,0]..[0,360], all angles, all sequences of selections",
     "Tests only use the ranges whose lower bound is 0, -180 or -360, for which a sign error in the offset cancels.",
     ["utils.py", "result.py"],
     [("range validation", "utils.py:DeltaRange"), ("shifting", "utils.py:convert_delta_range"),
      ("shifting", "result.py:Result.delta, delta_t, delta_matrix, delta_matrix_t")],
     ["Result.as_delta_range", "convert_delta_range"],
     [("delta range", "range last selected on a result", "result.py:Result._delta_range")])

prop("P10", "Dispersion parameters bind exactly as given and never leak",
     "Constructing a dispersion or adding an oscillator binds positional arguments in declared order and keyword arguments by name, fills the rest with the declared defaults, and rejects unknown, duplicate, missing or surplus parameters without changing the object. Parameters of one object never affect another object or the defaults of later ones, and the order of added oscillators is kept. Construction by name through the factory is equivalent to calling the class, and unknown names are refused. Printing an object shows its class and exactly the parameters it holds.",
     ["inputs", "histories"],
     "all dispersion classes, all splits of arguments into positional and keyword, all sequences of construct and add calls",
     "Tests construct some classes with full keyword lists; combinations, error paths followed by reuse, and cross-object leakage are not explored.",
     ["dispersions/base_dispersion.py", "dispersions"],
     [("filling the template", "dispersions/base_dispersion.py:BaseDispersion._fill_params_dict"),
      ("repeated parameters", "dispersions/base_dispersion.py:BaseDispersion.add"),
      ("factory", "dispersions/base_dispersion.py:DispersionFactory.get_dispersion")],
     ["get_dielectric", "rep_params", "single_params"],
     [("parameters", "bound single and repeated parameters", "dispersions/base_dispersion.py:BaseDispersion.single_params, rep_params")])

prop("P11", "Every dispersion model evaluates its documented formula",
     "For every parameter set and wavelength in its domain each dispersion model returns the documented closed-form value, summing over all oscillators, in the convention eps1 + i eps2 and n + i k: constant, Cauchy (and Urbach, custom exponent), Sellmeier (and custom exponent), polynomial, Lorentz (energy and wavelength), Drude (energy and resistivity), poles, Gaussian, Tauc-Lorentz, Cody-Lorentz, Tanguy and pseudo-dielectric. The refractive index is the square root of the permittivity with non-negative real part (and vice versa its square), and the data-frame forms report the same numbers with the requested sign convention.",
     ["inputs"],
     "all models, any number of oscillators 0..4, all parameter values in the physical domain, wavelengths 150 nm to 20 um, including below and above band gaps",
     "Tests compare stored tables for one parameter set each; a term that vanishes or is negligible there is invisible.",
     ["dispersions"],
     [("closed forms", "dispersions/*.py:dielectric_function, refractive_index"),
      ("root and square", "dispersions/base_dispersion.py:BaseDispersion.get_refractive_index")],
     ["get_dielectric", "get_refractive_index", "get_dielectric_df", "get_refractive_index_df"])

prop("P12", "Adding dispersions adds their values and changes no operand",
     "The sum of dispersions, in any association and order and with plain numbers on either side, evaluates to the pointwise sum of the permittivities (or of the refractive indices for index-based models) of its operands, with an operand occurring twice counted twice. Forming a sum leaves the value of every operand, including operands that are themselves sums, unchanged. Mixing permittivity- and index-based operands, or adding two tables, is refused. A printed sum names each of its terms.",
     ["histories", "programs"],
     "all expression trees over dispersions, tables, formulas and numbers; all histories in which intermediate sums are reused",
     "Tests add two or three fresh objects once; reuse of an intermediate sum is never tested.",
     ["dispersions/base_dispersion.py", "dispersions/table_index.py", "dispersions/table_epsilon.py"],
     [("sum construction", "dispersions/base_dispersion.py:Dispersion.__add__, IndexDispersion.__add__"),
      ("sum objects", "dispersions/base_dispersion.py:DispersionSum, IndexDispersionSum"),
      ("tables", "dispersions/table_index.py:Table.__add__, table_epsilon.py:TableEpsilon.__add__")],
     ["__add__, __radd__", "get_dielectric", "get_refractive_index"],
     [("operands", "dispersions contained in a sum", "dispersions/base_dispersion.py:DispersionSum.dispersions")])

prop("P13", "Tabulated dispersions interpolate their table",
     "A tabulated dispersion returns the tabulated value at every node and the straight-line interpolation of real and imaginary part between neighbouring nodes, for any order of the rows, and refuses wavelengths outside the table. Tables that are empty or whose columns differ in length are refused, and without explicit wavelengths the table's own grid is used.",
     ["inputs"],
     "all tables (unsorted, two rows, complex), all query points, index, permittivity and file-based tables",
     "Tests query one table at a few points.",
     ["dispersions/table_index.py", "dispersions/table_epsilon.py", "dispersions/table_spectraray.py"],
     [("interpolation", "dispersions/table_index.py:Table.refractive_index"),
      ("interpolation", "dispersions/table_epsilon.py:TableEpsilon.dielectric_function"),
      ("file table", "dispersions/table_spectraray.py:TableSpectraRay")],
     ["get_dielectric", "get_refractive_index"])

prop("P14", "Material tensors are the rotated diagonal tensors of their dispersions",
     "The permittivity tensor of a material is R diag(eps_x, eps_y, eps_z) R^T with the dispersions in the declared axes and R the rotation last set; the Euler, rotation-vector and axis-angle constructors give proper orthogonal matrices with the documented meaning (z, x', z'; right-handed; degrees for axis-angle and radians for the vector length). Eigenvalues are therefore invariant under rotation, successive rotations compose, and inverse rotations restore the tensor.",
     ["inputs", "histories"],
     "all materials, Euler angles, rotation vectors and axis-angle pairs, all histories of setting dispersions and rotations",
     "One rotation convention at one angle is tested.",
     ["materials.py", "utils.py"],
     [("tensor", "materials.py:SingleMaterial.get_tensor"), ("rotations", "utils.py:rotation_euler, rotation_v, rotation_v_theta")],
     ["get_tensor", "get_refractive_index", "rotation_euler", "rotation_v", "rotation_v_theta"])

prop("P15", "Effective-medium mixtures satisfy their mixing equations",
     "For every pair of constituents and fraction f in [0, 1], the mixture tensor satisfies the documented mixing rule - linear average, Looyenga, Maxwell Garnett, Bruggeman - elementwise; f = 0 gives the host and f = 1 the guest, equal constituents give themselves, and for passive constituents the Bruggeman result is the physical (passive) root. A fraction outside [0, 1] or constituents that are no materials are refused and leave the previous ones in force; mixtures may be nested and used wherever a material may.",
     ["inputs", "histories"],
     "all constituent permittivities (dielectric, metallic, absorbing), fractions including the end points, nested mixtures, histories of set_fraction",
     "The mixture tests need the absent database and are skipped here; elsewhere they compare one stored spectrum.",
     ["materials.py"],
     [("mixing rules", "materials.py:VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA"),
      ("fraction validation", "materials.py:MixtureMaterial.set_fraction")],
     ["get_tensor", "get_tensor_fraction"])

prop("P16", "Kramers-Kronig transforms are the discrete Maclaurin sums",
     "On a uniform grid every Kramers-Kronig transform (real to imaginary and back, on a frequency or a wavelength axis) returns at every grid point the documented Maclaurin sum over the points of opposite parity; it is therefore linear, independent of the value at the point itself, and consistent between the two axes' kernels. Arrays of unequal or too small length are refused.",
     ["inputs"],
     "all real input arrays of any (even or odd) length on any uniform grid",
     "Tests transform one Lorentz oscillator and tolerate percent-level deviations.",
     ["kkr/kkr.py"],
     [("parity split", "kkr/kkr.py:_calc_kkr"), ("kernels", "kkr/kkr.py:_integrate_im, _integrate_re and reciprocal forms")],
     ["kkr.im2re", "kkr.re2im", "kkr.im2re_reciprocal", "kkr.re2im_reciprocal"])

prop("P17", "A formula dispersion means what its formula says",
     "For every formula of the language - arithmetic with the usual precedence and associativity, powers, parentheses, the listed functions and constants, scalar parameters and sums over repeated parameters - the formula dispersion evaluates to the mathematical value of the formula at each point of its axis, which is the wavelength in the declared unit or the photon energy. Malformed text, the wrong representation, unequal lengths of repeated parameters and unknown units are refused when the dispersion is created, unknown names at the latest when it is evaluated.",
     ["programs", "inputs"],
     "all expressions of the grammar up to depth 5, all parameter sets, wavelength and energy axes",
     "Tests evaluate about ten hand-written formulas.",
     ["dispersions/formula.py", "formula_parser/parser.py"],
     [("grammar", "formula_parser/parser.py:parse_formula"), ("evaluation", "formula_parser/parser.py:FormulaTransformer"),
      ("axis units", "dispersions/formula.py:FormulaParser")],
     ["Formula.get_dielectric", "FormulaIndex.get_refractive_index"])

prop("P18", "Importers return every measured record once, in nm and degrees",
     "Reading a Woollam (WVASE, CompleteEASE), SpectraRay or Accurion measurement file returns exactly one row per data record of the file, indexed by its angle of incidence and its wavelength converted to nanometres from the unit the file declares, with psi and delta of that record in degrees as the instrument convention defines them; nothing is lost, duplicated or mixed between records. The rho readers return tan(psi) exp(-i delta) of the same records, and Mueller-matrix files give one full matrix per record.",
     ["inputs"],
     "all well-formed files: any number of angles and wavelengths, row order, units, negative values, optional header lines and columns, encodings",
     "Tests read a few sample files and check a few rows or only that reading succeeds.",
     ["importer/woollam.py", "importer/spectraray.py", "importer/accurion.py"],
     [("format detection and parsing", "importer/woollam.py:read_woollam_psi_delta"), ("unit scaling", "importer/woollam.py:scale_to_nm"),
      ("column handling", "importer/spectraray.py:read_spectraray_psi_delta, read_spectraray_mmatrix"),
      ("parsing", "importer/accurion.py:read_accurion_psi_delta")],
     ["returned pandas.DataFrame"])

prop("P19", "NeXus files give back the data and materials stored in them",
     "Reading psi/delta or rho from a NeXus ellipsometry file returns, for every stored angle and wavelength (or photon energy) of the requested instrument and sample, exactly the stored measurement, with wavelengths converted to nanometres from the unit the file declares (angstrom when it declares none). The names of entry, sample and instrument select the measurement; files of other contents are refused. Reading materials returns each stored layer material with the dispersions it describes - formulas with their parameters, tables with their points, several components added up, one axis, two (x and z) or three - so that evaluating them gives the stored model's permittivity and they can be used wherever a material may. Incomplete descriptions are refused. Tables are over wavelengths in the declared unit or photon energies in eV.",
     ["inputs"],
     "all files following the supported layouts: any sizes, units, group names, dispersion kinds and numbers of components",
     "Tests read two sample files.",
     ["importer/nexus.py"],
     [("measurement", "importer/nexus.py:read_nexus_psi_delta"), ("materials", "importer/nexus.py:read_nexus_materials")],
     ["returned pandas.DataFrame", "returned materials"])

prop("P20", "The material database returns the entry asked for",
     "For every refractiveindex.info database the catalogue has one row per page, in order, with the shelf, book and headings the page stands under and the authors, year, comment and (first) wavelength range its name tells. Looking an entry up by book and page returns a dispersion (or material) that evaluates the entry's own data - tabulated n, k or nk, or dispersion formulas 1 to 5 with the stored coefficients, wavelengths stored in micrometres - and extinction tables are combined with the entry's index. Unknown or ambiguous books and pages and entries of other types are refused. An exact search returns exactly the rows in which a requested column equals a query and whose range contains all wavelengths asked for; an approximate search returns at least these, and all rows with the values it found.",
     ["inputs", "configurations"],
     "all catalogues and entries with data types tabulated n/k/nk and formulas 1 to 5 (others are refused), alone or combined; all search strings",
     "All database tests need the database submodule, which is absent in a plain checkout; they check a handful of entries.",
     ["database/refractive_index_info.py", "database/materials_db.py"],
     [("catalogue", "database/refractive_index_info.py:RII.__init__"), ("entry to dispersion", "database/refractive_index_info.py:RII.get_dispersion"),
      ("search", "database/refractive_index_info.py:RII.search")],
     ["RII.search", "RII.get_dispersion", "RII.get_mat"])

prop("P21", "Parameter history: undo restores exactly an earlier state",
     "A parameter set with history behaves as the current parameters plus a bounded list of snapshots: committing appends a snapshot equal to the present state, tracked changes commit first, exceeding the maximum drops the oldest, reverting to a position makes every parameter (value, bounds, vary flag, names) equal to that snapshot, and popping restores and removes the last. No later change of current parameters, of a reverted state, or of objects handed in ever alters a stored snapshot.",
     ["histories"],
     "all sequences of add, tracked change, commit, revert, pop, clear and change of the maximum length",
     "Tests run three short fixed sequences.",
     ["fitting/params_hist.py"],
     [("snapshots", "fitting/params_hist.py:ParamsHist.commit"), ("restoring", "fitting/params_hist.py:ParamsHist.revert, pop"),
      ("bound", "fitting/params_hist.py:ParamsHist.max_history_len")],
     ["ParamsHist values, history, history_len"],
     [("history", "bounded list of parameter snapshots", "fitting/params_hist.py:ParamsHist._history")])

prop("P22", "Fit session: displayed model, parameters and history stay in step",
     "After any sequence of user actions in a fitting session - moving a parameter, toggling whether it varies, fitting, undo, redo, reset, selecting another display - the shown parameter values equal the session's parameters, the plotted curve is the model evaluated at exactly those parameters, and the measured data are unchanged. A fit leaves the model agreeing no worse with the data than before, at a least-squares optimum within the bounds. Tables, csv files and drawings of the fit (psi/delta, rho, residuals, Mueller matrix) show the measured data beside the model evaluated at the fitted parameters, or at the ones given. Undo followed by redo returns to the same state, undo steps back through previous parameter states in order, and redo is possible only after undo.",
     ["histories"],
     "all sequences of user actions on psi/delta, rho and Mueller-matrix sessions",
     "The tests construct sessions and call fit once; no test performs a sequence of interactions.",
     ["fitting/decorator.py", "fitting/decorator_psi_delta.py", "fitting/decorator_mmatrix.py"],
     [("undo/redo", "fitting/decorator.py:FitDecorator.re_undo_button_clicked"), ("parameter updates", "fitting/decorator.py:FitDecorator.update_params"),
      ("plot update", "fitting/decorator_psi_delta.py:FitRho.update_selection")],
     ["widget values", "params", "figure traces"],
     [("session", "parameters, snapshots, undo position, display selection", "fitting/decorator.py:FitDecorator")])

prop("P23", "Conversions are mutually inverse and physically correct",
     "Conversions between wavelength, photon energy, frequency and wavenumber equal the physical relations and invert each other; rho computed from psi and delta is tan(psi) exp(-i delta); the pseudo-dielectric function computed from the rho of a bare isotropic substrate is that substrate's permittivity (index and complex output forms agree), and the isotropic Mueller matrix of a psi/delta table is the one a simulation with those psi and delta reports. Row and column labels of tables are preserved.",
     ["inputs"],
     "all positive values and arrays; all psi in 0..90, delta in any range, angles of incidence; all tables",
     "Tests check one or two numbers of some of these.",
     ["utils.py", "result.py"],
     [("units", "utils.py:conversion_*"), ("rho", "utils.py:calc_rho"), ("pseudo-dielectric function", "utils.py:calc_pseudo_diel"),
      ("Mueller matrix", "utils.py:convert_psi_delta_to_isotropic_mueller_matrix")],
     ["return values"])

prop("P24", "Incident polarisation: Jones and Stokes descriptions agree",
     "Setting the incident light by a Jones vector or by a fully or partially polarised Stokes vector stores both descriptions of the same polarisation: converting the stored Jones vector gives the stored Stokes vector's normalised polarised part, for every polarisation including vertical and both circular ones; without a vector the light is diagonal. The last vector set is the one in force and an evaluated solver sees it.",
     ["inputs", "histories"],
     "all Jones vectors and all Stokes vectors with non-zero polarised part, all sequences of settings",
     "Only default polarisation is used by the tests.",
     ["experiment.py"],
     [("conversion", "experiment.py:Experiment.set_vector")],
     ["Experiment.jones_vector", "Experiment.stokes_vector"])

prop("P25", "Result lists collect and average element by element",
     "For every attribute, a list of results gives the array of the members' values in the order they were added, and its mean gives the arithmetic mean of the members' values at each wavelength; averaging does not change the members, an average cannot be averaged again, the length is the number of members, and a copied or pickled list gives the same.",
     ["inputs", "histories"],
     "all numbers of members (including one), wavelengths (including one), all attributes, all append histories",
     "One attribute of one list is tested.",
     ["result.py"],
     [("collecting", "result.py:ResultList.__getattr__"), ("averaging", "result.py:AveragedResultList.__getattr__")],
     ["ResultList attributes", "ResultList.mean"],
     [("results", "members in order", "result.py:ResultList.results")])

prop("P26", "Drawings show exactly the structure and the matrices they are given",
     "The index profile of a structure along a unit vector v lists the front half-space, every slice of the expanded structure in order and the back half-space, each with its thickness and the square root of v.eps.v. A drawing of a structure (graph or section) shows at every depth the real index along x of the slice at that depth, interfaces at the accumulated thicknesses, with part of both half-spaces. A plot of Mueller matrices has for every element and every table one curve with that table's wavelengths and values, in the panel of its element, in the colour of the element and the line style and name of the table. Drawing changes nothing that is drawn, and a drawing follows every change made to the structure before it.",
     ["inputs", "histories"],
     "all structures (homogeneous, twisted, graded, repeated, without thickness) after any history of setters; all directions; all Mueller tables and plot options",
     "Tests draw two example structures without looking at the drawing.",
     ["plot/structure.py", "plot/mueller_matrix.py"],
     [("index profile", "plot/structure.py:get_index_profile"), ("drawing", "plot/structure.py:draw_structure"), ("Mueller plot", "plot/mueller_matrix.py:plot_mmatrix")],
     ["get_index_profile", "matplotlib axes", "plotly figure"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
