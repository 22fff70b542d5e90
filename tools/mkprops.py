#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Native kernels: memory safe, free of UB, leak free, survive bad input",
     "Whatever arrays a caller passes to the compiled routines (displacements, maximum-entropy spectrum, direct correlation spectrum), of any length, numeric type, memory layout or alignment, no call reads or writes outside those arrays or depends on uninitialised memory, and none has undefined behaviour. "
     "Arguments that make no sense are refused with an ordinary Python exception, never with a crash, a hang or a silent NULL. "
     "Repeating any call, successful or refused, any number of times does not grow the process's live memory.",
     ["inputs", "histories"], "All argument tuples (lengths 1..thousands, dtypes, strides, coefficient counts, steps, integration methods) and call sequences.",
     "The tests call the kernels with a handful of well-formed arrays in an uninstrumented build; an off-by-one heap read or a leaked buffer is invisible there.",
     ["c/mem.c", "c/correlation.c", "c/displacements.c"],
     [("array conversion and explicit malloc/free in each kernel", "c/*.c"), ("argument validation", "c/correlation.c")],
     observe=["AddressSanitizer/UBSan reports", "allocated bytes after repeated calls"])

prop("C02", "Native kernels: race free, thread-count invariant, inputs untouched",
     "The spectra computed by the multithreaded compiled routines are exactly the same for every number of threads, every scheduling of those threads and every repetition, and no two threads access the same memory without ordering. "
     "A frequency's value does not depend on which other frequencies are requested in the same call, and the caller's arrays are never modified.",
     ["schedules", "inputs"], "All thread counts and interleavings, all inputs.",
     "The tests run with one OpenMP thread and compare with loose tolerances; a shared loop variable shows up only with several threads.",
     ["c/mem.c", "c/correlation.c", "c/displacements.c"],
     [("omp parallel for with private loop state", "c/mem.c, c/correlation.c")],
     observe=["ThreadSanitizer reports under a pthread OpenMP runtime", "bitwise result comparison across OMP_NUM_THREADS"])

prop("C03", "Atomic displacements follow the minimum-image convention in any cell",
     "For every atom and every frame, the displacement from the ideal site differs from (position - site) by an integer combination of the MD cell vectors, and its fractional components lie within [-1/2, 1/2], for any invertible cell (skewed, left-handed, elongated, any orientation). "
     "Moving an atom by whole cell vectors, in any frame, changes no displacement, and the result is real and independent of the other atoms and frames.",
     ["inputs"], "All cells, reference structures, supercells and trajectories, including atoms that crossed the boundary many times.",
     "Tests use two nearly cubic systems whose atoms barely cross the boundary.",
     ["c/displacements.c", "dynaphopy/dynamics.py", "dynaphopy/analysis/coordinates.py"],
     [("fractional rounding", "c/displacements.c atomic_displacements"), ("per-atom loop", "dynaphopy/dynamics.py get_relative_trajectory")],
     observe=["Dynamics.get_relative_trajectory()", "displacements.atomic_displacements()"])

prop("C04", "The maximum-entropy spectrum is Burg's estimate of the whole signal",
     "The maximum-entropy power spectrum of a signal equals the one given by Burg's recursion with the requested number of coefficients applied to all of its samples, real and imaginary parts separately and added, at every requested frequency. "
     "It is non-negative, even in frequency and scales with the square of the signal's amplitude.",
     ["inputs"], "All signals (lengths, real/complex, noisy, periodic), orders, time steps, frequency grids.",
     "Only one test touches this algorithm and it compares nothing computed by it.",
     ["c/mem.c", "dynaphopy/power_spectrum/__init__.py"],
     [("Burg recursion", "c/mem.c GetCoefficients"), ("transfer function", "c/mem.c FrequencyEvaluation"), ("unit conversion", "dynaphopy/power_spectrum/__init__.py")],
     observe=["power spectra returned for algorithm 1"])

prop("C05", "The direct-method spectrum is the Fourier transform of the autocorrelation",
     "The direct Fourier power spectrum of a signal is the discretised Fourier transform of its velocity autocorrelation, sampled every chosen number of steps and integrated with the chosen rule, at every requested frequency. "
     "A real oscillation at frequency f therefore has its maximum at f (a complex one on one side of zero only), and for fine sampling the curve of a real signal agrees with the FFT algorithms.",
     ["inputs"], "All signals, time steps, correlation steps, integration rules and frequency grids.",
     "No test selects this algorithm.",
     ["c/correlation.c", "dynaphopy/power_spectrum/__init__.py"],
     [("correlation loop", "c/correlation.c EvaluateCorrelation")],
     observe=["power spectra returned for algorithm 0"])

prop("C06", "FFT spectra are piecewise-averaged periodograms; both FFT engines agree",
     "The FFT power spectrum is the average, over equally spaced pieces covering the whole trajectory whose length is set by the requested resolution, of the Fourier transform magnitude of each piece's autocorrelation, interpolated at the requested frequencies. "
     "The numpy and the FFTW engines give the same spectrum for the same data, and each mode's column depends only on that mode's signal.",
     ["inputs", "configurations"], "All trajectory lengths, resolutions, frequency windows, real and complex signals, both engines.",
     "Tests compare one numpy result with tolerance 0.1 THz; FFTW is never run.",
     ["dynaphopy/power_spectrum/__init__.py"],
     [("division into pieces", "_division_of_data"), ("per-piece transform", "_numpy_power, _fftw_power")],
     observe=["power spectra returned for algorithms 2 and 3"])

prop("C07", "Spectral area equals kinetic energy; kinetic temperature is consistent",
     "Over the full frequency range the area under the full power spectrum equals the mean kinetic energy of the trajectory in eV (sum of m v^2 / 2 averaged over time), for every spectrum algorithm whose sampling resolves the signal (the FFT algorithms average magnitudes, which adds the side lobes of sharp lines). "
     "The temperature reported from the velocity distribution equals 2<K>/(3 N k_B), so spectrum, temperature and the density of states derived from them agree in absolute units.",
     ["inputs", "configurations"], "All trajectories, masses, structures, algorithms.",
     "No test looks at absolute intensities or temperatures from MD.",
     ["dynaphopy/power_spectrum/__init__.py", "dynaphopy/analysis/energy.py", "dynaphopy/analysis/thermal_properties.py", "dynaphopy/dynamics.py", "dynaphopy/__init__.py"],
     [("unit conversion", "dynaphopy/power_spectrum/__init__.py unit_conversion"), ("Maxwell fit", "dynaphopy/analysis/energy.py"), ("mass weighting", "dynaphopy/dynamics.py get_velocity_mass_average"), ("normalisation", "thermal_properties.get_dos")],
     observe=["get_power_spectrum_full()", "get_temperature()", "get_dos()"])

prop("C08", "Projections onto wave vectors and phonon modes are unitary",
     "The projection onto a wave vector is the mass-weighted velocity summed over equivalent atoms with the phase of each ideal position, normalised by the square root of the number of primitive cells; the projection onto modes is its product with orthonormal phonon eigenvectors of the dynamical matrix at that wave vector. "
     "Hence modes carry exactly the energy of the wave vector at each instant, all commensurate wave vectors together carry exactly the energy of the crystal, opposite wave vectors give complex-conjugate projections, and projections onto each atom type add up to the total.",
     ["inputs"], "All structures (any primitive cell, several species), MD supercells, wave vectors and velocity histories.",
     "Tests only check peak positions after fitting with 0.1 THz tolerance.",
     ["dynaphopy/projection.py", "dynaphopy/__init__.py", "dynaphopy/interface/phonopy_link.py", "dynaphopy/atoms.py"],
     [("projection loops", "dynaphopy/projection.py"), ("q vector conversion", "Quasiparticle.get_q_vector"), ("eigenvector arrangement", "obtain_eigenvectors_and_frequencies")],
     observe=["get_vc()", "get_vq()", "get_eigenvectors()", "get_frequencies()", "get_q_vector()"])

prop("C09", "Partial spectra add up and output options never change the numbers",
     "The full power spectrum equals the sum of the spectra projected onto each atom type, each of these equals the sum over the coordinates, and the per-atom partial spectra add up to it; the wave-vector spectrum is the sum over its components. "
     "Silent mode, plotting mode, saving to file or printing progress never change any spectrum, and a saved curve contains the returned numbers at their frequencies.",
     ["configurations", "inputs"], "All trajectories, algorithms, frequency grids, projection and output settings.",
     "Tests never use projections onto atoms or coordinates, nor compare silent with verbose runs.",
     ["dynaphopy/__init__.py", "dynaphopy/power_spectrum/__init__.py", "dynaphopy/interface/iofile/__init__.py"],
     [("two accumulation paths", "Quasiparticle.get_power_spectrum_full"), ("partials", "get_power_spectrum_partials"), ("write_curve_to_file", "iofile")],
     observe=["get_power_spectrum_full/partials/wave_vector", "saved curve files"])

prop("C10", "Frequencies and force constants convert into each other without loss",
     "Force constants rebuilt from frequencies and eigenvectors at all commensurate wave vectors of a supercell reproduce exactly those frequencies there; rebuilt from the harmonic frequencies they equal the original force constants; this holds for every supercell matrix, diagonal or not, and for force constants given as force sets. "
     "The generated harmonic test trajectory obeys the equations of motion of the given force constants, and analysing it recovers the harmonic frequencies within the spectral resolution, with three zero frequencies at Gamma.",
     ["inputs"], "All crystals, primitive cells, supercells, force constants and renormalised frequency sets.",
     "Tests check four crystals with tolerances (rtol=1) that hide large errors.",
     ["dynaphopy/interface/phonopy_link.py", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/__init__.py"],
     [("dynamical matrix back-transform", "phonopy_link.get_renormalized_force_constants"), ("harmonic generator", "iofile.generate_test_trajectory"), ("quasiparticle loop", "Quasiparticle.get_commensurate_points_data")],
     observe=["get_renormalized_force_constants()", "get_commensurate_points_data()", "generate_test_trajectory()"])

prop("C11", "Symmetry-equivalent wave vectors and commensurability are decided right",
     "Every wave vector listed as symmetry-equivalent to another has the same harmonic frequencies, the list contains the wave vector itself without repetition, and quantities stored for commensurate points the program identifies as equivalent are equal. "
     "A wave vector is declared commensurate exactly when its plane wave is periodic in the MD supercell, and with symmetry on the phonon spectrum is the plain average over the listed points that are commensurate with the MD supercell (over all of them if the wave vector itself is not).",
     ["inputs"], "All crystals, primitive cells, supercells, wave vectors.",
     "Tests touch a few high-symmetry crystals and only through fitted positions.",
     ["dynaphopy/interface/phonopy_link.py", "dynaphopy/__init__.py"],
     [("reciprocal operations in primitive basis", "get_equivalent_q_points_by_symmetry"), ("commensurability test", "Quasiparticle.check_commensurate"), ("reuse of equivalent points", "get_commensurate_points_data")],
     observe=["get_equivalent_q_points_by_symmetry()", "check_commensurate()", "get_power_spectrum_phonon()"])

prop("C12", "Analysis results depend on current settings, not on call history",
     "After any sequence of changes of wave vector, frequency range, resolution, algorithm, number of coefficients, atom projection, fitting function, band paths or extra force constants, interleaved with any queries, every result equals what a fresh analysis of the same trajectory with the final settings returns. "
     "Queries never change later results: asking twice, saving files, or asking for other quantities in between returns the same values, and the wave vector set by the user stays in place.",
     ["histories"], "All finite sequences of setters and queries.",
     "Tests use one straight-line call sequence per object, so stale caches cannot show.",
     ["dynaphopy/__init__.py", "dynaphopy/parameters.py"],
     [("cache invalidation", "full_clear, power_spectra_clear, force_constants_clear, bands_clear and the setters")],
     state=[("cached spectra, projections, force constants", "must match current parameters", "Quasiparticle")],
     observe=["all public getters of Quasiparticle"])

prop("C13", "Trajectory and structure queries do not depend on query order",
     "For a trajectory or a crystal structure, the value returned by every query is a function of the loaded data and the query's own arguments: it is independent of which queries came before, and of whether it was asked before. "
     "Keeping the last n steps gives exactly what loading only those steps would give, for every derived quantity, and replacing the primitive cell or the positions gives what a new structure would give.",
     ["histories", "inputs"], "All query sequences on Dynamics and Structure objects, cropping at any point.",
     "Tests query once, in one order.",
     ["dynaphopy/dynamics.py", "dynaphopy/atoms.py"],
     [("lazy caches", "Dynamics and Structure getters"), ("crop_trajectory", "dynaphopy/dynamics.py")],
     observe=["Dynamics and Structure getters"])

prop("C14", "Memory-mapped analysis equals in-memory analysis and cleans up",
     "Loading and analysing a trajectory with memory mapping gives the same positions, velocities, times and derived results as without it, for every reading window and cropping. "
     "Several memory-mapped trajectories alive in one process never disturb each other, and the backing files disappear when their owners are gone.",
     ["configurations", "histories"], "All trajectory formats, read windows, interleavings of several live objects, temp directory settings.",
     "No test uses memory mapping.",
     ["dynaphopy/dynamics.py", "dynaphopy/interface/iofile/trajectory_parsers.py"],
     [("np.memmap backing files", "dynamics.py, trajectory_parsers.py"), ("Dynamics.__del__", "dynamics.py")],
     observe=["arrays compared with non-mapped twins", "directory listing after release"])

prop("C15", "Trajectory readers return exactly the requested frames and times",
     "Reading a VASP OUTCAR, VASP XDATCAR or LAMMPS dump with a first/last step window returns exactly those frames, in order, with every atom's coordinates as written (in the frame of the unit cell), the MD cell of the file, one time per frame spaced by the step of the file and, for OUTCAR, the matching energy. "
     "The format is recognised from content, files longer than the detection window included, and the same physical trajectory gives the same result in every format.",
     ["inputs", "configurations"], "All well-formed files: frame and atom counts, cells (skewed, rotated), boundary values, windows, atom templates, velocities or positions.",
     "Two files with a single window each are read in the tests.",
     ["dynaphopy/interface/iofile/trajectory_parsers.py", "dynaphopy/interface/iofile/__init__.py"],
     [("frame loop and cuts", "read_vasp_trajectory, read_lammps_trajectory, read_VASP_XDATCAR"), ("get_trajectory_parser", "iofile/__init__.py")],
     observe=["Dynamics returned by each parser"])

prop("C16", "Interrupted trajectory files are read as a clean prefix or refused",
     "If a trajectory file ends at an arbitrary byte (the MD run was killed while writing), reading it either fails visibly or returns only frames that are complete in the file, each with its true coordinates and time; frames and times always have the same length. "
     "A frame is never invented, repeated, mixed from two frames or silently altered.",
     ["crash_points"], "Every truncation point of files in each format, with and without read windows.",
     "No test reads a damaged file.",
     ["dynaphopy/interface/iofile/trajectory_parsers.py"],
     [("find/readline loops", "trajectory_parsers.py")],
     observe=["frames returned for each truncation point"])

prop("C17", "Automatic atom ordering recovers the crystal order or says it cannot",
     "For an MD file whose atoms are listed in an arbitrary order, thermally displaced and wrapped arbitrarily into the periodic cell, automatic ordering assigns every atom to its own lattice site so that displacements stay small and elements match, whatever the order and the supercell. "
     "If no one-to-one assignment is found it says so and leaves the order of the file.",
     ["inputs"], "All permutations, supercells, crystals, displacements and wrappings.",
     "One file is reordered in the tests.",
     ["dynaphopy/interface/iofile/__init__.py"],
     [("get_correct_arrangement, dynaphopy_order", "iofile/__init__.py"), ("template use in parsers", "trajectory_parsers.py")],
     observe=["template and ordered trajectory"])

prop("C18", "Saved velocity/trajectory files restore the data; joining files loses none",
     "Saving velocities, trajectory or wave-vector projections and loading them back restores exactly the same numbers, times, MD cell size (in unit cells) and wave vector, and loading a window restores exactly that window of every quantity, with one time per step. "
     "Joining files with the concatenation tool yields every step of every input after its skipped ones, in order, with a matching time for each, and the analysis of restored data equals the analysis of the original.",
     ["inputs", "histories"], "All datasets, windows, partitions into files, skip counts.",
     "No test touches HDF5.",
     ["dynaphopy/interface/iofile/__init__.py", "scripts/concath5", "dynaphopy/__init__.py"],
     [("save_data_hdf5 / initialize_from_hdf5_file", "iofile/__init__.py"), ("concath5", "scripts/concath5")],
     observe=["arrays and attributes after reload"])

prop("C19", "Supercells and structure files describe the same crystal",
     "A generated supercell (VASP or LAMMPS format, or the internal expansion) contains for each atom of the unit cell its translated copies in a fixed order with the right element, mass and charge, in a cell whose vectors are the repeated unit-cell vectors, for any cell shape; reading a written structure back gives the same crystal, and the LAMMPS form is a rigid rotation of it (its mirror image if the cell is left-handed). "
     "A POSCAR file is read according to the VASP rules for scaling factor, direct or Cartesian coordinates, element order and selective dynamics.",
     ["inputs"], "All cells, bases, element sequences, supercell sizes and file variants.",
     "No test generates a structure; two POSCAR/OUTCAR files are read.",
     ["dynaphopy/generate_cell.py", "dynaphopy/atoms.py", "dynaphopy/interface/iofile/__init__.py", "scripts/dynaphopy"],
     [("Structure.get_positions/get_cell/get_masses(supercell)", "dynaphopy/atoms.py"), ("generators", "dynaphopy/generate_cell.py"), ("readers", "iofile/__init__.py")],
     observe=["generated text parsed by an independent reader", "Structure getters"])

prop("C20", "Displacement statistics match their definitions in every basis",
     "Mean-square displacement matrices per atom type, anisotropic displacement parameters in Cartesian, crystal and normalised bases, average atomic positions (per supercell atom or folded to the unit cell) and displacement histograms equal their textbook definitions evaluated over all equivalent atoms and all frames. "
     "The matrices are symmetric and positive semidefinite and unaffected by rigid relabelling of equivalent atoms or by atoms crossing cell boundaries.",
     ["inputs"], "All structures with several equivalent atoms, supercells and trajectories.",
     "One system is checked, with the isotropic ratio of its parameters only.",
     ["dynaphopy/dynamics.py", "dynaphopy/__init__.py", "dynaphopy/analysis/coordinates.py"],
     [("get_mean_displacement_matrix, average_positions", "dynaphopy/dynamics.py"), ("get_anisotropic_displacement_parameters, get_atomic_displacements", "dynaphopy/__init__.py")],
     observe=["returned matrices, positions and histograms"])

prop("C21", "Thermodynamic functions obey their identities at every temperature",
     "Free energy, entropy, heat capacity and total energy obtained from a density of states equal the quantum-harmonic-oscillator expressions integrated over it, and satisfy F = U - TS, S = -dF/dT and C = dU/dT, from the zero-point limit to the classical limit; none overflows or turns into garbage at any positive temperature. "
     "For the phonon density of states of a crystal they agree with an independent sum over modes, per unit cell.",
     ["inputs"], "All densities of states, frequency grids and temperatures from far below to far above the phonon energies.",
     "One crystal at one temperature is compared with loose tolerance.",
     ["dynaphopy/analysis/thermal_properties.py", "dynaphopy/__init__.py", "dynaphopy/interface/phonopy_link.py"],
     [("thermal functions", "dynaphopy/analysis/thermal_properties.py"), ("get_thermal_properties", "dynaphopy/__init__.py"), ("DOS normalisation to the unit cell", "phonopy_link.obtain_phonopy_dos")],
     observe=["returned values"])

prop("C22", "Peak analysis recovers the line shapes it is given",
     "Fitting a spectrum that is an exact instance of the selected line shape returns its position, full width at half maximum, area (of the peak without its base line), height and base line, for each line shape offered; reported width and area describe the fitted curve itself. "
     "With degeneracy on, each set of degenerate modes is fitted on its average and gets identical results while other modes are unaffected, and a failed fit is reported as such for that peak alone.",
     ["inputs"], "All peak positions, widths, areas, base lines, grids and degeneracy patterns within the window.",
     "Tests fit a few simulated peaks and allow 0.1 THz.",
     ["dynaphopy/analysis/fitting/__init__.py", "dynaphopy/analysis/fitting/fitting_functions.py"],
     [("line shape classes", "fitting_functions.py"), ("degenerate_sets, average_phonon, phonon_fitting_analysis", "fitting/__init__.py")],
     observe=["fit dictionaries"])

prop("C23", "Saved analysis files carry the computed results",
     "Quasiparticle, band-structure and mesh files, force-constant files and renormalised-frequency files contain, for every wave vector or band point, the same values the analysis returns (to the printed precision), and writing a file does not change what is written next. "
     "Force constants recomputed by the companion tool from a saved quasiparticle file equal those of the analysis that saved it.",
     ["inputs", "histories"], "All crystals, supercells, settings; any order of saving.",
     "Tests compare three files with stored references to one decimal; the companion tool is never run.",
     ["dynaphopy/interface/iofile/__init__.py", "dynaphopy/__init__.py", "scripts/rfc_calc"],
     [("yaml writers", "iofile/__init__.py"), ("write_* methods", "dynaphopy/__init__.py"), ("rfc_calc", "scripts/rfc_calc")],
     observe=["files re-read by an independent parser"])

prop("C24", "The command line gives the library's results for every option",
     "Every quantity saved or printed by the command-line program equals the one obtained through the Python interface with the same settings, each option acting on exactly what it names (wave vector given as fractions, frequency range, resolution, last steps, read window, algorithm, coefficients, fitting function, symmetry options, temperature, projection, memory mapping, silent). "
     "Combining several requests in one run gives the same files as separate runs.",
     ["configurations"], "All combinations of options and input-file contents.",
     "No test runs the command-line program.",
     ["scripts/dynaphopy", "scripts/fitdata", "dynaphopy/interface/iofile/__init__.py", "dynaphopy/parameters.py"],
     [("argument handling", "scripts/dynaphopy"), ("parameter plumbing", "dynaphopy/parameters.py")],
     observe=["files and printed values of a real run versus the API"])

prop("C25", "MD cells that do not fit the crystal are refused, fitting ones recognised",
     "The ratio between the MD cell and the unit cell is recognised exactly for every integer supercell, within the small tolerance that cell relaxation needs, and determines the number of atoms and equivalent-site bookkeeping. "
     "An MD cell that is not an integer multiple of the unit cell along any axis is refused instead of being analysed, whatever the signs or combination of the mismatches.",
     ["inputs"], "All unit cells, integer and non-integer ratios per axis.",
     "Tests only use matching cells.",
     ["dynaphopy/dynamics.py"],
     [("get_supercell_matrix", "dynaphopy/dynamics.py")],
     observe=["get_supercell_matrix(), get_number_of_atoms() or refusal"])

prop("C26", "Input files mean the same however they are laid out",
     "The settings read from an input file (structure, force constants or force sets, primitive matrix, supercell matrix, band paths with labels, mesh) are those written under each heading, independent of section order, comments, blank lines, spacing and which optional sections are present. "
     "Equivalent atoms, primitive cell and masses derived from them describe the crystal: each primitive-cell site is found once, equal sites share a type and different elements never do.",
     ["inputs", "configurations"], "All section subsets and orders, whitespace and comment variants; all primitive matrices for the crystal.",
     "Tests build structures by hand and never read an input file.",
     ["dynaphopy/interface/iofile/__init__.py", "dynaphopy/atoms.py"],
     [("read_parameters_from_input_file", "iofile/__init__.py"), ("get_atom_type_index, get_primitive_cell", "dynaphopy/atoms.py")],
     observe=["returned settings", "atom type index"])

prop("C27", "A live LAMMPS run gives the motion LAMMPS computed, atom by atom",
     "A trajectory produced by driving LAMMPS directly holds, for every sampled step, the positions, velocities, potential energy, time and cell which LAMMPS computed, whatever order LAMMPS keeps its atoms in, however the crystal is oriented or replicated, and whatever sampling interval, equilibration time and total time are asked for. "
     "Its displacements, spectra and force constants are those of the same motion handed over from a file or directly.",
     ["inputs", "schedules"], "All crystals, supercells, atom orders and reorderings inside LAMMPS, sampling intervals and times.",
     "No test runs LAMMPS; the module is not even installed where the tests run.",
     ["dynaphopy/interface/lammps_link.py", "scripts/dynaphopy"],
     [("generate_lammps_trajectory", "dynaphopy/interface/lammps_link.py"), ("--run_lammps", "scripts/dynaphopy")],
     observe=["trajectory, velocity, energy, time, cell and analyses of a run of a stand-in module playing a known motion"])

prop("C28", "Figures draw the computed numbers where they belong",
     "Every plot (trajectory, velocity, energy, projections, spectra, densities of states, harmonic and renormalised bands with linewidths, frequency shifts, linewidths against frequency, eigenvectors, displacement and velocity distributions, peak fits, coefficient scan) draws the values of the corresponding analysis at the right abscissa: time of the step, frequency, distance along the band path with its labels, displacement, position of the atom. "
     "The numbers printed with a plot (areas, widths, best fit, mean, deviation, temperature) are those of what is drawn, and plotting succeeds for every analysis which has the data.",
     ["inputs", "configurations", "histories"], "All crystals, band paths and labels, bins, atoms, coordinates, modes, algorithms; any order of plots.",
     "No test draws a figure.",
     ["dynaphopy/__init__.py", "dynaphopy/analysis/modes.py", "dynaphopy/analysis/energy.py", "dynaphopy/analysis/fitting/__init__.py",
      "dynaphopy/power_spectrum/__init__.py"],
     [("plot_* methods", "dynaphopy/__init__.py"), ("plot_phonon_modes", "dynaphopy/analysis/modes.py"),
      ("mem_coefficient_scan_analysis", "dynaphopy/power_spectrum/__init__.py")],
     observe=["lines, bars, areas, arrows, ticks of the finished figures and the text printed"])

prop("C29", "Every entry of the interactive menu does what it says",
     "A session of the interactive mode gives the figures, printed results and settings of the same steps taken through the Python interface, whatever entries are chosen in whatever order: each entry runs the analysis it names, each typed value (fractions included) arrives where it belongs, keys which are not offered change nothing. "
     "The values and marks shown on every screen (files, wave vector, frequency range, resolution, numbers of atoms and steps, time step, preferences, harmonic frequencies) are the current ones, and leaving the menu ends the program normally.",
     ["histories", "inputs"], "All sequences of menu entries and values, with and without BORN file, from every kind of trajectory.",
     "No test opens the interactive mode.",
     ["dynaphopy/interface/interactive_ui.py", "scripts/dynaphopy"],
     [("interactive_interface", "dynaphopy/interface/interactive_ui.py")],
     observe=["screens, figures, printed text and final settings of scripted sessions; sessions in a pseudo terminal"])

prop("C30", "Polar corrections and group velocities are those of the crystal",
     "With the non-analytical corrections switched on, harmonic and renormalised bands split at the zone centre as the charges and dielectric tensor of the BORN file demand along the direction of the path, keep their frequencies at the other commensurate wave vectors, and bands (also those half a line width up and down), densities of states and thermodynamic tables are those of the crystal with its polar term; switched off (at any time, in any order of queries) they are those without. "
     "The group velocities reported at the commensurate wave vectors are the derivatives of the frequencies of the renormalised crystal there.",
     ["inputs", "histories"], "All polar crystals, charge tensors, paths, meshes; switching on and off between queries.",
     "No test uses a BORN file or group velocities.",
     ["dynaphopy/interface/phonopy_link.py", "dynaphopy/__init__.py"],
     [("get_phonon (NAC)", "dynaphopy/interface/phonopy_link.py"), ("set_NAC", "dynaphopy/__init__.py"),
      ("obtain_phonopy_group_velocity", "dynaphopy/interface/phonopy_link.py"),
      ("get_commensurate_points_properties", "dynaphopy/__init__.py")],
     observe=["bands, printed tables, figures and thermodynamic tables with the corrections on and off", "group velocities returned"])

prop("C31", "Force constants at a temperature are those of its equilibrium volume",
     "qha_extract writes the force constants interpolated (smoothly, over the volumes given) at the volume which minimises the total free energy at the temperature asked, whatever the order and names of the files, the number of volumes and the temperature between the listed ones; they are readable by the other programs and unchanged inputs give the same file. "
     "Temperatures and volumes outside the range of the data are refused instead of extrapolated, and input files are left alone.",
     ["inputs"], "All sets of volumes, orders of files, equations of state, temperatures.",
     "No test runs the script.",
     ["scripts/qha_extract"],
     [("qha_extract", "scripts/qha_extract")],
     observe=["the force constants file written, messages, exit status, input files"])

prop("C32", "Analyses recover frequencies, line widths and force constants of the motion",
     "From motion whose modes have known frequencies and life times, a complete quasiparticle analysis gives at every commensurate wave vector those frequencies (within a fraction of the line width and the resolution), those line widths, their difference from the harmonic ones as shifts, zero for the acoustic modes at the zone centre, and renormalised force constants whose modes have those frequencies, whatever the crystal, the shape of the MD supercell, the spectrum engine, the line shape, the use of symmetry and the frequency range set before. "
     "The wave vector and frequency range of the user are as before afterwards.",
     ["inputs"], "All crystals, supercells (also less symmetric than the crystal), force constants, life times and settings.",
     "Tests compare a few stored numbers of single trajectories.",
     ["dynaphopy/__init__.py", "dynaphopy/projection.py", "dynaphopy/analysis/fitting/__init__.py", "dynaphopy/power_spectrum/__init__.py", "dynaphopy/interface/phonopy_link.py"],
     [("get_commensurate_points_data", "dynaphopy/__init__.py"), ("phonon_fitting_analysis", "dynaphopy/analysis/fitting/__init__.py"),
      ("get_renormalized_force_constants", "dynaphopy/interface/phonopy_link.py")],
     observe=["frequencies, line widths, shifts and force constants returned", "settings afterwards"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
