"""Write properties.jsonl (single place where statements are edited)."""
import json, os

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors)

props = [
P('C01', 'Results do not depend on the number of processes or node layout',
  'Every calculation that runs on N MPI processes, however these are distributed among shared-memory nodes, returns on every process that is promised a result the same numbers as the calculation on one process, with or without shared memory. This includes process counts that exceed or do not divide the number of work items (q points, k points, bands, energies, cells), and files written in parallel runs equal those of serial runs.',
  ['configurations', 'inputs'],
  'All process counts up to a bound, all assignments of processes to nodes, shared memory on and off, all parallel routines.',
  'The test suite runs with one and two processes on one node only; work distribution has different branches for uneven splits, idle processes, and several nodes.',
  ['elphmod/MPI.py', 'elphmod/dispersion.py', 'elphmod/elph.py', 'elphmod/diagrams.py', 'elphmod/dos.py', 'elphmod/md.py', 'elphmod/bravais.py'],
  [('work distribution', 'elphmod/MPI.py:distribute/matrix'), ('shared arrays', 'elphmod/MPI.py:shared_array'), ('collectives in each routine', 'elphmod/*.py')]),
P('C02', 'No schedule of the processes changes a result or blocks the run',
  'For every relative timing of the processes that MPI semantics allow, a parallel calculation terminates and returns the same results; no process reads node-shared memory before its writer has finished or modifies it while others still need it. All processes take part in the same sequence of collective operations with matching sizes.',
  ['schedules', 'configurations'],
  'All schedules up to a preemption bound of all ranks between MPI calls, eager and synchronizing collectives, all node layouts up to a bound.',
  'A test sees whichever interleaving happens to occur; missing barriers around shared memory almost never show.',
  ['elphmod/MPI.py', 'elphmod/elph.py', 'elphmod/dispersion.py', 'elphmod/md.py'],
  [('barriers around shared memory', 'elphmod/MPI.py:SharedArray.Bcast'), ('shared-memory fast path of coupling', 'elphmod/elph.py:sample')],
  [('shared window', 'memory seen by all processes of a node', 'elphmod/MPI.py:shared_array')]),
P('C03', 'Lattice vectors, reciprocal lattices and supercells are consistent',
  'For every lattice type, lattice vectors have the lengths, angles and orientation the parameters prescribe, reciprocal vectors are dual to them, volumes and coordinate transformations agree with both, and uniform meshes list every point once in row-major order. For every integer supercell matrix, left-handed and non-diagonal ones included, the cells found are exactly one representative of each class of lattice vectors modulo the supercell, starting at the origin, and each lattice vector is mapped to the right cell and supercell.',
  ['inputs'], 'All integer 3 x 3 supercell matrices with bounded entries and volume; all supported Bravais lattice types over a grid of parameters; all small meshes and plane lattices.',
  'Tests use a handful of lattices and no supercell mapping by itself; errors need negative determinants, off-diagonal elements, or special indices.',
  ['elphmod/bravais.py', 'elphmod/misc.py'],
  [('supercell definition and mapping', 'elphmod/bravais.py:supercell/to_supercell'), ('primitive vectors', 'elphmod/bravais.py:primitives'), ('reciprocal lattice', 'elphmod/bravais.py:reciprocals'), ('meshes', 'elphmod/bravais.py:mesh')]),
P('C05', 'Rearranging tight-binding and mass-spring models keeps the physics',
  'After any sequence of mapping to a supercell, mapping back to the unit cell, reordering orbitals or atoms, shifting them by lattice vectors, standardizing and symmetrizing, the Hamiltonian or dynamical matrix at every k point equals the original one up to the documented permutation, phases and zone folding, and positions, atom types, masses and lattice vectors stay consistent with it. Lattice vectors of a standardized model are unique and sorted and its matrix elements nonzero; sparse supercell matrices equal dense ones at the zone center; values such as bond lengths follow the rearrangement; no other object sharing data with the model changes.',
  ['histories', 'inputs'], 'All sequences of rearrangements up to a bounded depth on generic models with and without degeneracies, repeated lattice vectors and long-range terms.',
  'Tests check single operations on one model; errors appear for combined operations, left-handed cells, repeated lattice vectors and empty models.',
  ['elphmod/el.py', 'elphmod/ph.py'],
  [('tight-binding model', 'elphmod/el.py:Model.supercell/unit_cell/order_orbitals/shift_orbitals/standardize'), ('mass-spring model', 'elphmod/ph.py:Model.supercell/unit_cell/order_atoms/shift_atoms/standardize')],
  [('real-space model', 'lattice vectors, matrix elements, geometry', 'elphmod/el.py:Model, elphmod/ph.py:Model')]),
P('C06', 'Rearranging electron-phonon and Coulomb couplings keeps the physics',
  'After any sequence of mapping to a supercell, standardizing, symmetrizing and applying the acoustic sum rule, the electron-phonon coupling at every pair of q and k points equals the original one up to the documented symmetrization and zone folding, consistently with the accompanying electron and phonon models; the same holds for the electron-electron interaction. Sparse supercell couplings equal dense ones at the zone center; thresholds discard exactly the elements below them; the acoustic sum vanishes after its correction.',
  ['histories', 'inputs'], 'All sequences of rearrangements up to a bounded depth on generic models with independent electronic and phononic lattice vectors.',
  'Tests map one symmetric model to one supercell; errors need independent lattice vectors, skewed cells, or combined operations.',
  ['elphmod/elph.py', 'elphmod/elel.py'],
  [('supercell mapping', 'elphmod/elph.py:Model.supercell'), ('standardization', 'elphmod/elph.py:Model.standardize'), ('Coulomb interaction', 'elphmod/elel.py:Model')],
  [('real-space coupling', 'lattice vectors and matrix elements', 'elphmod/elph.py:Model')]),
P('C07', 'Coupling evaluation is independent of history and sampling options',
  'Evaluating or sampling the electron-phonon coupling always yields the Fourier transform of the current real-space coupling (plus long-range terms if present), whatever has been evaluated, modified, replaced or rearranged before, in the orbital or band basis, for equivalent points outside the first zone, and for all ways of specifying the mesh. Sampling on a mesh with or without transformation by electronic and phononic eigenvectors and squaring agrees with point-wise evaluation and never modifies its arguments.',
  ['histories', 'inputs'], 'All sequences of evaluations and modifications up to a bounded depth; all combinations of sampling options on small meshes.',
  'Evaluation caches intermediate results; tests never evaluate after modifying the model, and sample one mesh with one set of options.',
  ['elphmod/elph.py'],
  [('cached q point', 'elphmod/elph.py:Model.gq/g'), ('sampling', 'elphmod/elph.py:sample/transform')],
  [('cache', 'coupling for last q point', 'elphmod/elph.py:Model.gq')]),
P('C15', 'Occupation functions are consistent and the Fermi level fills the bands',
  'Every smearing function (Fermi-Dirac, Gaussian, Methfessel-Paxton of any order, cold, Lorentz, double and two Fermi functions, Heaviside) has the exact value for arguments from deep tails to the center, for numbers, integers and arrays alike; delta functions and their derivatives are derivatives of the step function and the entropy belongs to it. Names used in input files select the right function. For the Fermi-Dirac, Gaussian, first-order Methfessel-Paxton, cold and Lorentz functions, the Fermi-level search terminates for every partial filling, temperature and set of energies and yields the requested number of electrons within its tolerance, without modifying the energies.',
  ['inputs'], 'All smearing functions on a grid of arguments including extreme ones; all combinations of level schemes, fillings, temperatures and functions.',
  'Tests evaluate few functions at moderate arguments; termination and accuracy of the fixed-point iteration cannot be settled by samples.',
  ['elphmod/occupations.py'],
  [('smearing functions', 'elphmod/occupations.py:fermi_dirac/gauss/...'), ('Fermi level', 'elphmod/occupations.py:find_Fermi_level')]),
P('C17', 'Tetrahedron integration counts every state, crossing and contour once',
  'The density of states of energies on any triangular mesh, degenerate triangles included, is the exact derivative of the number of states below the energy within linear interpolation, integrates to unity, and is the mean of the one-sided limits at energies of mesh points; the same holds for the coupling-weighted spectral function, and energy windows do not change values inside. Crossing points of two isolines are found completely and exactly once with the right weight even if they are on edges, corners or the mesh boundary. Contours of constant energy are contiguous, inside the Brillouin zone, on the requested energy, and complete for meshes that contain the zone corners.',
  ['inputs'], 'All assignments of few energies to 2 x 2 and 3 x 3 meshes plus generic larger meshes, all intervals between corner energies.',
  'Tests integrate one smooth band; degenerate triangles and points on edges occur for symmetric data only.',
  ['elphmod/dos.py'],
  [('density of states', 'elphmod/dos.py:hexDOS'), ('Eliashberg function', 'elphmod/dos.py:hexa2F'), ('double-delta integral', 'elphmod/dos.py:double_delta'), ('isolines', 'elphmod/dos.py:isoline')]),
P('C16', 'Susceptibilities and self-energies equal their defining sums over states',
  'Susceptibility, polarization (also with an excluded subspace), phonon self-energy with all its options (modes or matrix, two different couplings, diagonal, frequencies, excluded energy window, contact interaction, integrand), its Fermi shift, Fermi-surface averages, triangle diagrams, renormalized couplings in band and orbital basis, Fan-Migdal self-energy and Green-Kubo conductivity equal the documented sums for every mesh dimension, number of bands, momentum transfer inside or outside the first zone, with exact limits for degenerate energies (energies are either degenerate or clearly distinct). The grand potential is exact for any temperature, and the static diagrams at zero momentum are its derivatives. Arguments are not modified.',
  ['inputs'], 'All combinations of options, mesh dimensions, band numbers, degeneracy patterns and momentum transfers on small meshes.',
  'Tests compare two implementations for one material; degenerate energies, complex couplings and option combinations are not sampled.',
  ['elphmod/diagrams.py'],
  [('bubbles', 'elphmod/diagrams.py:susceptibility/polarization/phonon_self_energy'), ('triangle', 'elphmod/diagrams.py:triangle'), ('vertex', 'elphmod/diagrams.py:renormalize_coupling_band/renormalize_coupling_orbital/Pi_g'), ('transport', 'elphmod/diagrams.py:fan_migdal_self_energy/green_kubo_conductivity')]),
P('C10', 'Wigner-Seitz cells contain each nearest image with the right weight',
  'For every mesh point of a plane lattice with 60, 90 or 120 degrees, also outside the first cell and also when distances are measured from a point shifted by up to a quarter of the mesh, the Voronoi routine returns exactly the periodic images nearest to the origin of the cell; the two-dimensional Wigner-Seitz routine lists exactly these points with their number of equidistant images and their lengths, so that inverse degeneracies sum to the number of mesh points. For every lattice (not extremely skewed), mesh shape, set of basis atoms and sign, the three-dimensional Wigner-Seitz routine returns each lattice vector that is nearest for at least one pair of atoms exactly once, with, for each pair, the number of equidistant images (zero if not nearest) and the distance, leaving its arguments unchanged.',
  ['inputs'], 'All points, mesh sizes, angles and shifts on a grid; all lattice types, mesh shapes and bases within bounds.',
  'Tests use Wigner-Seitz cells for one hexagonal material; ties, shifted origins and several basis atoms produce different cells.',
  ['elphmod/bravais.py'],
  [('nearest images', 'elphmod/bravais.py:to_Voronoi'), ('plane cell', 'elphmod/bravais.py:wigner_2d'), ('three-dimensional cell', 'elphmod/bravais.py:wigner')]),
P('C11', 'Point-group symmetry of meshes is exact and complete',
  'For every mesh of a plane lattice with 60, 90 or 120 degrees, the images of a point are exactly its orbit under the full point group, the irreducible points contain the first member of each orbit once, the symmetries reported for data (up to a tolerance, undefined values matching anything) are exactly those rotations and reflections that leave the data unchanged, with the right mapping of points, and completing symmetric data known on at least one point per orbit restores all of it (also for quantities on two meshes, from irreducible momentum transfers). Band energies of a symmetric Hamiltonian on a full mesh are those of direct diagonalization at every point, with or without use of symmetry, eigenvectors and band ordering; ordered energies are a permutation of the sorted ones reported correctly, and eigenvectors, where not related by symmetry, are orthonormal and belong to the energies.',
  ['inputs'], 'All mesh sizes up to a bound, all assignments of few values to small meshes, data with every possible symmetry subgroup, all choices of known points.',
  'Tests use fully symmetric data on one mesh; partial symmetries, odd meshes and rectangular or acute lattices differ.',
  ['elphmod/bravais.py', 'elphmod/dispersion.py'],
  [('orbits', 'elphmod/bravais.py:images/irreducibles'), ('symmetries of data', 'elphmod/bravais.py:symmetries/complete/complete_k'), ('energies on mesh', 'elphmod/dispersion.py:dispersion_full/dispersion_full_nosym')]),
P('C04', 'Real-space models and their Fourier transforms represent each other',
  'Hamiltonians, dynamical matrices, Coulomb interactions and electron-phonon couplings evaluated at any wave vector equal the Fourier sums of the stored real-space matrix elements, also for derivatives and when given lists of vectors; looking up matrix elements for lattice vectors returns the stored matrix or zeros. Models built from data on a mesh of q or k points reproduce these data at all mesh points, interpolate with nearest images only (ties shared equally), do not depend on using fast Fourier transforms, shared memory or lists of irreducible q points in any order, respect the chosen mass and energy units, and are Hermitian whenever the data are. Evaluating such a model on its mesh and transforming back recovers the model.',
  ['inputs', 'configurations'], 'All lattice types, mesh shapes, numbers of orbitals and atoms, and option combinations within bounds.',
  'Tests transform one or two materials with even hexagonal meshes; odd, anisotropic and three-dimensional meshes and unusual options take other branches.',
  ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py'],
  [('electrons', 'elphmod/el.py:k2r'), ('phonons', 'elphmod/ph.py:q2r'), ('interaction', 'elphmod/elel.py:q2r'), ('coupling', 'elphmod/elph.py:q2r')]),
P('C08', 'Models and spectra survive being written to and read from files',
  'Reading a file written by the package recovers what was written, to the precision of the format: Wannier Hamiltonians, force constants and dynamical matrices with crystal structure, masses, atom labels, dielectric tensor and effective charges, quadrupoles, electron-phonon couplings, Coulomb interactions, q-point lists, displacement-basis couplings, arrays and bands. Files in the formats of the supported programs (text, binary and XML variants, with degeneracies, superlattice vectors, any number of orbitals, atoms and lattice vectors) are read into the model they describe, with units and mass conventions as requested. Writing a file leaves the model unchanged.',
  ['inputs', 'configurations'], 'All sizes, lattices, labels, format variants and options within bounds.',
  'Tests read one file of a few formats; line breaks after a number of entries, label lengths, optional sections and unit options vary with the material.',
  ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/elel.py', 'elphmod/bravais.py', 'elphmod/misc.py'],
  [('Wannier Hamiltonian', 'elphmod/el.py:read_hrdat/write_hrdat'), ('force constants', 'elphmod/ph.py:read_flfrc/write_flfrc'), ('coupling', 'elphmod/elph.py:Model.to_epmatwp'), ('degeneracies', 'elphmod/bravais.py:read_wigner_file'), ('interaction', 'elphmod/elel.py:Model.to_Wmat')]),
P('C12', 'Interpolated data are exact at data points, periodic and local',
  'Linear interpolation of data on a periodic line or a triangular (60 or 120 degrees) or rectangular mesh returns the data at the mesh points, for all integer indices, and in between the linear (rectangles: bilinear) interpolation of the corners of the surrounding segment, triangle or rectangle, for real, integer, complex and array-valued data and any choice and order of axes. For values defined modulo a period, the corners are first brought as close together as possible by full-period shifts, likewise phases in polar mode. Resized arrays are this interpolation on the new mesh, with the end points kept if not periodic. Fourier interpolation passes through the data, uses only the nearest images of each lattice vector with equal weights and reproduces band-limited functions everywhere.',
  ['inputs'], 'All mesh shapes, angles, data types, axes and grids of fractional indices within bounds.',
  'Tests interpolate a single smooth function; edges of the mesh, both triangles of each cell, ties and wrapped values are not sampled.',
  ['elphmod/bravais.py'],
  [('interpolation', 'elphmod/bravais.py:linear_interpolation'), ('periodic values', 'elphmod/bravais.py:stack'), ('resizing', 'elphmod/bravais.py:resize'), ('Fourier interpolation', 'elphmod/bravais.py:Fourier_interpolation')]),
P('C13', 'Bands diagonalize the matrix, keep their identity and unfold correctly',
  'For every matrix-valued function and any list or mesh of wave vectors, the eigenvalues returned are those of the matrix in ascending order (before ordering) and the eigenvectors are orthonormal and belong to them, also on full meshes that use the symmetry. Band ordering returns a permutation at each point; when the states vary smoothly or are unchanged along the path, every band keeps its character through all crossings and degeneracies, sorted by average energy if requested; reordered results and returned indices agree. States of two similar systems are matched one to one. Unfolding weights are the squared norms of the projections of supercell states onto Bloch sums of the primitive cell, for any supercell, block order and sign, so that a perfect supercell recovers the primitive spectrum.',
  ['inputs', 'configurations'], 'All sequences of level orders, mesh sizes, angles, options and supercells within bounds.',
  'Tests compare full and reduced meshes for one material; crossings, degeneracies and non-diagonal supercells occur elsewhere.',
  ['elphmod/dispersion.py'],
  [('diagonalization', 'elphmod/dispersion.py:dispersion'), ('mesh', 'elphmod/dispersion.py:dispersion_full'), ('ordering', 'elphmod/dispersion.py:band_order'), ('unfolding', 'elphmod/dispersion.py:unfolding_weights')]),
P('C14', 'Sum rules are restored minimally and long-range terms split off exactly',
  'Correcting for acoustic and rotational sum rules yields symmetric force constants that satisfy them and differ from the given ones by the smallest possible amount; simple corrections change nothing but self force constants or charges; the corrected electron-phonon coupling vanishes for uniform translations. Dipole and quadrupole terms of dynamical matrix and coupling equal the defining lattice sums, respect time reversal and translation and have the correct direction-dependent limit. Whenever long-range parameters are changed or switched on and off, in any order, or atoms are reordered or moved to other cells, and the short-range part is updated, the original results on the original mesh are recovered. The reported sum of force constants and the decay of force constants and coupling with distance are the literal ones.',
  ['inputs', 'histories', 'configurations'], 'All sequences of changes of the long-range parameters up to length 2 (quick) or 3 (thorough) and all lattices, atoms, conventions within bounds.',
  'Tests cover one polar material with default parameters; a term left out in one of eight parameters, conventions or dimensions goes unnoticed.',
  ['elphmod/ph.py', 'elphmod/elph.py'],
  [('sum rules', 'elphmod/ph.py:sum_rule_correction'), ('charges', 'elphmod/ph.py:zasr'), ('long-range terms', 'elphmod/ph.py:Model.generate_long_range'), ('short-range part', 'elphmod/ph.py:Model.update_short_range'), ('coupling', 'elphmod/elph.py:Model.update_short_range'), ('size of short-range part', 'elphmod/ph.py:Model.sum_force_constants')]),
P('C18', 'Displacement dynamics is conservative, history-free and size-consistent',
  'For any structure, the free energy reported by the molecular-dynamics driver is that of the perturbed electrons and springs for the given number of electrons (or of carriers in lower and upper bands), the forces are its negative derivative and the Hessian its second derivative; for the given structure, forces vanish and the Hessian equals the given force constants. Energies, forces, Hessians, densities, and superconducting parameters per primitive cell do not depend on whether the primitive cell with q and k points or a dense or sparse supercell is used. They are functions of the current structure and parameters alone: no sequence of displacements, queries, saving and loading, or writing and reading of trajectories leaves a trace in the driver, the given models, or other drivers. Plots, including open ones that are updated, show the current positions, displacements, and charges.',
  ['histories', 'inputs', 'configurations'], 'All sequences of 16 driver operations up to length 3 (quick) or 4 (thorough), and all models, meshes, smearings and supercells within bounds.',
  'Tests compare one random displacement of one supercell between two kinds of drivers; forces are never compared with the energy.',
  ['elphmod/md.py', 'elphmod/diagrams.py', 'elphmod/occupations.py'],
  [('free energy', 'elphmod/md.py:Driver.free_energy'), ('forces', 'elphmod/md.py:Driver.jacobian'), ('Hessian', 'elphmod/md.py:Driver.hessian'), ('superconductivity', 'elphmod/md.py:Driver.superconductivity'), ('storage', 'elphmod/md.py:Driver.save'), ('trajectories', 'elphmod/md.py:Driver.from_xyz')],
  state=[('u', 'displacements', 'elphmod/md.py:Driver'), ('mu', 'chemical potential', 'elphmod/md.py:Driver.find_Fermi_level'), ('d', 'coupling in band basis', 'elphmod/md.py:Driver.hessian')]),
P('C19', 'Paths, special points, zone outlines and meshes match the lattice',
  'For every Bravais lattice type, the labelled high-symmetry points are those of one irreducible wedge of the Brillouin zone spanned by the primitive vectors with the given lengths and angles. A path through any sequence of labelled or explicit points runs straight from point to point in equal steps, returns the distances travelled and the indices of the corners, honours the options for moving points off the zone center, and equals the path Quantum ESPRESSO derives from the accompanying input; the same holds for the standard path of the hexagonal lattice, which lies on the mesh if asked for. Outlines of two-dimensional zones, point-on-path tests, coordinate transformations, and printed meshes are exact. No parameter passed is modified, so that repeated calls agree.',
  ['inputs'], 'All lattice types, all forms of parameters, all sequences of labelled points up to length 3 (quick) or 4 (thorough) with all options, all small meshes.',
  'Tests draw one path for a few lattices and compare nothing with the Brillouin zone; errors concern single labels, options, or dimensions.',
  ['elphmod/bravais.py'],
  [('paths', 'elphmod/bravais.py:path/GMKG'), ('zone outline', 'elphmod/bravais.py:BZ'), ('point test', 'elphmod/bravais.py:point_on_path'), ('lattice vectors', 'elphmod/bravais.py:primitives'), ('printed meshes', 'elphmod/bravais.py:kpoints')]),
P('C20', 'Input files are read and written faithfully',
  'Whatever a Fortran namelist contains - strings with blanks, delimiters, comment characters or quotation marks, logicals, integers and reals in decimal or exponential form, arrays assigned as a whole, in parts, by element (with one or more subscripts), or with repeat counts - is read as the corresponding Python values, independent of case, separators, comments, and surrounding text. The input files written for the supported programs (pw.x, ph.x, q2r.x, matdyn.x, epw.x, Wannier90) are legal, list each parameter given (as Python or NumPy value) in the right namelist or block, and read back as the same data, leaving the latter unchanged. Cards and blocks are recognized in any order, with any brackets, delimiters, case, comments and blank lines; units and defaults are respected; VASP structures are scaled as prescribed.',
  ['inputs'], 'All pairs of values and styles in namelists, all sequences of array assignments up to length 3, all pairs of parameters of each file type, all orders of cards and blocks.',
  'Tests read no input files with unusual contents or styles, and write none.',
  ['elphmod/bravais.py', 'elphmod/misc.py'],
  [('namelists', 'elphmod/misc.py:read_namelists'), ('PWscf input', 'elphmod/bravais.py:read_pwi/write_pwi'), ('Wannier90 input', 'elphmod/bravais.py:read_win/write_win'), ('other input', 'elphmod/bravais.py:write_ph/write_q2r/write_matdyn/write_epw'), ('VASP structure', 'elphmod/bravais.py:readPOSCAR')]),
P('C21', 'Grid data keep their order and basic helpers obey their definitions',
  'Data on real-space grids of any shape read from cube and XCrySDen files have the index order, origin, spanning vectors, and atoms the formats prescribe, and read back unchanged when written; Wannier functions read with a tight-binding model, buffered or not, are those in the files, normalized if requested, on the matching grid. Progress bars never interleave and end with exactly their width, whatever the sequence in which they are created and updated. Expanded expressions list all combinations once, groups of points are the connected components of close points, integration weights are those of the trapezoidal rule, and indices and extrema are exact. Physical constants have their SI or measured values, and all conversion factors follow from them.',
  ['inputs', 'histories'], 'All grid shapes up to a bound, all operation sequences on two progress bars up to length 8, all balanced expressions up to length 8, all point sets up to five points, all constants.',
  'Tests expand a single expression; nothing reads or writes grids, and several progress bars are never active.',
  ['elphmod/misc.py', 'elphmod/el.py'],
  [('grid data', 'elphmod/misc.py:read_cube/read_xsf/write_xsf'), ('Wannier functions', 'elphmod/el.py:Model'), ('progress bars', 'elphmod/misc.py:StatusBar'), ('expressions', 'elphmod/misc.py:split'), ('groups', 'elphmod/misc.py:group'), ('extrema', 'elphmod/misc.py:minimum')],
  state=[('bar in progress', 'the only progress bar allowed to print', 'elphmod/misc.py:StatusBar.in_progress')]),
P('C22', 'Electronic-structure output is read and analyzed faithfully',
  'For every number of k points, bands, orbitals, and iterations, energies, Fermi levels, electron numbers, k points, weights, and energy contributions in output files of pw.x are those of the final iteration, relative to the Fermi level where documented, and band energies and entropy terms for all or selected bands follow from them. Projections, distances, and energies from projwfc.x, orbital names, and sums over selected orbitals (with omitted components, braces, and remaining weight) match the files; disentangled bands keep their character and are sorted by their own average energy. Eigenvalues, decay of Hamiltonians, charge densities, wave functions, and the Hartree energy agree with their definitions, and exactly the phonon files needed are collected for EPW. Electron-phonon couplings and phonon energies printed by EPW or stored in text files, and displacement patterns, are read for any selection of q and k points, bands, and modes, completed by symmetry if requested.',
  ['inputs'], 'All numbers of k points, bands, orbitals, and atoms up to bounds that cover each line-break position; all options; all short sequences of atoms and selections.',
  'Tests read one file of a few of these formats; branches depend on line breaks, number of atoms, missing parts, and options.',
  ['elphmod/el.py', 'elphmod/elel.py', 'elphmod/dispersion.py', 'elphmod/elph.py'],
  [('energies', 'elphmod/el.py:read_pwo/read_eps_nk_from_qe_pwo/eband/demet_from_qe_pwo'), ('projections', 'elphmod/el.py:read_atomic_projections/read_projwfc_out/proj_sum'), ('densities and wave functions', 'elphmod/el.py:read_pp_density/read_rhoG_density/read_wfc'), ('Hartree energy', 'elphmod/elel.py:hartree_energy'), ('files for EPW', 'elphmod/elph.py:ph2epw'), ('couplings', 'elphmod/elph.py:coupling/read_EPW_output/read_prtgkk/read_patterns')]),
P('C24', 'Predefined models equal their defining functions and are physical',
  'For each predefined model (chain, graphene, TaS2) and every combination of options, the Hamiltonian, dynamical matrix, electron-phonon coupling, and Coulomb interaction created equal the defining functions of the model at all q and k points, not only on the mesh used to create it, in the requested units; files written with a prefix hold the same models. They are Hermitian, periodic, time-reversal symmetric, dynamically stable, and have the point-group symmetry of the crystal; rigid displacements (and rotations in the case of graphene) neither cost energy nor couple to electrons. The couplings of graphene and TaS2 are the derivatives of their hopping with respect to atomic displacements.',
  ['inputs'],
  'All models, options, pairs of q and k points of a mesh incommensurate with those of the models, and operations of the point group.',
  'Tests compare one matrix element per model; a wrong sign, direction, or sublattice shows only at general points.',
  ['elphmod/models/chain.py', 'elphmod/models/graphene.py', 'elphmod/models/tas2.py'],
  [('models of single band on chain', 'elphmod/models/chain.py:create'), ('graphene', 'elphmod/models/graphene.py:hamiltonian/dynamical_matrix/coupling/coulomb_interaction/create'), ('transition-metal dichalcogenide', 'elphmod/models/tas2.py:hamiltonian/dynamical_matrix/coupling/create')]),
P('C25', 'Superconductivity parameters follow from their definitions',
  'The critical temperature obeys the McMillan and Allen-Dynes formulas with strong-coupling and shape corrections for every coupling strength, phonon energy, Coulomb pseudopotential, and second moment; it is finite, scales with the phonon energy, never decreases with increasing coupling (as long as shape corrections do not reduce it), and vanishes when the repulsion prevails. The coupling strength, logarithmic average, and second moment computed from data for irreducible q points equal explicit sums over the whole Brillouin zone, with broadened delta functions of any kind or the tetrahedron method, for any number of bands and modes; phonons below the threshold do not contribute, and no argument is modified.',
  ['inputs'],
  'All combinations of parameters on a grid; all mesh sizes, numbers of bands and modes, methods, smearing functions, and sets of soft modes up to bounds.',
  'No test covers this module; errors in weights of irreducible points, band order, or soft modes need several bands and larger meshes to show.',
  ['elphmod/eliashberg.py', 'elphmod/diagrams.py', 'elphmod/dos.py', 'elphmod/bravais.py'],
  [('critical temperature', 'elphmod/eliashberg.py:Tc'), ('Fermi-surface averages', 'elphmod/eliashberg.py:McMillan'), ('double delta', 'elphmod/diagrams.py:double_fermi_surface_average, elphmod/dos.py:double_delta')]),
P('C23', 'Images and fat bands show the data they are made of',
  'For every mesh size, angle, orientation, range, resolution, and type of data, each pixel of a plot in reciprocal space shows the data linearly interpolated on the lattice at the coordinates of this pixel; maps of the Brillouin zone and of Brillouin zones within it contain exactly these zones, in the right wedge or around the right point, and everything else has the requested value. Color bars, tiled images, rectified selections, resampled columns, and colorized images agree with their description pixel by pixel, and neither data nor color maps are changed (apart from the image a color bar is added to). Outlines of fat bands enclose areas given by the weights.',
  ['inputs'],
  'All mesh sizes, angles, orientations, windows, resolutions, data types, and sets of q points up to bounds, every pixel.',
  'No test covers this module; errors depend on angle, orientation, image size, or reuse of arguments.',
  ['elphmod/plot.py', 'elphmod/bravais.py'],
  [('reciprocal-space plots', 'elphmod/plot.py:plot/double_plot/toBZ'), ('image processing', 'elphmod/plot.py:colorbar/arrange/rectify/color/adjust_pixels'), ('fat bands', 'elphmod/plot.py:compline')]),
P('C26', 'Calls neither change their arguments nor leave traces',
  'No function or method changes arrays, lists, dictionaries, or models passed to it, neither immediately nor in a later call to an object that has kept them, except where this is its purpose (setting up a model from sampled data, acoustic sum rules, completing data or adding a color bar in place). Module variables, settings of NumPy, and the results of any other calculation in the same process do not depend on which calculations have been done before.',
  ['histories', 'inputs'],
  'All calls made in all cases of most other checks; all ordered pairs of calculations of all parallel routines in one process.',
  'Tests look at return values of single calls with fresh arguments, so a changed argument or a state left behind cannot be noticed.',
  ['elphmod/*.py', 'elphmod/models/*.py'],
  [('energies for displacements of caller', 'elphmod/md.py:Driver.free_energy'), ('colormap', 'elphmod/plot.py:color'), ('sampling and transformation', 'elphmod/elph.py:sample/transform'), ('lattice constants', 'elphmod/bravais.py:primitives')]),
P('C27', 'Mode characters, spectral functions, and band projections are exact',
  'For every wave vector, lattice angle, and set of phonon eigenvectors, the longitudinal, transverse, and out-of-plane characters are the squared norms of the respective components, add up to one, depend only on the direction of the wave vector, and are shared evenly at the zone center. The phonon spectral function equals the trace of the imaginary part of the phonon propagator for any frequency-dependent (also non-Hermitian) dynamical matrix, and is non-negative and normalized to the number of modes in the static Hermitian case. The Coulomb interaction projected onto a single band equals the explicit sum over orbitals with the Bloch states of that band at all irreducible transferred momenta and pairs of momenta, up to the phases of these states, with all or only density-density terms.',
  ['inputs'],
  'All lattice angles, wave vectors inside and outside of the first Brillouin zone, numbers of atoms, broadenings, frequency meshes, shapes, mesh sizes, orbitals and bands up to bounds.',
  'No test covers these functions; errors in directions, momenta, or phases need oblique wave vectors, several atoms, or incommensurate meshes.',
  ['elphmod/ph.py', 'elphmod/elel.py'],
  [('mode characters', 'elphmod/ph.py:polarization'), ('phonon spectral function', 'elphmod/ph.py:spectral_function'), ('single-band interaction', 'elphmod/elel.py:orbital2band')]),
P('C28', 'Impossible requests are refused by all processes alike',
  'Whenever the requirements of a request are not met - unknown lattice index, free lattice without vectors or units, optical conductivity for frequencies that are not equidistant or lack zero (up to the tolerance), memory limit exceeded, short-range part updated without original data, irreducible q points that do not cover the mesh, missing number of k points, degeneracies of a standardized coupling, molecular dynamics in wrong units, with mass-weighted data, or on several points with sparse matrices, two Fermi levels and an odd or fractional number of electrons, charges of atoms without known orbitals, entropy of other than first order, phonon data for EPW not found - every process taking part exits or raises an error, one message is printed, and nothing passed has been changed nor any file written. Whenever they are met, the request is carried out.',
  ['inputs', 'schedules'],
  'All combinations of met and unmet requirements, one to three processes (subsets of processes where supported) in both orders.',
  'Tests never make a request that must be refused; a wrong condition turns into wrong numbers, unjustified refusal, or processes that wait for each other.',
  ['elphmod/MPI.py', 'elphmod/bravais.py', 'elphmod/diagrams.py', 'elphmod/elph.py', 'elphmod/md.py', 'elphmod/occupations.py', 'elphmod/ph.py'],
  [('error messages', 'elphmod/MPI.py:info'), ('lattice', 'elphmod/bravais.py:primitives'), ('conductivity', 'elphmod/diagrams.py:green_kubo_conductivity'), ('memory', 'elphmod/diagrams.py:phonon_self_energy2'), ('original data', 'elphmod/ph.py:Model.update_short_range; elphmod/elph.py:Model.update_short_range'), ('molecular dynamics', 'elphmod/md.py:Driver')]),
P('C29', 'Memory layout of arguments does not matter',
  'Every function and method gives the same results for arrays in row-major or column-major order, for views with gaps and negative strides, and for write-protected arrays, except where modifying an argument is its purpose (acoustic sum rules, completing data, adding a color bar). This includes data kept by models and used or rearranged later, and data sent to other processes.',
  ['inputs'],
  'All cases of 20 other checks with all arrays passed from outside the package in one of three other memory layouts (thorough: each of them).',
  'Tests pass contiguous, writable arrays. Transposed or sliced arrays, as users get them from other tools, expose assumptions about memory order and writing to arrays of the caller.',
  ['elphmod'],
  [('buffers sent between processes', 'elphmod/MPI.py; elphmod/dispersion.py:dispersion'), ('lattice vectors kept by models', 'elphmod/elph.py:Model.standardize; elphmod/el.py:Model; elphmod/ph.py:Model'), ('symmetrization and interpolation of meshes', 'elphmod/bravais.py:linear_interpolation; elphmod/bravais.py:resize; elphmod/bravais.py:symmetries')]),
# NEXT
]

# property -> technique, level, note
CHECKS = {
'C01': ('exhaustive enumeration of process counts and node layouts on the real code under simulated MPI, conformance with real MPI', 'model_checking', 'All scenarios times all node layouts up to 4 processes (selected ones beyond), fresh memory poisoned; simulated MPI validated against mpirun on the same scenarios. Trusts the serial results (checked by the other properties).'),
'C02': ('stateless model checking: exhaustive schedules of simulated MPI ranks up to a deviation bound', 'model_checking', 'All rank orders, greedy and round-robin, with at most one deviation at any MPI call (two processes; none for three), early and late collectives. Interleavings between MPI calls are those at call boundaries.'),
'C03': ('exhaustive enumeration of lattices, supercells and meshes within bounds against exact integer algebra', 'exploration', 'All inputs within the stated bounds; metric relations checked numerically.'),
'C05': ('explicit-state exploration of operation histories on the real models with an independent reference state', 'model_checking', 'All operation sequences up to the bounded depth from several generic models; reference transforms follow the documented meaning of each operation.'),
'C06': ('explicit-state exploration of operation histories on the real models with an independent reference state', 'model_checking', 'As C05 for couplings and interactions.'),
'C07': ('exhaustive exploration of evaluation and modification histories, direct Fourier sums as oracle', 'model_checking', 'All histories up to depth 3 (4 in the thorough tier), all sampling options on small meshes.'),
'C15': ('exhaustive enumeration of arguments, level schemes, fillings and temperatures against closed forms', 'exploration', 'All combinations within the stated grids; continuity between grid points is only checked via derivatives on a fine grid.'),
'C17': ('exhaustive enumeration of small meshes with few energies against exact rational geometry', 'exploration', 'All meshes up to 3 x 3 with two or three different energies, generic ones beyond.'),
'C16': ('exhaustive enumeration of options, meshes, degeneracy patterns and momentum transfers against literal sums and finite differences', 'exploration', 'All combinations within the stated bounds; couplings and energies are fixed generic numbers.'),
'C10': ('exhaustive enumeration of mesh points, meshes, shifts and lattices against a brute-force search of nearest images', 'exploration', 'All inputs within the stated grids; the reference searches a larger set of translates.'),
'C11': ('exhaustive enumeration of meshes, data and known points against explicit Cartesian symmetry operations', 'exploration', 'All mesh sizes, points and symmetry subgroups within the stated bounds.'),
'C04': ('exhaustive enumeration of lattices, meshes, sizes and options on the real code, compared with defining Fourier sums and brute-force nearest images', 'exploration', 'All cases within the bounds on mesh size, atoms and orbitals; elongated meshes of skewed cells excluded.'),
'C08': ('exhaustive enumeration of sizes, format variants and options; files written by the code or by independent writers are read back by the real code', 'exploration', 'All cases within the stated bounds; comparison within the precision of each format.'),
'C12': ('exhaustive enumeration of meshes, angles, data types, axes and grid points on the real code, compared with independent barycentric interpolation', 'exploration', 'All mesh shapes up to 4 x 4 (thorough: 5 x 5) and points on grids of quarter or fifth indices over more than one period.'),
'C13': ('exhaustive enumeration of level-order sequences, meshes, supercells and options on the real code; characters known by construction and projections as oracle', 'exploration', 'All crossing and degeneracy patterns for up to four bands and five points; all meshes and supercells within the stated bounds.'),
'C14': ('exhaustive exploration of all sequences of changes of long-range parameters on the real model objects, checking in every reached state that the original data are reproduced; enumeration of lattices and conventions against explicit lattice sums and least-squares projections', 'model_checking', 'States are settings of eight long-range parameters reached by sequences up to length 2 (quick) or 3 (thorough); the real code is executed in each of them.'),
'C18': ('explicit-state exploration of all sequences of driver operations on the real object, comparing every observable with a fresh driver set to the same parameters; enumeration of models and supercells against an independent free energy and its numerical derivatives', 'model_checking', 'States are combinations of displacement, temperature, and number of electrons reached by operation sequences up to length 3 (quick) or 4 (thorough) on dense, sparse, and supercell drivers.'),
'C19': ('exhaustive enumeration of lattice types, parameter forms, words of path labels, options and meshes, compared with explicit geometry of conventional cells and Brillouin zones', 'exploration', 'All words of up to 3 (thorough: 4) labels out of 5 per lattice; three sets of lattice constants.'),
'C20': ('exhaustive enumeration of namelist contents and styles, array assignments, parameter sets, and orders of cards and blocks; compared with known content and an independent character-level namelist parser; write-read-write cycles', 'exploration', 'All words of up to 3 (thorough: 4) assignments; all pairs of 44 literals in a subset of (thorough: a third of) 4000 styles.'),
'C21': ('explicit-state exploration of all operation sequences on two real progress bars against a reference automaton; exhaustive enumeration of grid shapes, expressions and point sets against independent files, recursive expansion and connected components', 'model_checking', 'Sequences up to length 8 (thorough: 10); grids up to 3 (4) points per direction; expressions up to length 8 (10); up to 5 (6) points.'),
'C22': ('exhaustive enumeration of file dimensions, options, sequences of atoms, and orbital selections; files written independently and results compared with their content and explicit sums', 'exploration', 'Up to 3 (thorough: 5) k points, 17 (25) bands, 3 (4) atoms, all subsets of options.'),
'C24': ('exhaustive enumeration of models, options, pairs of q and k points, and symmetry operations; compared with defining functions, own derivatives of bond-dependent hopping, symmetry, and sum rules', 'exploration', 'Meshes of up to 35 x 35 points for single quantities and 7 x 7 q and k points for couplings (thorough: 67 and 12).'),
'C25': ('exhaustive enumeration of parameter grids, mesh sizes, numbers of bands and modes, methods, and soft modes; compared with published formulas and explicit sums over the Brillouin zone', 'exploration', 'q meshes up to 5 x 5 (thorough: 7 x 7), k meshes up to 10 x 10 (21 x 21), three bands.'),
'C23': ('exhaustive enumeration of meshes, angles, orientations, windows, resolutions, options, and all pixels; compared with own coordinates, distances to lattice points, and interpolation', 'exploration', 'Meshes of up to 4 x 4 points (thorough: 7 x 7), up to 15 (40) pixels per unit, up to 6 sectors, 25 zones, 13 (29) tiles.'),
'C26': ('exhaustive enumeration of all calls in all cases of other checks under a monitor comparing arguments and module state before and after, and of all ordered pairs of calculations in one process', 'model_checking', 'All quick cases of 19 other checks and pairs of 76 calculations (thorough: all of 22 checks, 152 calculations).'),
'C27': ('exhaustive enumeration of wave vectors, meshes, and options against independent oracles', 'exploration', 'All combinations of three lattice angles, eleven wave vectors, 1-3 atoms; four shapes, up to six modes, two broadenings; meshes up to 6 x 6, up to three orbitals (thorough: 8 x 8).'),
'C28': ('exhaustive enumeration of combinations of requirements on simulated processes, with detection of deadlocks and of changed data', 'exploration', 'About 3000 combinations of eleven kinds of requests with 1-3 processes (thorough: 5).'),
'C29': ('exhaustive enumeration of calls by other checks with arguments in other memory layouts', 'exploration', 'All cases (about 50000) of 20 checks, each with arrays in column-major order, with negative strides, or write-protected (thorough: all three).'),
# NEXTCHECK
}

NOT_CLAIMED = {}

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in props:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in props]
    assert len(set(ids)) == len(ids)
    assert set(ids) == set(CHECKS) | set(NOT_CLAIMED)
    checks = []
    for id in sorted(CHECKS):
        technique, level, note = CHECKS[id]
        cmd = '/opt/venv/bin/python -W ignore checks/%s.py' % id.lower()
        checks.append(dict(property=id, quick_cmd=cmd,
            thorough_cmd='env VERIF_TIER=thorough ' + cmd,
            evidence_file='evidence/%s.json' % id, technique=technique,
            level=level, level_note=note))
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -W ignore setup.py',
            checks=checks, not_applicable=[dict(property=p, reason=r)
                for p, r in NOT_CLAIMED.items()],
            notes='Quick and thorough commands differ by VERIF_TIER. No hooks in /repo are needed.'), f, indent=1)
        f.write('\n')
