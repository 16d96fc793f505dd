prop('P01', 'Unit conversions are exact, composable and reject unknown scales',
     'Converting a value between any two documented scales of energy, '
     'pressure, frequency, length, volume or temperature multiplies it by '
     'the ratio of their SI definitions (temperatures: the affine map), in '
     'every documented spelling, for scalars and arrays alike, so conversions '
     'invert and compose. Converting energy per volume to pressure and back '
     'uses the same definitions. A scale that is not documented is refused '
     'with an error instead of returning a number.',
     ['inputs'], 'all values, all ordered pairs of documented scales and '
     'spellings, scalars and arrays',
     'No test calls the converters directly; the run tests touch four '
     'scale pairs on two sample files.',
     ['quantas/utils/physics/units.py'],
     [('conversion functions and scale tables',
       'quantas/utils/physics/units.py')],
     ['return value of each conversion function'])

prop('P04', 'Harmonic thermodynamic functions are the mode sums',
     'At every temperature and volume the zero-point energy, thermal energy, '
     'entropy, vibrational free energy and isochoric heat capacity equal the '
     'weighted sum over all q-points and modes of the closed-form '
     'harmonic-oscillator expression. Modes with zero or negative (imaginary) '
     'frequency contribute nothing, and T = 0 gives the analytic limit. Hence '
     'zero-point plus thermal energy minus T times entropy is the vibrational '
     'free energy, and parallel evaluation cannot change any result.',
     ['inputs', 'schedules'], 'all temperature grids, band structures, '
     'q-weights and numbers of volumes, and all schedules of the parallel '
     'loops',
     'The tests run two sample systems and only check that the calculator '
     'reports completion.',
     ['quantas/utils/physics/statistical_mechanics.pyx'],
     [('per-mode kernels and their double sums',
       'quantas/utils/physics/statistical_mechanics.pyx')],
     ['return arrays of the harmonic functions'])

prop('P05', 'Derived thermodynamic quantities combine as defined',
     'Total internal and free energies, enthalpy, Gibbs energy, adiabatic '
     'bulk modulus and Grueneisen parameter are, in every temperature/'
     'pressure (or volume) cell, the textbook combination of that cell\'s '
     'inputs; temperature and pressure index the right axis. The T = 0 and '
     'zero heat-capacity cells take the stated limits instead of dividing by '
     'zero.', ['inputs'], 'all grids of temperature, pressure and volume',
     'No test looks at these numbers.',
     ['quantas/utils/physics/thermodynamics.pyx',
      'quantas/utils/physics/statistical_mechanics.pyx',
      'quantas/qha/qha.py'],
     [('derived properties of a run', 'quantas/qha/qha.py'),
      ('cell-wise combination kernels',
       'quantas/utils/physics/thermodynamics.pyx')])

prop('P07', 'E(V) equations of state: fit, pressure and bulk modulus agree',
     'For each supported energy-volume equation of state the function fitted '
     'to the data is the closed-form E(V) in the parameters (minimum energy, '
     'bulk modulus, its derivative, volume), and the pressure derived from a '
     'fit is minus its volume derivative for every volume. The fit reports '
     'the parameters the least-squares routine found, in the documented '
     'order, from the caller\'s data.',
     ['inputs'], 'all parameter values and volumes of the four supported '
     'equations of state',
     'Only completion of one QHA-like run is tested; no equation of state is '
     'compared with its definition.',
     ['quantas/qha/utils/ev_eos.py'],
     [('energy functions, fit and pressure functions',
       'quantas/qha/utils/ev_eos.py')])

prop('P08', 'P(V) equations of state match their closed forms at every order',
     'For every formulation and order offered, the pressure returned at a '
     'volume is the published closed form; at the reference volume the '
     'pressure is zero, the bulk modulus is the parameter K0, and the '
     'pressure derivative of the bulk modulus is the parameter K\'. '
     'Parameters an order does not free take the implied values of that '
     'formulation (K\' and K\'\'), so a lower order is a special case of the '
     'next one.',
     ['inputs'], 'all parameters and volumes, all formulations and orders',
     'The tests only read an input file for the EoS tool; no equation of '
     'state is evaluated.',
     ['quantas/eosfit/utils/pv_eos.py'],
     [('formulations and implied parameters',
       'quantas/eosfit/utils/pv_eos.py')])

prop('P10', 'Elastic tensor, averages and directional properties are exact',
     'The rank-4 stiffness and compliance derived from a 6x6 Voigt matrix '
     'carry the right components and factors; Voigt, Reuss and Hill averages, '
     'Poisson and Young moduli and average wave speeds follow their '
     'definitions. For every direction Young\'s modulus, linear '
     'compressibility, shear modulus, Poisson ratio and the three phase '
     'velocities equal their tensor formulas, and the transverse extrema '
     'range over every transverse angle.',
     ['inputs'], 'all symmetric 6x6 stiffness matrices, densities and '
     'directions', 'The single run test asserts completion on one mineral.',
     ['quantas/soec/utils/soec_obj.py'],
     [('elastic tensor classes', 'quantas/soec/utils/soec_obj.py')])

prop('P11', 'Orthorhombic shortcut agrees with the general tensor',
     'The specialised code used for crystals of orthorhombic or higher '
     'symmetry returns, for every direction, the same values as the general '
     'one on the same matrix. It is used only when every entry it ignores is '
     'zero.', ['inputs'], 'all orthorhombic-form matrices and directions',
     'Tests never compare the two implementations.',
     ['quantas/soec/utils/soec_obj.py', 'quantas/soec/soec.py'],
     [('specialised tensor class', 'quantas/soec/utils/soec_obj.py'),
      ('selection of the tensor class', 'quantas/soec/soec.py')])

prop('P12', 'Unstable crystals are reported and stop the elastic analysis',
     'An elastic analysis proceeds to directional variation, polar data and '
     'figures exactly when every eigenvalue of the stiffness matrix is '
     'positive. Otherwise, after the averages and eigenvalues, it reports the '
     'instability, computes none of them and is not marked as completed.',
     ['inputs'], 'all stiffness matrices, in particular those with one zero '
     'or negative eigenvalue', 'Only a stable crystal is tested.',
     ['quantas/soec/soec.py'], [('stability gate', 'quantas/soec/soec.py')])

prop('P13', 'Elastic report prints the extremum, its direction and anisotropy',
     'For each elastic or acoustic quantity the report lists the minimum, '
     'maximum, their ratio and the direction vectors at which they occur, '
     'each in its own place; ranges searched cover every distinct direction. '
     'Velocities are reported only if a density is known.',
     ['inputs', 'configurations'], 'all matrices, with and without density',
     'Tests do not read the report.',
     ['quantas/soec/soec.py'],
     [('variation search and report', 'quantas/soec/soec.py')])

prop('P14', 'The crystal system is identified from the stiffness matrix',
     'The reported crystal system is the most symmetric one whose relations '
     'between stiffness entries the matrix satisfies within the tolerance: '
     'equal entries, opposite entries, zero entries and '
     'C66 = (C11 - C12)/2 for hexagonal and trigonal crystals. Breaking any '
     'single relation moves the matrix to a lower system.',
     ['inputs'], 'all matrices of the nine Laue forms in general position, '
     'and those with one relation broken',
     'One cubic or hexagonal sample is run and the label is not asserted.',
     ['quantas/soec/utils/symmetry.py'],
     [('form tables and matching', 'quantas/soec/utils/symmetry.py')],
     technique='abstract interpretation with symbolic matrix entries in '
     'general position')

prop('P15', 'Polar data and figures show the right quantity in each plane',
     'Polar data of each quantity in the xy, xz and yz planes are its values '
     'along the unit circle of that plane, angle by angle. Figures draw each '
     'stored curve in the panel and with the quantity label it belongs to.',
     ['inputs', 'configurations'], 'all matrices, densities, and numbers of '
     'angles', 'No test inspects polar data or figures.',
     ['quantas/soec/soec.py', 'quantas/soec/utils/plotting.py'],
     [('polar sampling', 'quantas/soec/soec.py'),
      ('figures', 'quantas/soec/utils/plotting.py')])

prop('P06', 'A harmonic run turns its input file into the stated properties',
     'After a harmonic (HA) calculation the zero-point, thermal and total '
     'internal energy, entropy, heat capacity, vibrational and total free '
     'energy stored by the calculator, for every temperature of the requested '
     'grid (both ends included) and every volume, are the harmonic mode sums '
     'of the frequencies, normalised q-weights and static energies of the '
     'input, converted from the input units to the requested output units. '
     'Each dataset of the HDF5 export holds the quantity, description and '
     'unit that its name says.',
     ['inputs', 'configurations'], 'all temperature grids, numbers of '
     'q-points, modes and volumes, frequencies, weights and unit settings',
     'The single HA run test asserts that the calculator completes.',
     ['quantas/harmonic/harmonic.py', 'quantas/harmonic/utils/export.py'],
     [('calculator', 'quantas/harmonic/harmonic.py'),
      ('HDF5 export', 'quantas/harmonic/utils/export.py')],
     ['calculator attributes after run()', 'HDF5 datasets'])

prop('P26', 'A quasi-harmonic run stores the consistent (T, P) properties',
     'After a quasi-harmonic calculation, whatever the minimisation (EoS fit '
     'or polynomial) and scheme (thermodynamic-function or frequency '
     'interpolation), the volume at each (T, P) is the minimum of F(V,T)+PV, '
     'the bulk modulus belongs to the same fit, and every thermodynamic '
     'property at (T, P) is that of the same temperature row at that volume, '
     'in the requested units. Thermal expansion, Cp, adiabatic bulk modulus, '
     'Grueneisen parameter, enthalpy and Gibbs energy are the stated '
     'combinations of the stored values. Inputs with fewer than four volumes '
     'or that could not be read are refused. Report tables print the values '
     'of their own row and column.',
     ['inputs', 'configurations'], 'all temperature and pressure grids, '
     'inputs of four or more volumes, minimisation and scheme choices and '
     'unit settings',
     'No test runs the quasi-harmonic calculator at all.',
     ['quantas/qha/qha.py'],
     [('calculator', 'quantas/qha/qha.py'),
      ('kernels it calls', 'quantas/utils/physics/thermodynamics.pyx')],
     ['calculator attributes after run()', 'printed report'])

prop('P16', 'Elastic input files are read as written or refused',
     'A file with the 6x6 stiffness matrix given in full, as upper or as '
     'lower triangle, with or without job line and density, yields that '
     'symmetric matrix, that density (0 if absent) and that job name. A '
     'matrix of another shape, that is not symmetric, or with values that '
     'are not numbers is refused with an error text and the reader is not '
     'marked completed. A file generated from an ab initio output reads back '
     'as the matrix, density and job name it was made from; an output its '
     'reader cannot use is turned down with the reason.',
     ['inputs'], 'all matrix values, layouts, job names and densities',
     'Two sample files, one good and one bad, are read by the tests.',
     ['quantas/IO/soec_reader.py', 'quantas/IO/soec_writer.py'],
     [('reader', 'quantas/IO/soec_reader.py'),
      ('writer', 'quantas/IO/soec_writer.py')],
     ['reader attributes and error'])

prop('P18', 'EoS input columns become the quantities they are named for',
     'In an equation-of-state input each column named on the FORMAT line, in '
     'any order, spelling (sigma/sig, upper or lower case) and subset, '
     'becomes the quantity of that name with one value per data row; other '
     'quantities are absent. Comments and blank lines do not matter; the job '
     'name is the line that follows JOB. Input without pressure, FORMAT or '
     'data, or with missing or non-numeric values, is refused with an error '
     'text.',
     ['inputs'], 'all column subsets, orders and spellings, numbers of rows, '
     'positions of comments',
     'One file with the columns in a single order is read by the tests.',
     ['quantas/IO/eos_reader.py'], [('reader', 'quantas/IO/eos_reader.py')],
     ['reader attributes and error'])

prop('P19', 'Phonon input files are read and generated without mixing values',
     'The volumes, energies, q-point weights, supercell multiplicity and the '
     'frequency of each (q-point, mode, volume) of a HA/QHA YAML input are '
     'those of the file, given as a list, string of numbers or, for one '
     'volume, a number. Empty input, text that is not YAML and input without '
     'one of the required keywords are refused with an error text, and so '
     'is input whose amounts of energies, q-points, bands (three per atom) or '
     'frequencies do not agree with its volumes, qpoints and natom, or that '
     'lacks a weight or band or has text instead of a number. A '
     'generated input reads back as the volumes, energies, weights, '
     'frequencies and description it was generated from, whatever text the '
     'description contains; a list with a missing or unusable output, '
     'wherever it stands, is turned down with the reason. The number of '
     'cells of a supercell is the rounded size of its determinant.',
     ['inputs'], 'all numbers of q-points, atoms, volumes; all values and '
     'descriptions',
     'The tests read two sample files and do not compare the values.',
     ['quantas/IO/qha_reader.py', 'quantas/IO/qha_writer.py'],
     [('reader', 'quantas/IO/qha_reader.py'),
      ('writer', 'quantas/IO/qha_writer.py')],
     ['reader attributes and error', 'generated file'])

prop('P17', 'Files and calculations in one process do not influence each other',
     'What a reader, generator, calculator or exporter yields for its input '
     'is the same whether it is the first of its kind in the process or ran '
     'after others on other inputs, and an object keeps reporting its own '
     'results after others were read or computed. No data is shared between '
     'objects through class attributes, default arguments or module state.',
     ['histories', 'inputs'], 'every pair of input files and calculations, '
     'in either order',
     'Each test uses one object once; a shared container shows only with a '
     'second object in the same process.',
     ['quantas/IO/qha_reader.py', 'quantas/IO/qha_writer.py',
      'quantas/IO/soec_reader.py', 'quantas/IO/eos_reader.py',
      'quantas/interfaces/crystal.py', 'quantas/interfaces/vasp.py',
      'quantas/interfaces/phonopy.py', 'quantas/harmonic/harmonic.py',
      'quantas/qha/qha.py', 'quantas/soec/soec.py'],
     [('readers', 'quantas/IO and quantas/interfaces'),
      ('calculators', 'quantas/harmonic, quantas/qha, quantas/soec'),
      ('exporters', 'export.py of each of these')],
     ['attributes of readers and calculators', 'generated and exported files'])

prop('P20', 'Results of ab initio codes are collected as printed',
     'From CRYSTAL, VASP and phonopy outputs the energies, volumes, '
     'frequencies, q-points and their weights, cells (lattice vectors, '
     'species and positions of the atoms), expansion and elastic moduli are those '
     'printed for the final state of the calculation, in the units Quantas '
     'documents (cm^-1, GPa in Voigt order, kg/m^3), per primitive cell for '
     'phonon dispersion calculations, each volume and q-point with its own '
     'data; volumes and numbers of cells are positive for left-handed '
     'lattices and expansions too. Files of another kind and outputs that lack a needed part are '
     'refused with an error text, never read as complete.',
     ['inputs'], 'all printed values, numbers of atoms, q-points and volumes, '
     'expansions, kinds of calculation, and truncation points',
     'One CRYSTAL sample is read by the tests; the values are not compared.',
     ['quantas/interfaces/crystal.py', 'quantas/interfaces/vasp.py',
      'quantas/interfaces/phonopy.py'],
     [('CRYSTAL', 'quantas/interfaces/crystal.py'),
      ('VASP', 'quantas/interfaces/vasp.py'),
      ('phonopy', 'quantas/interfaces/phonopy.py')],
     ['reader attributes and error'])

prop('P23', 'Results files and exported tables hold the computed values',
     'Each dataset of an HDF5 results file of a HA, QHA or elastic run holds '
     'the computed quantity its name says, with that quantity\'s unit and '
     'description. The text table exported for a dataset lists for every '
     'value of its first variable that value and the datum of every value '
     'of the second one, in their order, under the quantity\'s name, the symbols of the variables, the dataset\'s unit and the '
     'job name; every dataset of a file can be exported. Files of another '
     'kind are refused with an error text; an existing file is replaced only '
     'after confirmation.',
     ['inputs', 'configurations'], 'all results, grid sizes, quantities, unit '
     'settings and answers to prompts',
     'No test writes or exports a results file.',
     ['quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py',
      'quantas/soec/utils/export.py', 'quantas/soec/soec.py'],
     [('HA', 'quantas/harmonic/utils/export.py'), ('QHA', 'quantas/qha/utils/export.py'),
      ('SOEC', 'quantas/soec/utils/export.py')],
     ['HDF5 datasets and attributes', 'exported text files'])

prop('P09', 'The P-V fit is made of what the user supplied and chose',
     'Each regression of the equation-of-state fitting takes the chosen '
     'quantity (volume or cell axis) as abscissa, the pressures as ordinate, '
     'the uncertainties of each that were given and accepted, the pressure '
     'function of the chosen formulation, order and kind, the starting '
     'values (estimated from the data, entered, or those of the last fit if '
     'so answered) and the parameters asked to be fixed; it accounts for '
     'errors of the abscissa exactly when these are used. The report prints '
     'each parameter with its error under its own label and marks, the '
     'covariance matrix, and for each point the datum, the observed and '
     'fitted pressure and the residuals.',
     ['inputs', 'histories'], 'all data, formulations, orders, answers and '
     'rounds of an interactive session',
     'The fit is interactive: no test runs it at all.',
     ['quantas/eosfit/eosfit.py', 'quantas/eosfit/utils/interactive.py',
      'quantas/eosfit/utils/pv_eos.py'],
     [('regression', 'EOS.fit in quantas/eosfit/utils/pv_eos.py'),
      ('session and report', 'EoSFitCalculator in quantas/eosfit/eosfit.py'),
      ('questions', 'quantas/eosfit/utils/interactive.py')],
     ['arguments of scipy.odr', 'printed report'])

prop('P27', "Acoustic contributions follow Kieffer's dispersion model",
     'The acoustic Helmholtz energy, entropy and isochoric heat capacity are '
     'the sum over the three acoustic branches of the harmonic oscillator '
     'function averaged over the sine-dispersion density of states '
     '3 (2/pi)^3 asin^2(x/x_i) / sqrt(x_i^2 - x^2) up to the branch\'s '
     'cut-off frequency, per cell, in the units of the optic ones, for each '
     'temperature; they vanish at 0 K.',
     ['inputs'], 'all cut-off frequencies and temperatures',
     'No test calls the model; samples cannot separate a wrong factor from '
     'integration error.',
     ['quantas/qha/utils/kieffer.py'],
     [('model', 'class Kieffer in quantas/qha/utils/kieffer.py')],
     ['values of Kieffer.helmholtz, entropy, heat_capacity'])

prop('P28', 'Polynomial interpolation gives the fitted values and minima',
     'Polynomials fitted to quantities over volume are fitted to each '
     'quantity\'s own values with the degree asked for; evaluating them '
     'gives sum c_k x^k for every row and abscissa in order; the coefficient '
     'of determination of each row is about that row\'s mean; and the minima '
     'returned are exactly the real stationary points of positive curvature '
     'of the polynomial with the pressure term included.',
     ['inputs'], 'all coefficients, degrees, numbers of rows and abscissas',
     'Holds for every number of rows and coefficients; the tests use one '
     'QHA run at most.',
     ['quantas/utils/math/polynomials.py', 'quantas/utils/math/fast_math.pyx'],
     [('polynomials', 'quantas/utils/math/polynomials.py'),
      ('array routines', 'quantas/utils/math/fast_math.pyx')],
     ['return values'])

prop('P02', 'Functions leave their arguments as they were',
     'A function or method of the numerical interface (unit conversions, '
     'oscillator functions, thermodynamic combinations, polynomials, '
     'energy-volume and pressure-volume equations of state, acoustic model, '
     'elastic and wave-velocity objects, crystal-system check) never changes '
     'an array, list or matrix it was handed, and called again with the same '
     'arguments gives the same value. The only exceptions are by design: the '
     'form of a pressure-volume equation used inside the regression writes '
     'the derivatives implied by its order into the regression\'s own '
     'parameter vector, and Murnaghan and Vinet always rewrite the implied '
     'second derivative.',
     ['inputs', 'histories'], 'every argument array, of any shape, in any '
     'order of its elements',
     'Tests compare returned values and build their arguments anew; a '
     'function that sorts, scales or symmetrises in place returns the right '
     'value and spoils the data of the next call.',
     ['quantas/utils/physics/units.py',
      'quantas/utils/physics/statistical_mechanics.pyx',
      'quantas/utils/physics/thermodynamics.pyx',
      'quantas/utils/math/polynomials.py', 'quantas/utils/math/fast_math.pyx',
      'quantas/qha/utils/ev_eos.py', 'quantas/eosfit/utils/pv_eos.py',
      'quantas/qha/utils/kieffer.py', 'quantas/soec/utils/soec_obj.py',
      'quantas/soec/utils/symmetry.py',
      'quantas/seismic/utils/seismic_obj.py'],
     [('conversion', 'quantas/utils/physics/units.py'),
      ('fit', 'quantas/qha/utils/ev_eos.py'),
      ('fit', 'quantas/eosfit/utils/pv_eos.py')],
     ['contents of the arguments after the call', 'value of a second call'],
     technique='effect analysis by abstract interpretation: heap contents of '
     'the argument objects before and after, compared as symbolic terms')

prop('P03', 'Command-line options mean what the documentation says',
     'Every option of ha, qha, soec and eosfit, in each of its spellings and '
     'for each admissible value and any numbers, gives the calculation the '
     'value chosen (the unit converters then take the unit chosen, the '
     'energy fit the equation of state chosen), leaves every other setting '
     'at its documented default, and is printed at the start of the run as '
     'the value used; values outside the documented choices and missing '
     'files are refused before anything is calculated.',
     ['inputs', 'configurations'], 'all options, admissible values and '
     'numbers',
     'The test suite never runs the command line; the number of option '
     'values and combinations is unbounded.',
     ['quantas/harmonic/commands/cmd_ha.py', 'quantas/qha/commands/cmd_qha.py',
      'quantas/soec/commands/cmd_soec.py',
      'quantas/eosfit/commands/cmd_eosfit.py'],
     [('HA', 'ha_calculation in quantas/harmonic/commands/cmd_ha.py'),
      ('QHA', 'qha_calculation in quantas/qha/commands/cmd_qha.py'),
      ('SOEC', 'soec_calculation in quantas/soec/commands/cmd_soec.py'),
      ('EoS', 'eos_calculation in quantas/eosfit/commands/cmd_eosfit.py')],
     ['settings handed to the calculator classes', 'printed settings'],
     technique='static dataflow: abstract interpretation of the declared '
     'commands (a model of Click) with symbolic numbers; settings and '
     'printed lines compared with a reference table, units through the '
     'converters\' terms')

prop('P21', 'Commands run, store, report and refuse as documented',
     'A calculation command reads the file given, reports it, runs once and '
     'stores its results in the documented file (default name or -o); an '
     'existing results file is replaced only after a yes; when reading or '
     'running fails, the reason is printed and logged and nothing further is '
     'run or stored; the log file is started afresh and holds exactly what '
     'is printed, by the command and by its calculator, and quiet runs print '
     'nothing but log the same; debug messages appear only on request; an '
     'absent file is refused or reported; exporters '
     'load the file given and start, or print why not; the input generators '
     'pass on interface, list flag and reference, write the documented file, '
     'and on any failure write nothing. No command ever writes to its input '
     'file.',
     ['inputs', 'histories', 'fault_sequences'], 'all outcomes of reading and running, '
     'answers, output names and flags',
     'The test suite never runs a command; the order of effects on every '
     'failure path cannot be sampled.',
     ['quantas/cmdline', 'quantas/harmonic/commands', 'quantas/qha/commands',
      'quantas/soec/commands', 'quantas/eosfit/commands'],
     [('commands', 'quantas/*/commands/cmd_*.py'),
      ('messages', 'quantas/cmdline/utils/messages.py'),
      ('groups', 'quantas/cmdline/commands')],
     ['calls of the calculator, exporter and generator', 'screen and log',
      'files written'],
     technique='static effect analysis: abstract interpretation of the '
     'command functions with recorded effects (steps, screen, files) over '
     'all outcomes of the calculator')

prop('P29', 'Wave velocities solve Christoffel\'s equation in the direction set',
     'For any stiffness matrix, density and direction (two angles, or a '
     'vector of any length), the Seismic class solves C_ijkl n_j n_k / rho; '
     'phase velocities, ascending, are the square roots of its eigenvalues '
     'with their own polarisations; group velocities are their gradients '
     'with the matching size, direction, angles and power-flow angle; '
     'Hessian and enhancement factor follow from the second derivatives. '
     'Angles and Cartesian vector always describe the same direction; bulk, '
     'shear and isotropic velocities are the Voigt-Reuss-Hill ones; after '
     'another direction is set nothing of the first is reported.',
     ['inputs', 'histories'], 'all stiffness matrices, densities and '
     'directions',
     'No test uses the class; errors in one component or one octant escape '
     'samples.',
     ['quantas/seismic/utils/seismic_obj.py'],
     [('wave equation', 'class Seismic in '
       'quantas/seismic/utils/seismic_obj.py'),
      ('cofactors', 'cofactor in quantas/seismic/utils/seismic_obj.py')],
     ['properties of quantas.seismic.utils.seismic_obj.Seismic'])
prop('P25', 'Results do not depend on the number of threads',
     'Every compiled kernel that runs in parallel gives the same result for '
     'any number of threads and any assignment of iterations to them: an '
     'iteration stores only elements that belong to it, reads no element '
     'another iteration of the loop stores, keeps no scalar from one '
     'iteration to the next, and changes no variable of the module. (Sums '
     'accumulated across iterations count as exact.)',
     ['schedules'], 'every schedule of every parallel loop',
     'A test run takes one schedule, on small arrays often a single thread; a '
     'race passes until the array is large or the machine busy.',
     ['quantas/utils/physics/statistical_mechanics.pyx',
      'quantas/utils/physics/thermodynamics.pyx',
      'quantas/utils/math/fast_math.pyx'],
     [('parallel loops', 'prange loops of the .pyx modules')],
     ['arrays returned by the compiled kernels'],
     technique='dataflow over every parallel loop: ownership of stored and '
     'loaded elements (affine indices, aliases, rows, helper functions) and '
     'definite assignment of scalars')

prop('P24', 'No code path names something that does not exist',
     'On every path - error branches, rarely chosen options and interactive '
     'prompts included - each name read is bound in its scope, each module, '
     'function, method and attribute of the project and of the installed '
     'NumPy that is used exists, project functions, methods and classes are '
     'called with arguments their signatures accept, methods are called and '
     'not tested for truth, and each format string gets a value for every '
     'placeholder. So no option or unusual input ends in a NameError, '
     'AttributeError, ImportError, or a TypeError or IndexError of these '
     'kinds.',
     ['inputs', 'configurations'], 'all paths of all modules',
     'Tests run few of the error branches; interpreted code reveals such '
     'mistakes only on the path that contains them.',
     ['quantas'],
     [('all modules', 'quantas')],
     ['every module of the package'],
     technique='custom lint over the syntax tree of every module: scope and '
     'def-use analysis, class-attribute tables, signature and format-string '
     'matching')
prop('P22', 'Reports of the input repeat what was read',
     'Before a harmonic, quasi-harmonic, elastic or P-V run the report names '
     'the job, the counts of volumes, atoms, q-points and frequencies, the '
     'crystal system and the density (or says that none was given), and '
     'prints every volume, energy, elastic constant, compliance (in TPa^-1) '
     'and P-V datum that was read, in the order and unit of its headings, and '
     'the parameters of the static equation of state, each with its own '
     'uncertainty and unit; columns and uncertainties that the file does not '
     'have are shown as missing, the others never are.',
     ['inputs', 'configurations'], 'all values; units, columns and '
     'uncertainties given or not',
     'No test looks at the printed report; a swapped or stale column needs '
     'the values to be compared with the file.',
     ['quantas/harmonic/harmonic.py', 'quantas/soec/soec.py',
      'quantas/eosfit/eosfit.py', 'quantas/qha/qha.py'],
     [('harmonic input', 'HACalculator.report_input_data in '
       'quantas/harmonic/harmonic.py'),
      ('quasi-harmonic input', 'QHACalculator.report_input_data in '
       'quantas/qha/qha.py'),
      ('elastic input', 'SOECCalculator.report_input_data in '
       'quantas/soec/soec.py'),
      ('P-V input', 'EoSFitCalculator.report_input_data in '
       'quantas/eosfit/eosfit.py')],
     ['messages of report_input_data'])

prop('P30', 'Files are written anew and completely, inputs only read',
     'A results file, exported table or generated input that is written over '
     'an older file of that name holds the same as one written where there '
     'was none: nothing of the older file is left or added to. When writing '
     'or reading ended, no file is still open, so that all that was computed '
     'is in the file and a later calculation can replace it. Input files, '
     'outputs of ab initio codes and results files to be exported are opened '
     'for reading only, whether they are accepted or refused.',
     ['histories', 'inputs'], 'all older contents, all results and inputs',
     'No test writes a file twice; a file that is left open or appended to '
     'looks right in every single-run test.',
     ['quantas/harmonic/harmonic.py', 'quantas/qha/qha.py',
      'quantas/soec/soec.py', 'quantas/IO', 'quantas/interfaces'],
     [('results files', 'export_hdf5 of the calculators'),
      ('tables', 'quantas/*/utils/table.py'),
      ('exporters', 'quantas/*/utils/export.py'),
      ('generated input', 'quantas/IO/*_writer.py'),
      ('readers', 'quantas/IO/*_reader.py')],
     ['files written and read'],
     technique='static resource-lifecycle (typestate) analysis: abstract '
     'interpretation with modelled file handles over an empty and an '
     'occupied file name')

prop('P31', 'Figures show the tables they are drawn from, whole and named',
     'When polar properties and figures are asked for, and only then, one '
     'figure per property is saved as <name>_<property>.png at the resolution '
     'chosen, each from the tables of its own property: Young\'s modulus, '
     'linear compressibility, shear modulus, Poisson\'s ratio and, when the '
     'density is known, wave velocities. Each of its three panels is '
     'captioned with its plane and property and draws every column of the '
     'table of that plane once, over the angle in radians; the legend names '
     'the curves in the order they are drawn; no curve leaves the radial '
     'limit.',
     ['inputs', 'configurations'], 'all tables; polar, plotting and density '
     'given or not',
     'No test draws a figure; a curve in the wrong panel, under the wrong '
     'name or cut off is seen only by comparing it with the table.',
     ['quantas/soec/utils/plotting.py', 'quantas/soec/soec.py'],
     [('drawing', '*_polar_plot in quantas/soec/utils/plotting.py'),
      ('dispatch', 'SOECCalculator.run in quantas/soec/soec.py')],
     ['figures written'],
     technique='abstract interpretation of the drawing functions with '
     'modelled axes; symbolic comparison of every curve, limit and label with '
     'the tables')
