"""Property texts."""
ALL_EM = ['geoana/em/base.py', 'geoana/em/static/wholespace.py', 'geoana/em/static/halfspace.py', 'geoana/em/static/sphere.py',
          'geoana/em/static/freespace.py', 'geoana/em/fdem/base.py', 'geoana/em/fdem/wholespace.py', 'geoana/em/fdem/halfspace.py',
          'geoana/em/fdem/layered.py', 'geoana/em/fdem/simple_functions.py', 'geoana/em/tdem/base.py', 'geoana/em/tdem/wholespace.py',
          'geoana/em/tdem/halfspace.py', 'geoana/em/tdem/simple_functions.py', 'geoana/em/tdem/reference.py']
GRAV = ['geoana/gravity.py', 'geoana/shapes.py', 'geoana/kernels/potential_field_prism.py']
TRUST = ("Trusted: the analyser's models of the numpy/scipy operations used, and exact (not floating-point) arithmetic. "
         "Equality of value graphs is decided by random interpretation over 110-bit finite fields (one-sided error about 2^-45 per sample). ")
VG = "value-graph static analysis: gated-SSA value numbering of the source, equality by random interpretation in finite fields"

PROPS = [
 dict(id='C01', title='Every field, potential and material quantity has its physical dimension',
  statement="Every public field, potential, derivative and material quantity is dimensionally homogeneous: no sum, comparison or "
            "function argument mixes dimensions, and each result carries the SI dimension of the quantity it is documented to be, "
            "for every parameter value and option. Rescaling the base units of all inputs therefore rescales each result accordingly.",
  over=['inputs', 'configurations'], all='all parameter values, observation points, option and constructor variants of every public source and function',
  why='Tests compare at a few fixed parameter values, mostly where one power of a parameter is 1 (unit radius, unit moment), so a wrong power is invisible.',
  files=ALL_EM + GRAV, mech=[('closed-form expressions of every public method', 'geoana/em, geoana/gravity.py')],
  technique='dimension (unit) inference over the value graph, confirmed by scaling all inputs in free base units', note=TRUST +
  "Decides dimensional homogeneity of every public method, property and function in the catalogue."),
 dict(id='C02', title='Fields move with their source: translation invariance',
  statement="Shifting a source and the observation points by the same vector leaves every field and potential unchanged, for every "
            "offset and source parameter; for sources tied to a half-space this holds for horizontal shifts.",
  over=['inputs', 'configurations'], all='all offsets, source parameters, points and options',
  why='Almost all tests put the source at the origin; a term that uses absolute coordinates coincides with the correct one there.',
  files=ALL_EM + GRAV, mech=[('distances are formed from location and observation point', 'vector_distance, cylindrical conversions in geoana/em')],
  technique=VG, note=TRUST + "Compares f(source+t, points+t) with f(source, points) on every branch cell found."),
 dict(id='C03', title='Fields are linear in the source strength',
  statement="Every field and potential is proportional to its source strength (moment, current, length, mass, density, amplitude, turns), and "
            "additive in vector strengths (primary field, magnetization), for every strength including negative and zero-free signs.",
  over=['inputs', 'configurations'], all='all strengths and all other parameters',
  why='Tests use strength 1 or one fixed value, for which powers of the strength and offsets cannot be told apart.',
  files=ALL_EM + GRAV, mech=[('strength enters each expression as one factor', 'geoana/em, geoana/gravity.py')],
  technique=VG, note=TRUST + "Compares f(lambda s) with lambda f(s), and f(a+b) with f(a)+f(b) for vector strengths."),
 dict(id='C04', title='Fields turn with their source: rotation covariance',
  statement="Rotating source, vector parameters and observation points together rotates vector results, conjugates gradient tensors and leaves "
            "scalars unchanged; for half-space and plane-wave sources this holds for rotations about the vertical.",
  over=['inputs', 'configurations'], all='all rotations, orientations, points and options (axis-aligned prisms excepted)',
  why='Tests use the axis orientations X, Y, Z; a component that is right only for axis-aligned dipoles passes them.',
  files=ALL_EM + ['geoana/gravity.py', 'geoana/spatial.py'], mech=[('orientation vector algebra and rotation matrices', 'geoana/em/*, geoana/spatial.py')],
  technique=VG, note=TRUST + "Decided for one generic exact rational rotation (a full-rank quaternion), generic orientation and point."),
 dict(id='C05', title='Fields satisfy their governing equations',
  statement="Away from sources and interfaces, the returned fields satisfy the equations they solve: div B = 0, div J = 0, curl H = J (or 0), "
            "curl E = 0 for static sources, the frequency- and time-domain Faraday and Ampere laws for harmonic and transient sources, "
            "and div g = 0 outside or -4 pi G rho inside a mass.",
  over=['inputs', 'configurations'], all='all points off the source, all material parameters, frequencies and times',
  why='Tests compare against re-typed copies of the same formulas at a few points; no test checks an equation for all points and parameters.',
  files=ALL_EM + GRAV, mech=[('closed-form field expressions', 'geoana/em, geoana/gravity.py')],
  technique='formal differentiation of the value graph + equality by random interpretation in finite fields', note=TRUST +
  "Near-axis approximations of the circular loop are outside this check (main branch only)."),
 dict(id='C06', title='Fields are the derivatives of their potentials',
  statement="Electric, magnetic and gravitational fields equal the gradient or curl of the potential returned by the same source, gradient tensors the "
            "gradient of the field, and reported time derivatives the time derivative of the reported field, at every point, time and parameter value.",
  over=['inputs', 'configurations'], all='all points off the source, all parameters, times and field options',
  why='Each method is tested on its own at a few points; the pairing of potential, field and derivative is never quantified.',
  files=ALL_EM + GRAV, mech=[('paired potential / field / derivative methods', 'geoana/em, geoana/gravity.py')],
  technique='formal differentiation of the value graph + equality by random interpretation in finite fields', note=TRUST +
  "Near-axis approximations of the circular loop are outside this check (main branch only)."),
 dict(id='C07', title='Flux and current densities follow the constitutive relations',
  statement="Everywhere and for every option, magnetic flux density is the local permeability times the magnetic field (plus magnetization inside a "
            "magnetized prism) and current density is the local conductivity times the electric field, with the material of the region the point lies in.",
  over=['inputs', 'configurations'], all='all points, parameters, options, frequencies and times',
  why='Tests use free-space permeability or one conductivity, for which a wrong constant (mu_0 for mu, background for sphere) gives the same number.',
  files=ALL_EM, mech=[('current_density / magnetic_flux_density methods', 'geoana/em')],
  technique=VG, note=TRUST),
 dict(id='C10', title='Gradient tensors are symmetric with the trace of Poisson\'s equation',
  statement="Gravitational gradient and magnetic field gradient tensors are symmetric at every point, and their trace vanishes outside the body "
            "(inside: -4 pi G rho for gravity, 0 for magnetics).",
  over=['inputs', 'configurations'], all='all points and body geometries',
  why='Tests compare single components at a few points.',
  files=GRAV + ['geoana/em/static/freespace.py'], mech=[('tensor assembly', 'geoana/gravity.py, geoana/em/static/freespace.py')],
  technique=VG, note=TRUST),

 dict(id='C08', title='Fields decompose into their documented parts',
  statement="The parts of a field add up to the whole: total = primary + secondary for sphere responses, total minus secondary is the free-space field for "
            "dipoles and loops over a half-space, a half-space electrode is a whole-space electrode plus its mirror image, a DC dipole is A minus B and a "
            "receiver dipole M minus N, a wire is the sum of its segments (reversing it flips every field, a closed wire has no galvanic field), and a "
            "prism equals the sum of the pieces it is cut into. Options select exactly the documented part and the default is the documented one.",
  over=['inputs', 'configurations'], all='all parameters, points, regions, field options, wires of 2 to 4 nodes and cut positions',
  why='Tests check single options at single points; that the parts add up everywhere and for each option is never stated.',
  files=ALL_EM + GRAV, mech=[('field= options, images, electrode differences, segment and corner sums', 'geoana/em, geoana/gravity.py')],
  technique=VG, note=TRUST + "Wires of 2 to 4 nodes are analysed (the segment loop is unrolled)."),
 dict(id='C09', title='Fields meet the interface conditions at material boundaries',
  statement="On the surface of a conducting or permeable sphere the potential and the tangential field are continuous, the normal flux or current density is "
            "continuous, and the reported charge density is epsilon_0 times the jump of the normal electric field; gravity potential and field of a "
            "sphere are continuous; no DC current crosses the surface of a half-space.",
  over=['inputs', 'configurations'], all='every point of the boundary, all material contrasts and field options',
  why='Tests evaluate points inside and outside, never the limit from both sides for every contrast.',
  files=['geoana/em/static/sphere.py', 'geoana/em/static/halfspace.py', 'geoana/gravity.py'],
  mech=[('inside/outside branches of the sphere sources', 'geoana/em/static/sphere.py, geoana/gravity.py'), ('image electrodes', 'geoana/em/static/halfspace.py')],
  technique=VG + '; branch-resolved graphs of both sides compared on the boundary', note=TRUST),
 dict(id='C11', title='Static sources evaluate their documented solutions',
  statement="Every potential and field of the static sources (electric and magnetic dipoles, poles, loops, wires, point currents, spheres, prisms, DC "
            "dipoles) is the documented closed-form solution at every point where it is defined, for every material, strength, position, "
            "orientation (vector or axis name) and coordinate option.",
  over=['inputs', 'configurations'], all='all points, parameters, orientations, regions and coordinate options',
  why='Tests sample a few points with a few parameter values; wrong branches, parameters and special orientations between them pass.',
  files=[f for f in ALL_EM if 'static' in f or f.endswith('em/base.py')] + ['geoana/kernels/potential_field_prism.py', 'geoana/spatial.py'],
  mech=[('closed-form expressions', 'geoana/em/static')], technique=VG + ' against independently written closed forms',
  note=TRUST + "The reference closed forms in geostat/refs.py are trusted. The near-axis series of the circular loop is admitted only inside its documented tolerance."),
 dict(id='C12', title='Frequency-domain sources evaluate their documented solutions',
  statement="Every field, potential and derived quantity (wavenumber, skin depth, admittivity, ...) of the frequency-domain sources and functions is the "
            "documented solution with the e^{+i omega t} convention, for scalar and array frequencies, quasi-static or not, and every point and parameter.",
  over=['inputs', 'configurations'], all='all points, frequencies (scalar and array), materials, layer counts 1 to 3, orientations',
  why='Tests compare a few frequencies and points against re-typed formulas, mostly with default permeability and permittivity.',
  files=[f for f in ALL_EM if 'fdem' in f or f.endswith('em/base.py')],
  mech=[('closed-form expressions and layer recursion', 'geoana/em/fdem')], technique=VG + ' against independently written closed forms',
  note=TRUST + "Hankel transforms are uninterpreted linear functionals of their kernel: kernel and factors are decided, the digital filter is not."),
 dict(id='C13', title='Time-domain sources evaluate their documented solutions',
  statement="Every field, derivative and derived quantity (theta, diffusion distance, peak time, ...) of the time-domain sources and functions is the "
            "documented step-off solution, for scalar and array times and every point, material and orientation.",
  over=['inputs', 'configurations'], all='all points, times (scalar and array), materials, orientations',
  why='Tests compare a few times and points against re-typed formulas.',
  files=[f for f in ALL_EM if 'tdem' in f or f.endswith('em/base.py')],
  mech=[('closed-form expressions', 'geoana/em/tdem')], technique=VG + ' against independently written closed forms', note=TRUST +
  "The reference closed forms in geostat/refs.py are trusted."),
 dict(id='C14', title='Gravity sources evaluate their documented solutions',
  statement="Potential, field and gradient of point masses, spheres and prisms are the documented Newtonian solutions at every point inside and outside "
            "the body, for every mass, density, position and size.",
  over=['inputs', 'configurations'], all='all points, masses, densities, positions and sizes',
  why='Tests sample a few points of one body.',
  files=GRAV, mech=[('closed-form expressions and prism kernels', 'geoana/gravity.py, geoana/kernels/potential_field_prism.py')],
  technique=VG + ' against independently written closed forms', note=TRUST + "The reference closed forms in geostat/refs.py are trusted."),
 dict(id='C15', title='Results are batch-independent and have the documented shape and type',
  statement="For every documented form of input (observation points in arrays of any leading shape or as a tuple of coordinates, float or integer, scalar or "
            "array frequency and time, every option) a call on a validly built source succeeds, returns floating-point or complex arrays of the documented shape "
            "(frequency or time axis, then the shape of the points, then the component axes), and the value at a point is the one obtained "
            "when that point is evaluated alone: it depends neither on the other points nor on how the batch is laid out.",
  over=['inputs', 'configurations'], all='all batch shapes of rank 0 to 2, element types, option combinations and constructor variants of every source and function',
  why='Tests use one grid shape per source, nearly always (N, 3) floats with few points; masks, reshapes and broadcasts fail only for other shapes or mixed regions.',
  files=ALL_EM + GRAV + ['geoana/utils.py'], mech=[('check_xyz_dim, append_ndim and broadcasting in every method', 'geoana/utils.py, geoana/em, geoana/gravity.py')],
  technique='abstract interpretation with symbolic shapes and element types; element values compared across batch shapes by value numbering', note=TRUST +
  "Layered half-space sources are analysed for (N, 3) points only, the only documented form."),
 dict(id='C16', title='Evaluation is pure and depends only on the current parameters',
  statement="Evaluating a field or property changes neither the source nor the caller's arrays nor module state, and returns arrays that share no memory with the source: "
            "after any sequence of evaluations and parameter assignments every result equals that of a new source built with the current parameter values, "
            "and later changes by the caller to arrays it passed in or received never alter a source.",
  over=['histories', 'inputs'], all='all orders of construction, assignment, evaluation and caller-side mutation, for every source, method and parameter',
  why='Tests build a source, evaluate it once and compare; stale caches, aliased arrays and in-place updates need a second step to show.',
  files=ALL_EM + GRAV, mech=[('property setters copy and validate', 'geoana/em/base.py, geoana/em/*/base.py, geoana/gravity.py, geoana/shapes.py')],
  technique='effect and alias analysis on an abstract heap; results along histories compared with those of new sources by value numbering', note=TRUST +
  "Histories of up to three assignments and evaluations per parameter and method."),
 dict(id='C17', title='Invalid input is rejected and leaves the source unchanged',
  statement="Constructors and setters reject values outside the documented domain (non-positive conductivity, permeability, radius, length or thickness where positive is "
            "documented, negative frequency, time or permittivity, wrong shapes, unknown orientations, positions on the wrong side of a half-space, inverted prism corners, points without "
            "three coordinates) and accept every value inside it; a rejected assignment leaves the source as it was.",
  over=['inputs', 'histories'], all='all values, shapes and options of every parameter of every source, by constructor and by setter',
  why='Tests try one invalid value per setter, and never look at the source afterwards; accepted ranges are not tested near their ends.',
  files=ALL_EM + GRAV + ['geoana/utils.py'], mech=[('validation in property setters', 'geoana/em/base.py, geoana/em/*/base.py, geoana/gravity.py, geoana/shapes.py')],
  technique='guard and exception-path analysis of every constructor and setter over a value and shape lattice; heap before and after a rejected assignment compared', note=TRUST +
  "Range guards are decided at representative values on both sides of, and at, every documented bound (down to 1e-12)."),
 dict(id='C18', title='Coordinate conversions, rotations and grid helpers match their definitions',
  statement="Cartesian, cylindrical and spherical conversions of points and vectors are the documented ones, inverse to each other and length-preserving for vectors; "
            "rotation_matrix_from_normals returns for every pair of vectors, parallel and opposite ones included, a proper rotation that takes the first direction to the second, and "
            "rotate_points_from_normals applies it about the given centre; ndgrid, mkvc, append_ndim, check_xyz_dim, repeat_scalar and the distance and dot helpers do "
            "what they document; none of them changes its arguments.",
  over=['inputs'], all='all points, vectors, batch shapes, and pairs of directions including parallel, opposite and axis-aligned ones',
  why='Tests convert a few points and rotate a few pairs; quadrants, opposite vectors along special axes and other batch shapes are missed.',
  files=['geoana/spatial.py', 'geoana/utils.py'], mech=[('conversion and rotation functions', 'geoana/spatial.py'), ('grid helpers', 'geoana/utils.py')],
  technique=VG + '; effects on arguments from the abstract heap', note=TRUST + "Grid helpers are analysed for axes of two to four nodes."),
 dict(id='C19', title='Prism and layered-earth kernels match their definitions, compiled or not',
  statement="The transverse-electric reflection coefficients are those of the layered earth (splitting a layer changes nothing, free space does not reflect), their "
            "gradients are the derivatives with respect to conductivity, permeability and thickness, and the prism kernels are the indefinite integrals "
            "of 1/r and its derivatives; the compiled versions agree with the Python ones for every memory layout of the inputs, "
            "never read or write outside their arrays, reject inconsistent array sizes, and change no input.",
  over=['inputs', 'configurations'], all='all layer properties, frequencies, wavenumbers and points; 1 to 4 layers, C, Fortran and strided layouts',
  why='Tests compare a few models and use contiguous arrays; the compiled code and the Python fallback are never compared in general.',
  files=['geoana/kernels/tranverse_electric_reflections.py', 'geoana/kernels/potential_field_prism.py', 'geoana/kernels/_extensions/rTE.pyx',
         'geoana/kernels/_extensions/_rTE.cpp', 'geoana/kernels/_extensions/potential_field_prism.pyx'],
  mech=[('admittance recursion and its reverse-mode gradient', 'geoana/kernels/_extensions/_rTE.cpp'), ('prism ufuncs', 'geoana/kernels/_extensions/potential_field_prism.pyx')],
  technique=VG + '; Cython and C++ sources through the Cython parser and the clang syntax tree, with bounds and initialisation checked at every access', note=TRUST +
  "Layer, frequency and wavenumber counts are unrolled (1 to 4, 1 to 3, 1 to 3). The C++ mu_0 (4e-7 pi) and the CODATA value are identified."),
 dict(id='C20', title='The earthquake model evaluates the Okada solution and keeps its parameters',
  statement="Oksar.simulation_grid lists the points O + a U + b V of the documented rectangle, and displacement_vector is Okada's (1985) surface displacement of the "
            "rectangular fault for every strike, dip (vertical included), rake, slip, length, depth range, position and elastic constants: linear in slip, unchanged when the fault is cut into "
            "two adjacent pieces, carried along by translations. EarthquakeInterferogram.get_LOS_vector is the unit vector to the satellite at every location. Every parameter "
            "reads back the value it was given, in the constructor or later, independent of the caller's array, and values outside the documented type or shape are rejected.",
  over=['inputs', 'histories'], all='all fault parameters, grids, locations and assignments',
  why='The tests evaluate one published example; other dips, rakes, grids, repeated assignments and date formats are never run.',
  files=['geoana/earthquake/oksar.py'], mech=[('okada_disp, fBi and the simulation grid', 'geoana/earthquake/oksar.py'), ('line of sight', 'geoana/earthquake/oksar.py')],
  technique=VG + ' against independently written closed forms; abstract heap for ownership and read-back', note=TRUST +
  "utm.to_latlon is uninterpreted. Grids of up to 3 by 4 points. Plotting is not analysed."),
 dict(id='C21', title='Sources agree wherever their physics coincides',
  statement="Independent parts of the package give the same answer where theory says so: a gravity sphere outside is a point mass; a magnetic prism obeys Poisson's relation with the gravity "
            "prism; a magnetic dipole is the derivative of a pole; a wire's galvanic field is that of electrodes at its ends; an electrode on the surface of a half-space gives twice the "
            "whole-space field; electrostatic and magnetostatic spheres are the same function of their materials, respond like a dipole outside and not at all without contrast; quasi-static "
            "fields are those without permittivity; at zero frequency the harmonic dipoles are the static ones; sources and receivers (and "
            "current and potential electrodes) may be interchanged; equal or split layers change nothing; class methods and properties equal the module functions and Ward and Hohmann's reference formulas.",
  over=['inputs', 'configurations'], all='all points, materials, strengths, orientations, frequencies and times',
  why='Each source is tested on its own, at a few points.',
  files=ALL_EM + GRAV, mech=[('closed-form expressions of both sides', 'geoana/em, geoana/gravity.py')],
  technique=VG + '; formal differentiation for dipole relations', note=TRUST + "Layered models of up to three layers; wires of two and three nodes."),
 dict(id='C22', title='The documented interface exists and works with and without optional dependencies',
  statement="Every name in the API documentation and in a module's __all__ exists. Importing any geoana module needs only the declared "
            "dependencies (numpy, scipy, libdlf): matplotlib, utm, numba and the compiled extensions are optional, every module imports without them, functions that need one "
            "are guarded by @requires, and the same names are available whether the kernels are compiled or not (geoana.compiled and show_config tell which). No path of the package, error paths and rarely used branches included, refers to "
            "an undefined name or attribute, reads an unassigned local variable, or calls one of geoana's functions with arguments it does not accept.",
  over=['inputs', 'configurations'], all='every path of every module, with every subset of the optional dependencies present',
  why='The tests run in one environment with the optional packages installed, and skip most error messages and plotting branches.',
  files=['geoana/__init__.py', 'geoana/utils.py', 'geoana/kernels/__init__.py', 'geoana/plotting_utils.py'] + ALL_EM + GRAV,
  mech=[('requires decorator and guarded imports', 'geoana/utils.py'), ('fallback imports', 'geoana/kernels'), ('autosummary lists', 'module docstrings')],
  technique='name, attribute, call and definite-assignment resolution over every path of the syntax tree; module initialisation interpreted for each set of absent dependencies', note=TRUST +
  "Attributes of numpy and scipy objects are resolved against the installed packages' stubs and sources where they can be."),
 dict(id='C23', title='Plots show the data they are given',
  statement="plot2Ddata draws filled contours of the data interpolated (linear or nearest) to an nx by ny grid that spans the data locations: the "
            "absolute value on a log scale, the magnitude for vector data together with streamlines of the components, with the mask applied. "
            "The ncontour + 1 levels and the colour limits run from vmin to vmax (clim, vmin/vmax in contourOpts, or the finite range of the "
            "gridded data; conflicting limits raise), linearly or logarithmically. Shading, contour lines, data locations and saving are done when and only when asked for, on "
            "the axes (and figure) given; the caller's option dictionaries override the defaults, reach the drawing call and are not changed; the contour set, "
            "axes and contour lines are returned. plot_interferogram, plot_mask and plot_displacement draw each pixel of the scaled (wrapped) interferogram, each "
            "pixel without data, and the vertical or line-of-sight displacement of each grid point in its geographic place, on the axes given.",
  over=['inputs'], all='all data, locations and combinations of options', why='Nothing tests the drawn figure.',
  files=['geoana/plotting_utils.py', 'geoana/earthquake/oksar.py'], mech=[('interpolation, levels and matplotlib calls', 'geoana/plotting_utils.py'), ('plot methods', 'geoana/earthquake/oksar.py')],
  technique='abstract interpretation with a recording drawing library: the value graphs that reach each drawing call are compared with their definition', note=TRUST +
  "matplotlib's rendering and scipy's interpolators are uninterpreted; grids of 2 to 4 points per side with symbolic values stand for all sizes."),
 dict(id='N01', title='Closed forms stay accurate in floating point everywhere',
  statement="In double precision every field keeps a small relative error at every point, time and frequency, also close to sources, at early and late times and for extreme material contrasts.",
  over=['inputs'], all='all points, times, frequencies and parameters', why='Tests sample well-conditioned points.',
  files=ALL_EM + GRAV, mech=[('closed-form expressions', 'geoana/em')],
  na="Quantifies over floating-point rounding and cancellation of transcendental expressions; no sound static error analysis for them is in reach here. The checks decide the exact expressions."),
 dict(id='N02', title='Digital Hankel filters reach the accuracy of the transform',
  statement="Fields over layered half-spaces agree with the exact Hankel transform to the accuracy of the digital filter, for every offset, frequency and layering.",
  over=['inputs'], all='all offsets, frequencies and layer models', why='Tests compare with an analytic half-space at a few offsets.',
  files=['geoana/em/fdem/layered.py'], mech=[('libdlf filter and spline over wavelengths', 'geoana/em/fdem/layered.py')],
  na="The error depends on tabulated filter weights and on the numerical behaviour of each kernel; a static argument cannot bound it. C12 decides the kernel and the factors of the transform."),
]
