#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

R = 'pyHalo/single_realization.py'; E = 'pyHalo/realization_extensions.py'
HB = 'pyHalo/Halos/halo_base.py'; HM = 'pyHalo/Halos/HaloModels/'
LC = 'pyHalo/Halos/lens_cosmo.py'; CO = 'pyHalo/Cosmology/cosmology.py'; GE = 'pyHalo/Cosmology/geometry.py'
PM = 'pyHalo/PresetModels/'; RE = 'pyHalo/Rendering/'; MF = RE + 'MassFunctions/'; SD = RE + 'SpatialDistributions/'
TT = 'pyHalo/Halos/tidal_truncation.py'; CN = 'pyHalo/Halos/concentration.py'

p('P01', 'Derived realizations keep the lensing context of their parent',
  'Every realization produced from an existing one (filtering by mass or bound mass, filtering subhalos, splitting at a redshift, selecting a lens plane, joining, shifting towards the source, or any of the extension routines that add or convert halos) carries the same cosmology and lens/source redshifts, halo-model settings, mass-sheet switch, rendering classes, rendering centre and volume geometry as the realization it was made from.',
  ['inputs', 'histories', 'configurations'], 'for every parent realization and every chain of derivation operations',
  'The context is a tuple of seven fields copied by hand at about fifteen sites; the stable tests build no realization at all, and a lost field only shows up when mass sheets are computed on a derived, off-centre realization.',
  [R, E], [('every construction of a realization from another one forwards the context fields', R), ('extension routines build the new realization from the parent fields', E)],
  [('rendering centre / rendering classes / mass sheet flag / geometry', 'context from which negative-convergence sheets are computed', R)])

p('P02', 'Re-modelling a halo preserves its identity and evolutionary state',
  'When an operation replaces the density profile of a halo (self-interacting, core-collapsed, or cored re-modelling), the replacement has the same mass, concentration, angular position, three-dimensional radius, redshift, subhalo/field status, cosmology and unique tag as the halo it replaces. For subhalos converted to self-interacting profiles it also keeps the infall redshift and the bound mass, and these are in place before any quantity that depends on them (age, core-collapse time) is evaluated.',
  ['inputs', 'configurations'], 'for every halo of every supported type and every target profile',
  'Each conversion is a positional constructor call per target class; a swapped or stale argument is type-correct and passes every existing test, none of which converts a halo.',
  [E, HM + 'NFW_core_trunc.py', HM + 'core_collapsed_halo.py', HM + 'sis.py'], [('conversion builds the new profile from the fields of the old halo', E)])

p('P03', 'Realization operations neither lose nor duplicate halos',
  'Operations that convert or shift a realization return exactly one halo for every halo they were given; operations that add objects keep every existing halo and add the new ones; splitting at a redshift puts every halo in exactly one of the two parts; filters return a subset of the given halo objects, none twice; joining two realizations contains every halo of both, with a halo present in both (same tag) appearing once; and a realization built from arrays has one halo per entry with the properties of that entry and reports its per-halo arrays in the order of its halos. Two realizations compare equal exactly when they contain the same halos, and a single-halo realization holds exactly the requested halo in the requested cosmology.',
  ['inputs', 'histories'], 'for every realization, every operation and every chain of operations',
  'It is a conservation law over all halo populations; the tests that exercise these operations need an optional package and use single hand-made realizations.',
  [R, E], [('list building in the realization methods', R), ('list building in the extension routines', E)])

p('P04', 'Halo selection applies exactly the documented criterion',
  'The aperture filter keeps a halo if and only if the absolute value of its mass reaches the global minimum, or it lies within the aperture radius (in arcsec, or in comoving kpc; times the geometric weight clipped between its minimum and one, when weighting is on) of any of the given rays at its own comoving distance; an unknown aperture unit is an error. The subhalo filter keeps every field halo, every subhalo above the mass threshold and every subhalo inside any aperture; the bound-mass filter keeps field halos and the subhalos whose bound mass reaches the threshold; splitting puts halos at or below the redshift in the first part; selecting a plane keeps the halos at that redshift (within the given range), and counts and masses at a redshift count those halos.',
  ['inputs'], 'for every halo, every ray position, aperture and threshold',
  'The criterion is a boolean function of about ten real inputs; tests sample a handful of realizations and never the boundary or the mixed foreground/background cases.',
  [R], [('filter, filter_subhalos, filter_bound_mass, halos_at_z, split_at_z', R)])

p('P05', 'The towards-source shift is applied at most once and is remembered',
  'Displacing a realization towards the source moves every halo by the deflection interpolated at its own redshift, in the same direction for both coordinates, at most once: the result is marked as shifted, a second request returns it unchanged, and every realization derived from it is still marked as shifted.',
  ['histories', 'inputs'], 'for every sequence of shift, filter, join, conversion and injection operations',
  'It is a typestate over operation histories: the failure needs shift, then a derivation, then another shift.',
  [R, E], [('shift flag set by the shift operation and propagated by derived realizations', R)],
  [('shifted flag', 'whether positions already contain the displacement', R)])

p('P06', 'Cached halo quantities never go stale',
  'After the normalization of a halo is rescaled, or its bound mass or infall redshift is set, every quantity and lensing argument subsequently read from that halo equals what a halo changed before anything was read would return: no memoised value survives the change it depends on.',
  ['histories'], 'for every interleaving of reads and updates of a halo object',
  'Halo quantities are memoised in about twenty attributes; whether a read is stale depends on the order of earlier reads, which tests fix to one order.',
  [HB] + [HM + f for f in ('TNFW.py', 'NFW.py', 'TNFWFromParams.py', 'PsuedoJaffe.py', 'ULDM.py', 'gaussianhalo.py', 'NFW_core_trunc.py', 'TNFWemulator.py', 'generalized_nfw.py', 'powerlaw.py', 'blackhole.py', 'globular_cluster.py', 'core_collapsed_halo.py', 'sis.py')],
  [('memo attributes and the invalidation performed by the mutators', HB)])

p('P07', 'Asking a halo twice gives the same answer',
  'Reading any derived quantity of a halo (concentration, scale parameters, bound mass, infall redshift, profile arguments, lensing arguments) any number of times returns the same value: every random draw behind it is made once per halo, and different quantities that depend on the same draw agree with each other. Lensing arguments read from a realization twice are the same.',
  ['histories', 'inputs'], 'for every halo class, every sub-model with scatter, every order of reads',
  'A redraw yields a plausible value, so value-based tests cannot tell; it needs comparing reads in arbitrary order for every scatter model.',
  [HB, HM + 'TNFW.py', HM + 'NFW.py', HM + 'ULDM.py', HM + 'powerlaw.py', HM + 'PsuedoJaffe.py', CN, TT], [('memoisation of every quantity that draws random numbers', HB)])

p('P08', 'Lensing output lists are parallel and complete',
  'The lens-model names, redshifts and keyword arguments returned for a realization are parallel: each halo contributes equally many names, keyword sets and redshifts, all redshifts of its entries equal its own redshift, entries follow the halo order, and when mass sheets are requested and enabled each sheet appends exactly one name, one keyword set and one redshift after the halos.',
  ['inputs', 'configurations'], 'for every population of halo types and every mass-sheet configuration',
  'Requires all halo types including multi-component ones; the tests need an optional package and cover few types.',
  [R] + [HM + f for f in ('core_collapsed_halo.py', 'generalized_nfw.py', 'TNFW.py', 'sis.py', 'globular_cluster.py', 'blackhole.py')],
  [('lensing_quantities loop', R), ('name list / keyword list of each halo class', HM)])

p('P09', 'Halo keyword arguments match the lens profile they name',
  'For each halo type, the keyword arguments it emits are exactly the parameter names of the lens profile whose name it emits, in every configuration of that halo type, with the angular sky position of the halo as the profile centre.',
  ['configurations', 'inputs'], 'for every halo class and configuration branch',
  'The lensing package is not part of the build; a misspelt or missing keyword is only detected when that profile is evaluated by it.',
  [HM + f for f in ('TNFW.py', 'NFW.py', 'TNFWFromParams.py', 'PsuedoJaffe.py', 'ULDM.py', 'gaussianhalo.py', 'NFW_core.py', 'NFW_core_trunc.py', 'TNFWemulator.py', 'generalized_nfw.py', 'powerlaw.py', 'blackhole.py', 'globular_cluster.py', 'core_collapsed_halo.py', 'sis.py')],
  [('lensing parameters of each halo class', HM)])

p('P10', 'Physical halo sizes become lensing arguments with the right units and redshift',
  'The lensing arguments of a halo are the physical profile parameters of that same halo converted with the angular scale and critical density of its own redshift: radii in kpc are divided by kpc-per-arcsecond at the halo redshift, deflection angles and convergences follow from the central density and scale radius, and the concentration, infall redshift, truncation radius and core size of the halo are the ones used.',
  ['inputs'], 'for every mass, redshift, position and parameter value of each halo type',
  'Unit and redshift mistakes are continuous errors over all inputs; no stable test computes a lensing argument.',
  [LC, HM + 'TNFW.py', HM + 'NFW.py', HM + 'PsuedoJaffe.py', HM + 'ULDM.py', HM + 'gaussianhalo.py', HM + 'NFW_core.py', HM + 'NFW_core_trunc.py', HM + 'generalized_nfw.py', HM + 'powerlaw.py', HM + 'blackhole.py', HM + 'globular_cluster.py', HM + 'sis.py'],
  [('profile parameters and their angular conversion', LC)])

p('P11', 'Rescaling a halo scales its entire lensing amplitude exactly once',
  'For halo types with a rescalable (NFW, cored NFW or truncated NFW) profile, rescaling the normalization multiplies the amplitude argument of the lens profile, the reported density normalization and the bound mass by exactly the given factor; a repeated request without force changes nothing and a forced or previously unlogged one multiplies again. For the other types the amplitude is scaled by exactly that factor or not at all. In every case shape arguments and position are unchanged, whether or not the halo was read before.',
  ['histories', 'inputs'], 'for every halo type, every rescaling factor and every listed history of requests',
  'No stable test rescales a halo; a class that ignores or squares the factor is otherwise indistinguishable.',
  [HB] + [HM + f for f in ('TNFW.py', 'NFW.py', 'PsuedoJaffe.py', 'ULDM.py', 'gaussianhalo.py', 'NFW_core.py', 'NFW_core_trunc.py', 'generalized_nfw.py', 'powerlaw.py', 'blackhole.py', 'globular_cluster.py', 'sis.py', 'TNFWemulator.py')],
  [('normalization factor multiplied into the amplitude argument', HM)])

p('P12', 'Model names select the documented model and unknown names are errors',
  'Each documented name of a preset, mass function, concentration-mass relation, truncation model, mass definition or population model selects the model documented for that name with its documented default settings (differing for subhalos and field halos where documented), a class given instead of a name is used as is, and any other name raises an error instead of silently selecting something.',
  ['configurations'], 'for every documented name and every other string',
  'There are over fifty names across seven dispatchers; stable tests touch six.',
  ['pyHalo/preset_models.py', 'pyHalo/mass_function_models.py', 'pyHalo/concentration_models.py', 'pyHalo/truncation_models.py', R, RE + 'halo_population.py', 'pyHalo/defaults.py'],
  [('name dispatchers', 'pyHalo/preset_models.py'), ('halo model table', R)])

p('P13', 'Preset parameters reach the population they describe',
  'In every preset, each physical argument (redshifts, normalizations, slopes, mass limits, cone angle, host mass, halo profile names, concentration and truncation models, dark-matter parameters) affects exactly the population and quantity it is documented for: subhalo settings only subhalos, field settings only field halos, and the settings shared with cold dark matter behave as in the cold-dark-matter preset.',
  ['configurations', 'inputs'], 'for every preset and every argument value',
  'Presets have 20-40 arguments passed through several dictionaries; a swapped or dropped one yields a plausible realization.',
  [PM + f for f in ('cdm.py', 'wdm.py', 'sidm.py', 'uldm.py', 'external.py', 'mbh.py')], [('preset functions assembling the arguments of the renderer', PM)])

p('P14', 'Calls leave their inputs and defaults untouched',
  'Creating or deriving realizations, populations and models never modifies dictionaries, lists, arrays or halos passed in by the caller, nor the default argument values of any function, so that a later call with default or re-used arguments behaves as if it were the first one; only operations documented to modify an object in place do so.',
  ['histories'], 'for every sequence of calls in one process',
  'It is a property of call histories (the second call sees the leftovers of the first); tests make one call per configuration.',
  ['pyHalo/pyhalo.py'] + [PM + f for f in ('cdm.py', 'wdm.py', 'sidm.py', 'uldm.py', 'external.py', 'mbh.py')] + [R, E, LC, RE + 'rendering_class_base.py', RE + 'subhalos.py', RE + 'line_of_sight.py', RE + 'two_halo.py'],
  [('copies taken before settings are modified', RE)])

p('P15', 'Rendered populations are consistent arrays with the right conventions',
  'Every rendered population returns equally long arrays of masses, x, y, three-dimensional radii, redshifts and subhalo flags; subhalos are flagged as such and sit at the lens redshift, field halos are not flagged and take the redshift of the plane whose mass function and volume they were drawn from; combining populations concatenates all of these arrays in the same order.',
  ['inputs', 'configurations'], 'for every combination of populations, geometry and random state',
  'Rendering needs the full pipeline, which no stable test runs; a mis-ordered or truncated array gives a plausible realization.',
  [RE + f for f in ('halo_population.py', 'subhalos.py', 'line_of_sight.py', 'two_halo.py', 'rendering_class_base.py')] + ['pyHalo/pyhalo.py'],
  [('population rendering and concatenation', RE + 'halo_population.py')])

p('P16', 'Mass sheets are negative and match the population they compensate',
  'Every compensating mass sheet has negative convergence (minus the scale parameter of its own population times the mean rendered mass per area over the critical surface density at the sheet redshift), is evaluated with the configured mass limits and profile of that population, and is centred on the rendering axis; field-halo sheets exist only on planes inside the configured redshift range, and subhalo sheets only at the lens plane.',
  ['inputs', 'configurations'], 'for every population, geometry and mass-sheet setting',
  'Sign, scale and centre errors shift the lensing convergence by a smooth amount; no stable test evaluates a mass sheet.',
  [R, RE + 'line_of_sight.py', RE + 'subhalos.py', RE + 'two_halo.py'], [('mass sheet computation of each rendering class', RE), ('mass sheet assembly', R)])

p('P17', 'Seeding numpy makes every realization reproducible',
  'All randomness of the library is drawn from the global numpy generator and nothing else that varies between runs (clock, process identity, hash order, other generators, reseeding) influences positions, masses, tags or profile parameters, so seeding that generator fixes every realization.',
  ['histories', 'configurations'], 'for every seed and every configuration',
  'It quantifies over processes and seeds; a hidden second source only shows between separate runs.',
  ['pyHalo'], [('draws through the global numpy generator', 'pyHalo')])

p('P18', 'Mass functions draw within their limits and with their stated normalization',
  'Every sampled halo mass lies between the configured minimum and maximum, the expected number and the moments used for mass sheets are those of the same normalization, slope and limits that are sampled, and the number of objects is a Poisson draw of the expected number if and only if Poisson sampling is requested.',
  ['inputs'], 'for every normalization, slope, limits and random state',
  'Bounds must hold for every random draw; tests draw one sample of two of the mass functions.',
  [MF + f for f in ('mass_function_base.py', 'gaussian.py', 'delta_function.py', 'stucker.py', 'density_peaks.py', 'util.py')], [('inverse-transform sampling and moments', MF)])

p('P19', 'Dark-matter suppression only thins the cold-dark-matter population',
  'Suppressed (warm, mixed, fuzzy) mass functions start from a cold-dark-matter sample with the same normalization, slope and limits and keep each object with a probability that is a non-decreasing function of its mass, so that they never produce an object outside the cold sample; the variants of one mass function agree with each other in everything except the suppression.',
  ['inputs'], 'for every half-mode mass, shape parameters and random state',
  'A statistical statement per draw across five classes; no stable test compares the variants.',
  [MF + f for f in ('mass_function_base.py', 'stucker.py', 'density_peaks.py')], [('rejection of cold draws against the suppression factor', MF)])

p('P20', 'Spatial draws stay inside the rendered region and use one scale',
  'Positions drawn for a population stay inside the projected rendering radius for that population and redshift (up to the stated smoothing kernel for positions drawn from a pixelated density), the angular and physical coordinates of one object refer to the same redshift and are converted with the same scale for x and y, the number of positions equals the number requested, and an offset centre moves the whole distribution.',
  ['inputs'], 'for every number of objects, redshift, geometry and random state',
  'It must hold for every random draw; one stable test draws from one distribution.',
  [SD + f for f in ('uniform.py', 'nfw.py', 'correlated.py')], [('draw methods of the spatial distributions', SD)])

p('P21', 'Cosmological unit conversions follow their definitions',
  'Conversions between angles and physical lengths, comoving and proper distances, comoving and proper volumes and densities, virial and half-mode masses, critical surface densities and deflection angles follow their definitions, with every factor of the Hubble parameter, scale factor (1+z), solid angle and unit appearing exactly as the definition requires, for all redshifts and masses.',
  ['inputs'], 'for every redshift pair, mass and cosmology',
  'A wrong power of h or (1+z) is a smooth error that vanishes in the units or at the redshifts a test happens to use; stable tests evaluate none of these.',
  [LC, CO, GE], [('conversion functions', LC), ('distance functions', CO), ('cone geometry', GE)])

p('P22', 'Concentrations are floored, and scattered only when requested',
  'Every concentration-mass relation returns a value no smaller than its documented minimum, multiplies log-normal scatter if and only if scatter is requested, evaluates the underlying relation at the requested mass and redshift, the interpolation tables of the tabulated relations hold that relation, cover every mass and redshift requested and interpolate between the nodes around the request, and warm-dark-matter relations equal the cold relation built from the same settings times the documented suppression factor (a function of mass over half-mode mass, and of redshift where that evolution is requested).',
  ['inputs', 'configurations'], 'for every mass, redshift, scatter setting and half-mode mass',
  'Holds for every mass and random state; the stable tests check a few masses without scatter.',
  [CN], [('floor and scatter applied in the common entry point', CN)])

p('P23', 'Every reachable name, attribute, import and call signature resolves',
  'No supported configuration, halo type or method of the library fails because the code refers to a variable, imported name, module attribute, method, property or keyword argument that does not exist, or calls one of its own functions with arguments it cannot accept.',
  ['programs', 'configurations'], 'for every function and every path of the package',
  'Only executed lines can fail in a test; most of the package is not executed by the stable tests.',
  ['pyHalo'], [('definitions and imports of the package', 'pyHalo')])

p('P24', 'Truncation models use their own halo and respect the bound mass',
  'Every truncation model evaluates the halo it was given: its own mass, concentration, evaluation redshift, three-dimensional position and infall time enter the documented relation, and the entry points of a model (for a halo, for given parameters, for a given bound mass) agree. Bound masses never exceed the infall mass; in the models based on bound masses one bound mass is drawn per halo, the truncated profile returned contains exactly that bound mass, and the density normalisation of the halo is rescaled by the factor that belongs to it. Arguments of calibrated tables are looked up on their own axis and limited to the calibrated range; the closed-form mass profiles integrate their density profiles, the logarithmic slope is the derivative of the truncated density, and the radius returned for a slope is a radius at which the profile has that slope.',
  ['inputs', 'configurations'], 'for every halo and every truncation model',
  'Bounds must hold for every random draw of bound mass and every halo; stable tests evaluate no truncation model.',
  [TT, 'pyHalo/Halos/tnfw_halo_util.py', 'pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py', 'pyHalo/Halos/galacticus_truncation/interp_mass_loss.py', HM + 'TNFW.py'], [('truncation models', TT)])

p('P25', 'Answers do not depend on earlier queries',
  'Whatever the cosmology, geometry and lens-cosmology objects, the infall models, the concentration and truncation relations and the module-level tables remember (memo dictionaries, lazily built interpolators, tables kept in module variables, memoised functions) is keyed on, or independent of, every argument of the query and of the object asked, so the answer to a query never depends on which queries were made before, on this object or on another; a table that is kept is used only for the profile it was built for and inside its range.',
  ['histories', 'inputs'], 'for every pair of queries on the same or on different objects',
  'Order-dependence needs at least two different queries in a particular order; the stable tests make one kind of query on fresh objects.',
  [CO, LC, GE, 'pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py', 'pyHalo/Halos/batch_halo_util.py'], [('memo attributes and interpolation tables', CO)])

p('P26', 'Infall redshifts and elapsed times are consistent',
  'A subhalo draws its infall redshift once, from the configured infall model, with its own infall mass, unless one was given with its parameters or assigned, in which case that one is used; field halos have none and refuse to be assigned one. For every infall model except INFALL_0 and user-defined ones, the draw is at or above the lens redshift for every subhalo mass, depends on the mass only through its ratio to the host mass, follows a law whose mean and width are positive and grow towards smaller mass ratios, and outside the calibrated range of ratios keeps the law of the end of the range. Time since infall and age are the times elapsed between infall (formation at z=10) and the redshift of the halo; elapsed times add up and are zero before formation; the SIDM effective age is the time from formation to infall plus lambda_t times the time since infall.',
  ['inputs', 'configurations'], 'for every halo, infall model and random state',
  'Holds for every random draw and for field and subhalos; no stable test builds a halo.',
  [HB, LC, 'pyHalo/Halos/accretion.py', 'pyHalo/Cosmology/cosmology.py'], [('infall model and evaluation redshift', HB)])

p('P27', 'Imported simulation subhalos are filtered and rotated consistently',
  'When subhalos are imported from semi-analytic simulation output, one and the same selection (tree, subhalo status, mass range, projected radius) is applied to every imported quantity so that masses, positions, concentrations and truncation data of one object stay together, and projected coordinates come from a single rotation of the positions. Nodes read from a file carry the index and order of their own tree (also when there is one tree), a user-supplied naming of the columns or selection is honoured throughout, the line of sight is rendered with the settings of the import and without a second subhalo population, and subhalos supplied by an emulator keep their own mass, position, concentration and infall redshift, with NFW parameters that enclose their mass, in the requested aperture.',
  ['inputs'], 'for every simulation file, selection range and rotation angle',
  'Misaligned arrays remain plausible and the data files are not part of the tests.',
  [PM + 'external.py', 'pyHalo/Halos/galacticus_util/galacticus_util.py', 'pyHalo/Halos/galacticus_util/galacticus_filter.py'], [('selection masks and rotation', 'pyHalo/Halos/galacticus_util/galacticus_filter.py')])

p('P28', 'Precomputed halos equal halos evaluated on demand',
  'Precomputing halos in bulk (infall times, concentrations, NFW parameters, truncated profiles of subhalos and field halos, bound masses, evolving self-interacting profiles, or a whole realization) leaves every halo with the same concentration, infall redshift, elapsed time, bound mass, density profile parameters, normalization and profile arguments it would have computed by itself on demand - the same numbers where the computation is deterministic, the same probability law with independent draws per halo where it is random. Whatever one halo has already computed or been given is kept; each halo gets its own values, never those of another one; and halos the batch routines do not support, or that use another truncation model than the realization, are left as they were.',
  ['inputs', 'configurations', 'histories'], 'for every list of halos, concentration model, infall model, truncation model and tabulated range, including halos partly evaluated before',
  'Every batch routine re-implements the physics of several scalar methods with array operations, and a mismatch stays numerically plausible; the stable tests do not import the batch module at all.',
  ['pyHalo/Halos/batch_halo_util.py', HB, HM + 'TNFW.py', HM + 'NFW_core_trunc.py', TT, CN], [('vectorized counterparts of the halo properties', 'pyHalo/Halos/batch_halo_util.py')])

p('P29', 'Core collapse selects and transforms the intended halos',
  'Extensions that turn halos of a realization into core-collapsed or self-interacting halos act only on eligible dark halos of the requested kind and mass range, each with exactly the requested probability and, where a collapse timescale is given, only once the age of the halo in units of the timescale of its own mass bin, kind and cross section reaches the threshold. Converted halos keep mass, position, redshift, tag, subhalo status and cosmology of the halo they replace and carry the requested collapse parameters; all other halos are passed on unchanged, every halo appears exactly once, and inconsistent options are refused rather than ignored.',
  ['inputs', 'configurations'], 'for every population of halos, mass range, probability, cross section and random state',
  'Selections are random and per halo, so a wrong bin, probability or timescale leaves a plausible realization; the stable tests build no halos.',
  [E, HB, HM + 'NFW_core_trunc.py', HM + 'generalized_nfw.py', HM + 'core_collapsed_halo.py'], [('core collapse selection and conversion', E)])

p('P30', 'Objects added to a realization follow the matter they are added to',
  'Black holes, globular clusters, primordial black holes, correlated structure and wave-interference fluctuations added to a realization have the stated number, mass and place: a black hole sits in its own host, with the stated probability, within its scale radius, at its redshift and with the given fraction of its mass, and unresolved halos are populated plane by plane; clusters are drawn around every centre with the mean number that gives the stated surface density; the unclustered primordial black holes hold the stated dark matter fraction of the cone around each image and the clustered ones the stated fraction of the mass of the halos in the region, placed following their surface density, while exactly the halos inside a region lose that fraction, once; fluctuations fill the stated region with the stated number, size and amplitude, reduced consistently when their number is capped.',
  ['inputs', 'configurations'], 'for every realization, set of images, mass function and random state',
  'The additions are random, use lensing software that the tests cannot import and look plausible with a wrong area, volume, radius or redshift; no stable test calls them.',
  [E, RE + 'correlated_structure.py', MF + 'delta_function.py', MF + 'gaussian.py', SD + 'uniform.py', HM + 'blackhole.py', HM + 'globular_cluster.py', HM + 'gaussianhalo.py'], [('objects added to a realization', E), ('correlated structure', RE + 'correlated_structure.py')])

p('P31', 'Light rays and lensing utilities use matching planes, distances and formulas',
  'A light ray traced through the lens planes leaves the observer in the direction of its image, stops at every lens plane once in order of redshift and at the source, each step continuing from the position, angle and redshift of the step before; the returned positions and transverse comoving distances belong to the same planes, and with a source position the ray ends on the source. The interpolated angle of an image is its position over the distance (the image position at the observer), in the given cosmology, one per image and never with x and y exchanged; the mean ray is the average over images at each distance. The multiplane convergence map is the convergence of macromodel plus halos, each with its own arguments and redshift, less that of the macromodel on the same grid, and what was used is returned. The annular mask keeps the stated annulus around its centre. The squared NFW density integrated along the line of sight, the wave-interference surface density and convergence amplitudes, and the NFW velocity dispersion follow their stated definitions and units for every radius, as do the de Broglie wavelength and the minimum halo mass of ultra-light dark matter, and a sampler asked for one sample returns a number and otherwise as many samples as asked.',
  ['inputs', 'configurations'], 'for every lens model, image position, cosmology, source position, radius and halo parameter',
  'These helpers need lensing software the tests cannot import, and a swapped coordinate, a distance of another plane or a default cosmology shifts every halo placed along a ray without an error.',
  ['pyHalo/utilities.py'], [('ray paths', 'pyHalo/utilities.py'), ('lensing utilities', 'pyHalo/utilities.py')])

p('P32', 'Two-point statistics of a convergence map measure what they name',
  'The correlation of a convergence map at a separation r and orientation pairs the values at the two points a distance r apart, on either side of each pixel and at the angle of cosine mu to the radial direction, uses only pairs for which both points lie inside the mask, subtracts the product of the masked means, divides by the area stated for the mask or the window, and with normalization by the standard deviations of the two point sets, so that a map is perfectly correlated with itself at zero separation; every separation and orientation has its own entry. The multipole of order l is the projection on the Chebyshev polynomial of that order, each value paired with its own angle, with weight 1/pi for the monopole and 2/pi otherwise; the power spectrum multipole is the Hankel transform of the same order with prefactor 2 pi (-i)^l, zero separation left out of both arrays; the power law is fitted to the values strictly inside the stated range around its pivot.',
  ['inputs', 'configurations'], 'for every map, window, mask, set of separations and orientations and multipole order',
  'The statistics are compared with data by shape, and a wrong mask, area or angle order changes them without an error; their module needs software the tests cannot import.',
  [E], [('two-point statistics', E)])

p('P33', 'Summary plots show the population they describe',
  'Every plotting routine shows the quantities of the halos it documents: subhalo positions x against y, subhalo (or field halo) mass functions, infall masses, concentrations and bound masses select exactly the halos of the stated kind, redshift and mass range, each halo once with its own values; histograms cover the stated range with the stated number of bins, logarithms are taken of the quantity named on the axis, and convergence maps use the window, resolution and macromodel given. The light-cone plot draws every halo once at its own comoving coordinates and the given rays along their own paths. Drawing a plot leaves the realization as it was and uses the given axis.',
  ['inputs', 'configurations'], 'for every realization, mass range, redshift, window and number of bins',
  'A plot with a wrong selection or exchanged axes still looks plausible; the module needs matplotlib and lensing software and no stable test imports it.',
  ['pyHalo/plotting_routines.py'], [('summary plots', 'pyHalo/plotting_routines.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    print(len(P))
