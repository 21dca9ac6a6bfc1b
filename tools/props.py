#!/usr/bin/env python3
"""Single source for properties.jsonl (the property list and its anchors)."""
import json, os
S = 'src/craterstats/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None)))

p('C01', 'Every crater is counted exactly once, in the bin that contains it',
  "For every list of diameters and every binning style the bins are contiguous, ascending and lie on the published boundary grid of that style (unbinned: one zero-width entry per crater), and each crater is counted in exactly the one bin whose half-open interval contains its diameter, none being lost or counted twice, even on or within one rounding step of a boundary. Counts weighted by crater fraction, event counts, bin widths, geometric-mean diameters and cumulative sums agree with that assignment.",
  ['inputs', 'configurations'], "all diameter lists (incl. diameters on bin boundaries and their floating-point neighbours), fractions, all 7 binning styles",
  "The unit tests bin two or three fixed lists; whether a boundary crater survives depends on rounding of individual diameters and on the style, which only a sweep over boundaries shows.",
  ['Cratercount.py'], [('generate_bins', 'Cratercount.py'), ('apply_binning', 'Cratercount.py')],
  ['the histogram columns of a crater count after a binning was applied'],
  [('binned', 'current histogram columns', 'Cratercount.py')])

p('C02', 'Answers from a crater count do not depend on what was asked before',
  "For every sequence of binning, plot-point, range-decoding, age and fit queries made on one crater count (binned or pre-binned) in any order, each answer equals the answer a freshly loaded count gives to the same query. The craters, fractions, area and perimeter of the count never change.",
  ['histories'], "all query sequences over one count object, with alternating binnings, presentations, ranges and analyses",
  "The histogram is cached inside the count object and reused while the requested binning is unchanged; tests make one or two queries per object and never compare with a fresh one.",
  ['Cratercount.py', 'Craterplot.py', 'Craterpdf.py'],
  [('cached binning test in getplotdata/decode_range', 'Cratercount.py'), ('resurf_adj works on copies', 'Cratercount.py'), ('calculate_age', 'Craterplot.py')],
  ['return values of the count and overplot queries'],
  [('binning/binned', 'cached binning name and its histogram', 'Cratercount.py')])

p('C03', 'Diameter ranges select what the user wrote',
  "A range limit bN or b-N means the N-th non-empty bin from the small or large end (clamped to the existing bins), and with snapping each limit moves outward to the boundary of the bin containing it, to the nearest existing bin or to no limit when beyond the data; bin references always snap. Without snapping, and for unbinned data, plain limits are used exactly as given, 'inf' means unbounded, and the upper limit never ends below the lower one.",
  ['inputs', 'configurations'], "all counts, binnings, numeric/bin-reference/infinite limits, snap on or off, limits on or next to bin boundaries",
  "Tests decode six ranges on one sample file; the interplay of clamping, negative references, boundary-touching limits and empty bins needs the whole case space.",
  ['Cratercount.py'], [('decode_range', 'Cratercount.py')], ['decoded range of an overplot'])

p('C04', 'Plotted points carry the density, error and count of their bins',
  "For every count, binning, presentation and range the plotted points are exactly the non-empty bins whose mean diameter lies strictly inside the range, each at the defined diameter (bin minimum for cumulative, geometric mean otherwise) with the defined density (cumulative, incremental, differential with slope-based bin-bias correction, R, Hartmann) and error density/sqrt(events). The reported crater totals are the sums over exactly those bins and the reported bin extent encloses them.",
  ['inputs', 'configurations'], "all counts, binnings, five presentations, ranges, with and without production function, show-all flag",
  "Tests check a handful of numbers for one file and one binning; the formulas must hold for each bin of each count.",
  ['Cratercount.py', 'miscellaneous.py'], [('getplotdata', 'Cratercount.py'), ('bin_bias_correction', 'miscellaneous.py')],
  ['plot data of a count'])

p('C05', 'Poisson ages obey the Poisson law of the craters in range',
  "The age distribution for a diameter range depends on the count only through the number of craters k with lower <= d < upper (for pre-binned counts: events in the bins inside the range), the area (plus perimeter and diameter terms for buffered counts) and the chronology model: its quantiles are those of the likelihood lambda^k exp(-lambda) weighted by the impact rate, lambda being the expected number of craters in the range at that age. Hence reported lower, median and upper ages are ordered, do not depend on crater order or binning, and more craters or a smaller area never make the surface younger; a buffered analysis without a known perimeter is refused.",
  ['inputs', 'configurations'], "all counts, ranges on/off crater diameters, k from 0 up to thousands, areas, all shipped chronology systems, standard and buffered analysis",
  "Tests compare one age for one file; the law has to hold across k, ages up to the 5 Ga limit, functions and areas.",
  ['Craterpdf.py', 'Craterplot.py', 'gm/maths/poisson.py'], [('Craterpdf.__init__', 'Craterpdf.py'), ('t / median1sigma', 'Craterpdf.py'), ('calculate_age', 'Craterplot.py')],
  ['k, percentiles and cumulative distribution of an age analysis'])

p('C06', 'Chronology functions follow their published coefficients and invert',
  "For every chronology system, the crater density at an age is the published coefficient formula, strictly increasing with age, the reported impact rate is its exact derivative, and converting density (or its logarithm) back to age returns the age up to the interpolation accuracy, over 0-5 Ga; densities beyond 5 Ga give 5 Ga. Curves plotted for the chronology and rate presentations are samples of the same functions.",
  ['inputs', 'configurations'], "all shipped and user-defined coefficient chronologies, all ages 0-5 Ga, scalars and vectors",
  "Tests evaluate one system at a couple of ages.",
  ['Chronologyfn.py'], [('N1/phi/a0/t', 'Chronologyfn.py'), ('getplotdata', 'Chronologyfn.py')], ['chronology function values'])

p('C07', 'Production functions are consistent across presentations',
  "For every production and equilibrium function and diameter in its range, the cumulative form is ten to the published polynomial in log diameter with its constant replaced by the isochron's (tabular: interpolated suffix sums of the tabulated increments normalised at 1 km), the differential form is minus its derivative, the R form is the differential times d^3 and the Hartmann form the differential times d(2^(1/4)-2^(-1/4)) (tabular: the interpolated increments, and their bin-bias-corrected densities as differential form). Raising the constant by c multiplies every form by 10^c, and plotted curves are samples of these forms over the function's range clipped to the requested one.",
  ['inputs', 'configurations'], "all shipped production/equilibrium functions and user polynomials, all diameters in range, constants, presentations",
  "Tests check a single function at single points.",
  ['Productionfn.py'], [('polynomial_*/hartmann_calc', 'Productionfn.py'), ('evaluate', 'Productionfn.py'), ('getplotdata', 'Productionfn.py')], ['production function values and curves'])

p('C08', 'Isochron fits recover the isochron and its stated errors',
  "A cumulative or differential fit gives the least-squares constant of the function family in log density with the stated weights (square root of density, respectively of its error, as inverse sigma), so that data lying on an isochron return it exactly, scaling all densities shifts it by the logarithm of the scale, and the upper and lower values follow from the first point's error bar. The resurfacing correction adds the one constant cumulative density that makes the largest plotted diameter agree with the fitted isochron, to the stated tolerance, and fits to an empty range are refused.",
  ['inputs', 'configurations'], "all counts, ranges, single-bin and multi-bin fits, functions, with and without resurfacing",
  "Tests check two fitted constants for one file; optimality and shift laws hold for all data.",
  ['Productionfn.py', 'Cratercount.py', 'Craterplot.py'], [('fit', 'Productionfn.py'), ('resurf_adj', 'Cratercount.py'), ('calculate_age', 'Craterplot.py')], ['fitted constants, resulting ages, corrected plot points'])

p('C09', 'Count files are read faithfully whatever their layout',
  "Reading a crater file yields exactly the diameters and fractions of its rows as pairs, and its area (and perimeter where given), independent of row order, column order, extra columns, comments, blank lines, byte-order mark, quoting and line endings; a missing fraction column means fraction one and a reference-area column makes a buffered count with weights 1/area. Pre-binned tables give their rows as bins, and unreadable or unknown files end with an error message instead of a result.",
  ['inputs'], "all files of the .diam, .scc, .stat layouts generated by the file grammar, with permutations of rows and columns, comments, extra columns, defective files",
  "Tests read the shipped sample files only.",
  ['Cratercount.py', 'Spatialcount.py', 'gm/file/read_textstructure.py', 'gm/file/read_textfile.py'], [('ReadDiamFile/ReadSCCfile/ReadStatFile', 'Cratercount.py'), ('readSCCfile', 'Spatialcount.py')], ['attributes of the loaded count'])

p('C10', 'Overplot settings carry over exactly as documented',
  "In a command line with any sequence of overplots, an item not given keeps the value of the preceding overplot for source, symbol, snapping, isochron flag, error bars, colour, binning and, unless a new source is named, analysis type, and its default otherwise; items given apply to that overplot and (for the carried ones) the following ones only. Settings of one overplot never change an earlier one, the first overplot must name a source, and sequence plots default to Poisson analysis, other plots to data.",
  ['programs', 'configurations'], "all sequences of overplot clauses with any subset of keys, abbreviated or not, in data and sequence presentations",
  "Tests run one fixed command; the carry-over rule is a small state machine over clause sequences.",
  ['cli.py', 'constants.py'], [('construct_plot_dicts', 'cli.py'), ('CARRY_OVER_PROPERTIES', 'constants.py')], ['overplot dictionaries built from a parsed command line, summary table of a run'],
  [('previous overplot', 'values carried over', 'cli.py')])

p('C11', 'Abbreviations select the intended name or are refused',
  "Any abbreviation (letters appearing in order, case ignored) of a presentation, chronology system, equilibrium function, epoch system, overplot key, analysis type, binning, colour or symbol selects the shortest matching name, the earliest on ties; where ambiguity is not accepted it is refused. Input that matches nothing is refused with an error, and a refused command leaves no output files.",
  ['inputs', 'configurations'], "all abbreviations over all name lists, exact names, mixed case, non-matching strings",
  "Tests try a few abbreviations of a few names.",
  ['cli.py', 'constants.py'], [('decode_abbreviation', 'cli.py'), ('construct_cps_dict / construct_plot_dicts', 'cli.py')], ['selected names, exit status, files written'])

p('C12', 'A saved command file reproduces the command',
  "For every accepted command line the saved .cs file, replayed with -i (also from another directory for relative sources, and with comment or blank lines added), gives the same settings and overplots as the original command and the same results, and is itself not overwritten. Included setting files behave as if their contents stood in the command line at that place.",
  ['programs', 'configurations'], "all command lines composed of supported options with titles/names/paths containing spaces, quotes, hashes, leading hyphens, commas, negative numbers",
  "Tests never replay a saved command file.",
  ['cli.py'], [('cs_content in main', 'cli.py'), ('LoadFromFile', 'cli.py')], ['text of the .cs file, settings parsed back, csv results'])

p('C13', 'A run writes exactly the documented files with the documented names',
  "A run creates, for the requested formats only, image files and the results table under the output name (default: source or chronology name with presentation suffix; inside the directory when a directory is given; an extension adds to the default formats), plus one .cs file unless replaying, and nothing else. The results table holds one row per age analysis in overplot order with its method, range, counts, age, errors and densities equal to the analysis results at the printed precision and ranked by age.",
  ['programs', 'configurations'], "presentations x formats x output name forms (absent, bare, with extension, with dots, directory, path) x overplot lists",
  "Tests look at one table row and never at the set of files.",
  ['cli.py', 'Craterplotset.py'], [('construct_cps_dict', 'cli.py'), ('set_default_filename', 'cli.py'), ('write_output_files', 'cli.py'), ('create_summary_table', 'Craterplotset.py')], ['directory contents after a run, csv content'])

p('C14', 'Merging and converting counts preserve craters, areas and fractions',
  "A merged file holds the multiset union of the input craters with their fractions and the sum of areas, independent of input order, and reads back as such; converting to a binned table keeps every non-empty bin with its counts, densities and cumulative numbers; converting between spatial text and shapefile form preserves craters (position, diameter), area, perimeter, holes and separate parts within the formats' precision. Unsupported conversions and unsuitable merge inputs write nothing.",
  ['inputs', 'programs'], "all small count files, merges of 2-4 files of mixed types in any order, conversions between all supported pairs, multipart areas with holes",
  "Tests convert nothing and merge nothing.",
  ['miscellaneous.py', 'Cratercount.py', 'Spatialcount.py', 'cli.py'], [('merge_cratercounts', 'miscellaneous.py'), ('WriteStatFile', 'Cratercount.py'), ('writeSCCfile/writeSHPfiles/polygon_to_pts', 'Spatialcount.py'), ('convert_format', 'cli.py')], ['files written by merge/convert, counts read back'])

p('C15', 'Printed numbers are the correctly rounded values in the right unit',
  "Every number formatted to n significant figures denotes the value rounded to n figures, with exactly n figures shown for numbers below 10^n and no exponent; ages use the largest unit in which they are at least one, with errors at one figure fewer in the same unit; densities use a power of ten outside 0.01-10000 with errors at the same power; diameter ranges use m below 1 km and km above; percentiles show equal precision near 0 and 100. Latex and MathML forms state the same numbers.",
  ['inputs'], "all values over ~20 decades, values at rounding carries (9.995, 0.9999...), zero/negative/asymmetric errors, 1-4 figures",
  "Tests format about ten numbers.",
  ['miscellaneous.py', 'gm/string/sigfigs.py', 'gm/string/scientific_notation.py', 'gm/string/diameter_range.py', 'gm/string/percentile_sigfigs.py'],
  [('sigfigs', 'gm/string/sigfigs.py'), ('scientific_notation', 'gm/string/scientific_notation.py'), ('str_age', 'miscellaneous.py'), ('diameter_range', 'gm/string/diameter_range.py'), ('percentile_sigfigs', 'gm/string/percentile_sigfigs.py')], ['returned strings'])

p('C16', 'Automatic axes contain all data and keep the decade aspect',
  "For every set of overplots the automatic axis ranges are the shortest whole decades that contain every plotted point of every overplot with the stated minimum margins, keep the fixed aspect (differential plots two vertical decades per horizontal one, others equal), do not depend on overplot order, and fall back to the defaults when there is nothing to plot; ranges given by the user are used unchanged (Hartmann plots are drawn in the fixed frame of their production function). Tick positions are equally spaced nice steps covering the range with at most the requested number.",
  ['inputs', 'configurations'], "all data extents over many decades, 1-4 overplots, four presentations, user-forced ranges, tick ranges and limits",
  "Tests autoscale one file.",
  ['Craterplotset.py', 'Craterplot.py', 'gm/plotting/ticks.py', 'miscellaneous.py'], [('autoscale', 'Craterplotset.py'), ('get_data_range', 'Craterplot.py'), ('ticks', 'gm/plotting/ticks.py')], ['axis ranges of the plot set, tick lists'])

p('C17', 'Age sequence comparisons are coherent probabilities',
  "The probability that one dated surface is older than another lies in 0-1, complements the reverse comparison, is one half against itself, equals the integral of one age density against the other's distribution, and grows when the older count gets more craters. The sequence table states for every age its probability of being older than the previous one, and the probability that all formed at one time as the share of the joint density of common ages lying below the density of the ages found. Epoch boundaries given as crater densities are the ages at which the chronology model reaches these densities, and boundaries given as times are used as they are.",
  ['inputs', 'configurations'], "all pairs of Poisson analyses (k, area, range, chronology), all shipped epoch systems with all chronology systems",
  "Tests compute no sequence probability and check one epoch list.",
  ['Craterpdf.py', 'Epochs.py', 'Craterplotset.py'], [('calculate_sequence_probability', 'Craterpdf.py'), ('Epochs.__init__', 'Epochs.py'), ('create_sequence_table', 'Craterplotset.py')], ['probabilities, epoch times, sequence table'])

p('C18', 'Monte Carlo randomness trials are independent and schedule-free',
  "A randomness analysis with n trials evaluates n distinct random configurations per bin, however the trials are distributed over worker processes, and gives identical trial lists for any number of workers, any scheduling and any repetition. Trial lists do not depend on which other bins or measures are analysed or in what order.",
  ['schedules', 'configurations'], "all assignments of trials to workers, worker counts 1..8, measure orders, repeated runs",
  "Tests do not run the analysis; duplicates caused by inherited random state do not show in any single value.",
  ['Randomnessanalysis.py'], [('run_trial', 'Randomnessanalysis.py'), ('montecarlo_pp', 'Randomnessanalysis.py'), ('run_montecarlo', 'Randomnessanalysis.py')], ['trial lists per bin'],
  [('random state', 'per-process generator state', 'Randomnessanalysis.py')])

p('C19', 'Randomness measures and scores are what they claim to be',
  "The neighbour measure is the mean over craters of the great-circle distance to the second-nearest other crater among all craters of the bin, and the area measure is the standard deviation of the parts of the counting area nearest to each crater. A bin is analysed exactly when it holds at least three (neighbour) or four (area) craters, and its score is (measure - mean)/standard deviation of its trials, with the percentile being the share of trials below it.",
  ['inputs', 'configurations'], "all crater configurations (sparse, clustered, near the poles and the date line, coincident grid cells), both measures",
  "Tests do not evaluate any measure; the grid-based neighbour search must agree with the exhaustive one for each configuration.",
  ['Randomnessanalysis.py'], [('kth_nearest_neighbour_pp', 'Randomnessanalysis.py'), ('sdaa', 'Randomnessanalysis.py'), ('montecarlo_split', 'Randomnessanalysis.py'), ('calculate_stats', 'Randomnessanalysis.py')], ['measures, statistics per bin'])

p('C20', 'Simulated crater configurations are valid',
  "Every simulated configuration has exactly the requested number of craters, all inside the counting area (never in holes or outside), with no two closer than half the crater diameter, and positions spread uniformly over the area. This holds for areas with holes, of several parts, at high latitude and of small size.",
  ['inputs', 'configurations'], "all areas (convex, holes, multipart, polar), crater numbers, diameters, seeds",
  "Tests do not simulate configurations.",
  ['Randomnessanalysis.py'], [('sprinkle_discs_pp', 'Randomnessanalysis.py'), ('random_points_pp', 'Randomnessanalysis.py')], ['simulated point lists'])

p('C21', 'Randomness results survive interruption and are reused correctly',
  "Finished measures are on disk after each step, so an analysis interrupted at any point keeps the measures already finished; a later run reuses stored trials exactly when at least as many were stored as requested, recomputes otherwise, and never mixes trials of different runs. Writing and reading back preserves the trial lists, trial numbers, bins and scores at the stored precision, for one or both measures.",
  ['crash_points', 'histories'], "all histories of runs (measures, trial numbers) with an interruption before/inside/after any measure",
  "Tests never interrupt, resume or re-read an analysis.",
  ['Randomnessanalysis.py', 'cli.py', 'Cratercount.py'], [('run_montecarlo skip test', 'Randomnessanalysis.py'), ('write/read', 'Randomnessanalysis.py'), ('randomness_analysis loop', 'cli.py')], ['result file, trial lists after resume'],
  [('result file', 'stored trials per measure', 'Randomnessanalysis.py')])

p('C22', 'Text structures parse to the value tree they denote',
  "For every text built from the documented grammar (key = value, lists, ascii tables, text blocks, structures holding these, repeated structure keys forming arrays, comments, quoting) the parsed result is the denoted tree, with entries in file order and repeated keys collected in order. Adding comment lines, trailing comments, blank lines or surrounding spaces does not change the result.",
  ['inputs'], "all texts generated from the grammar to a bounded depth and width",
  "Tests parse four fixed files.",
  ['gm/file/read_textstructure.py', 'gm/file/read_textfile.py', 'gm/string/quoted_split.py', 'gm/string/strip_quotes.py'], [('evaluate/simple_value/merge', 'gm/file/read_textstructure.py'), ('read_textfile', 'gm/file/read_textfile.py')], ['parsed dictionary'])

p('C23', 'Spatial counts use spherical areas, diameters and boundary fractions',
  "For every counting area (with holes, several parts, any latitude, either coordinate type) the area and perimeter are those on the sphere of the stated radius, a crater outline yields its spherical diameter and centre, craters wholly inside have fraction one, craters wholly outside are dropped, and craters cut by the boundary get the linear fraction corresponding to the part of their area inside. Results do not depend on ring orientation, start vertex or the order of shapes.",
  ['inputs', 'configurations'], "all lon/lat boxes with known spherical area, holes, multiparts, craters inside/outside/cut at varying depth",
  "Tests read one shapefile and compare four totals.",
  ['Spatialcount.py', 'miscellaneous.py'], [('readSHPfiles', 'Spatialcount.py'), ('readSCCfile', 'Spatialcount.py'), ('fractional_crater_transform', 'miscellaneous.py')], ['area, perimeter, diameters, fractions of a spatial count'])

p('C24', 'Isochron curves stop at the equilibrium function',
  "An isochron curve is the production function at the constant given by the chronology for its age over the function's range, and with an equilibrium function only those points remain whose density is below 0.8 times the equilibrium density at (the grid point below) that diameter; without one nothing is removed. Isochron lists accept ages with any combination of label suffixes, drawing one curve per valid age and ignoring invalid entries.",
  ['inputs', 'configurations'], "all production x equilibrium functions x presentations x ages, isochron list strings",
  "Tests plot no isochrons with equilibrium.",
  ['Productionfn.py', 'Craterplotset.py', 'gm/idl/value_locate.py'], [('getisochron', 'Productionfn.py'), ('plot_isochrons', 'Craterplotset.py')], ['isochron point lists, drawn curves'])

p('C25', 'The figure draws exactly the analysed data',
  "A crater plot shows of each visible overplot exactly its analysed points, as marks of its own colour and symbol at their diameters and densities, with error bars where asked; of an age fit in addition one curve following the production function at the fitted age over the analysed diameters, the isochron over the whole range and the age label (on the chosen side of the fit) only when requested. Hidden overplots, and unbinned data outside cumulative plots, leave no trace. Earlier overplots lie in front of later ones. The legend has one row for each overplot about which the chosen codes say something, in command order, each beside its own symbol, colour and (for fits) curve, whatever the codes, names and number of overplots. Tick labels and bin boundaries state the position they stand at, and display options (colours inverted, text halo, sizes, styles, ranges) do not change what is shown.",
  ['inputs', 'configurations'], "all numbers and kinds of overplots, symbols, legend codes, names, presentations, binnings, axis ranges and display options",
  "Tests compare a few whole images with a tolerance; no test looks at hidden overplots, legend composition or drawing order.",
  ['Craterplotset.py', 'Craterplot.py', 'cli.py'], [('overplot', 'Craterplot.py'), ('make_legend_label', 'Craterplot.py'), ('draw', 'Craterplotset.py'), ('CreatePlotSpace', 'Craterplotset.py')], ['drawing operations of a figure (positions, colours, texts, order)'])

p('C26', 'Plots against time show ages, epochs and chronologies where they are',
  "In a sequence plot every visible age analysis appears exactly once on each part of the (possibly split) time axis, at its own height in command order from the top, with its name, its age text and its percentiles (distribution, or bar and best fit) at the times the axis says. The axis covers the requested ages once, without gap or overlap, older to the left. Chronology and rate plots show the published curve, scaled to the reference diameter, under matching legend and axis title. Epochs fill, bound and name exactly their own times (on crater plots: the region between their isochrons), and small age distributions beside a crater plot show that overplot's own distribution on a correctly labelled axis. Hidden overplots leave no trace.",
  ['inputs', 'configurations'], "all numbers and kinds of overplots, age ranges and splits of the axis, chronology systems, epoch systems, reference diameters, plot sizes and display options",
  "Tests compare two sequence images and one chronology image with a tolerance; positions, splits of the axis, hidden overplots and epoch systems are not varied.",
  ['Craterplotset.py', 'Craterplot.py', 'Epochs.py', 'Craterpdf.py'], [('create_time_axis_plotspace', 'Craterplotset.py'), ('overplot_sequence_element', 'Craterplot.py'), ('chronology_oplot/sequence_oplot/oplot', 'Epochs.py'), ('plot/violin_plot', 'Craterpdf.py')],
  ['drawing operations of a figure (positions, colours, texts)'])

p('C27', 'Uncertainty maps show what Poisson counting would measure',
  "Every cell of an uncertainty map belongs to the age and area of its place on the axes, its crater number is an independent Poisson draw with the number expected above the minimum diameter, and the measured age and uncertainty shown are those of exactly that number on that area (up to the chronology's end at 5 Ga). The three maps (number, uncertainty, measured/actual age) show the same simulation, each in its own file, coloured as its colour bar says, for the minimum diameter it names, with the regions beyond the whole globe and beyond saturation shaded and named where these limits lie.",
  ['inputs', 'configurations'], "all chronology systems, minimum diameters, age and area ranges, sample numbers, plot shapes, equilibrium functions and random draws",
  "No test draws an uncertainty map with a fixed expectation; the draws are random, so only their distribution over many cells can be judged.",
  ['Craterplotset.py', 'Craterpdf.py', 'cli.py'], [('compute_age_area', 'Craterplotset.py'), ('age_area_plot', 'Craterplotset.py'), ('write_output_files', 'cli.py')],
  ['images, colour bars, axes and shaded regions of the saved figures'])

p('C28', 'Maps and randomness charts show the analysed craters and stored results',
  "A map (converted to an image, or in a cell of a randomness chart) shows the counting area with its holes open, and exactly the craters concerned, each outlined around its own position with its own diameter; its graticule lines are labelled with their own latitude or longitude, also across the antimeridian. A randomness chart has, for every analysed (or selected) size bin in ascending order, one cell of its own with the diameter range, crater number, map of the bin's craters - joined to their second nearest neighbours, or with their cells of the area - and the histogram of exactly the stored trials with the measured value, mean and standard deviation where they are; the last cell shows the score of every analysed bin on the named axis, clustered below separated. Above a crater plot, every visible counted overplot with stored scores shows exactly those in its own colour at the diameters of their bins and the height of their scores, above its data; nothing of the kind appears without stored scores or when switched off.",
  ['inputs', 'configurations'], "all counting areas (shapes, holes, parts, poles, antimeridian), crater sets, bin selections, stored trials and scores, display options",
  "Tests compare three randomness images with a tolerance; selections, holes, antimeridian, axis ranges and several scored overplots are not varied.",
  ['Randomnessanalysis.py', 'Spatialcount.py', 'Craterplot.py', 'Craterplotset.py', 'cli.py'], [('plot_montecarlo_split', 'Randomnessanalysis.py'), ('plot_histogram', 'Randomnessanalysis.py'), ('plot_n_sigma', 'Randomnessanalysis.py'), ('plot', 'Spatialcount.py'), ('oplot_n_sigma', 'Craterplot.py')],
  ['drawing operations of a figure (positions, colours, texts)'])

p('C29', 'Listings show exactly what can be chosen; results depend only on words and files',
  "The listing of models (-lcs) shows exactly the built-in and the user-defined chronology systems, equilibrium functions and epoch systems: a name is accepted if and only if it is listed, and what is chosen is what its file defines at that moment. A configured user functions file stays configured for all later commands from any directory, until another is configured, through edits, removal and restoration of the file; an unreadable or missing file contributes nothing and does not stop anything else. Every listed symbol and colour (-lpc) can be used by its name and its abbreviation, one drawing for each and different ones for different names. A command's messages, files and figures depend on its own words and on the files it reads only, not on commands given earlier in the same process; a refused command writes nothing.",
  ['histories', 'configurations'], "all sequences of configuring, editing, removing and moving with commands of every kind in between",
  "Tests run single commands in a fixed directory and no user functions file; nothing compares a command after others with the same command alone.",
  ['cli.py', 'miscellaneous.py', 'Chronologyfn.py', 'Productionfn.py', 'Epochs.py'], [('main', 'cli.py'), ('set_user_functions_config', 'miscellaneous.py'), ('construct_cps_dict', 'cli.py'), ('demo', 'cli.py')],
  ['listings, messages, files and figures of each command'], [('configured file', 'path of the user functions file kept in the conda environment', 'cli.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    print(len(P))
