#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    if len(title) > 80: print("TOO LONG", id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

H="src/histogram/"; C="src/core/"; D="src/dist/"; F="src/fitutil/"; S="src/systematic/"
prop("C01","A bin axis partitions the number line and finds the bin holding each value",
 "Every accepted axis, equal-width or built from explicit contiguous edges, has ordered contiguous bins whose low edge, high edge, centre and width agree with each other. For every finite value the bin lookup returns the bin with low edge <= value < high edge, values below the axis go to the first bin and values at or above its end go to the last. Definitions with no bins, with inverted or empty range, or with edge lists of different length are refused with an exception.",
 ["inputs"],"all bin counts up to the bound, all finite edges and all finite lookup values",
 "tests look up a handful of literal values on one axis; a value exactly on any edge, outside the range, or on irregular bins is a different branch each time",
 [H+"BinAxis.cpp",H+"BinAxis.h"],[("FindBin lower_bound over low/high edges",H+"BinAxis.cpp"),("constructor validation",H+"BinAxis.cpp")],["BinAxis public getters"])
prop("C02","Global bin numbers and per-axis indices are a bijection that agrees with lookup",
 "For every set of axes, converting a global bin number to per-axis indices and back returns the same number, and converting any in-range index tuple to a global bin and back returns the same tuple. The global bin found for a point is the one whose per-axis indices are the bins found on each axis separately, and the edges and centres reported for a global bin are those of its per-axis bins.",
 ["inputs","configurations"],"all axis counts 1..3 (thorough 4) with every bin-count combination in the bound, all bins, all points",
 "tests use two fixed binnings; an index stride slip shows only for particular unequal bin counts",
 [H+"AxisCollection.cpp",H+"AxisCollection.h"],[("stride arithmetic in flatten / unflatten",H+"AxisCollection.cpp")],["AxisCollection, Histogram public API"])
prop("C03","Histogram fill and arithmetic touch exactly the right bins and conserve content",
 "Filling with a weight adds that weight to the one bin containing the point and to no other, whichever fill form (vector, named, scalar) is used, and the integral is always the sum of the bin contents. Normalising makes the integral one with bin ratios unchanged, scaling multiplies every bin, emptying zeroes every bin, padding replaces only zero bins, and the range integral of a 1D histogram is the sum of the bins from the one holding the lower limit to the one holding the upper limit. Adding (with weight), multiplying or dividing histograms works bin by bin and is refused when the binnings differ.",
 ["inputs","histories"],"all bin contents, weights and points, all short sequences of the operations",
 "tests check single fills of literals; conservation is a statement about every content and every point",
 [H+"Histogram.cpp"],[("Fill/Integral/Normalise/Scale/Add/Multiply/Divide",H+"Histogram.cpp")],["Histogram public API"])
prop("C04","Marginalising and slicing keep exactly the selected content, axis by axis",
 "Marginalising onto any subset and order of axes gives a histogram with those axes in the requested order whose every bin is the sum of all original bins with those indices, so the integral is unchanged. Slicing at fixed bins gives a histogram over the remaining axes whose every bin equals the original bin with the fixed and free indices combined. Unknown axes, and slices that fix every axis, are refused.",
 ["inputs","configurations"],"all bin contents, all subsets/orders of up to 3 axes, all fixed bins",
 "existing slice tests compare only totals, which any permutation of the bins also satisfies",
 [H+"Histogram.cpp",D+"BinnedED.cpp",H+"HistTools.hpp"],[("Marginalise",H+"Histogram.cpp"),("GetSlice / Recurse",H+"Histogram.cpp")],["Histogram/BinnedED public API"])
prop("C05","Out-of-range bins, axes and sizes are refused without touching memory",
 "Any bin number at or past the end, any axis index or name that does not exist, and any point, index or content vector of the wrong length makes the histogram, axis and event-observable accessors throw. They never read or write outside their storage and leave the object unchanged.",
 ["inputs"],"all 64-bit bin and axis indices and all vector lengths in the bound",
 "tests pass in-range values; off-by-one at the exact end needs the one value nobody writes",
 [H+"Histogram.cpp",H+"AxisCollection.cpp",H+"BinAxis.cpp","src/data/Event.cpp"],[("bounds checks before indexing",H+"Histogram.cpp")],["thrown exceptions, memory safety of the accessors"])
prop("C06","Lattice interpolation reproduces the histogram at bin centres and stays in range",
 "For any histogram and any point, the surrounding lattice used for interpolation consists of the neighbouring bin centres that bracket the point on each axis, with the contents of exactly those bins. The interpolated shape constraint equals the stored bin value at every bin centre, is the multilinear blend between centres (never outside the bracketing contents), and never reads a bin that does not exist.",
 ["inputs"],"all contents and all points of 1D and 2D grids, including points in the outer half-bins",
 "tests evaluate a few interior points; the outer half bins and other cells are separate index computations",
 [H+"Histogram.cpp","src/constraint/ShapeInterpConstraint.cpp"],[("GetLatticePointValues",H+"Histogram.cpp"),("multilinear interpolation","src/constraint/ShapeInterpConstraint.cpp")],["ShapeInterpConstraint::Evaluate, Histogram::GetLatticePointValues"])
prop("C07","Projections and slices in bulk cover each axis and axis pair exactly once",
 "Building all one-dimensional or paired histograms from a set of axes gives one histogram per requested name or pair with exactly those axes, and filling them with a named point fills each one in the bin holding its own coordinates. The set of visualisable projections holds every axis once and, above two dimensions, every unordered pair once, each equal to the corresponding marginal; the one-dimensional slices cover every combination of the other axes' bins once.",
 ["inputs","configurations"],"all points and contents on up to 3 axes",
 "tests count the projections of one histogram; contents and pairing are not compared",
 [H+"HistTools.cpp",H+"HistTools.hpp",C+"Combinations.hpp",C+"Combinations.cpp"],[("MakeAllHists / FillAllHists / GetVisualisableProjections / Get1DSlices",H+"HistTools.hpp")],["HistTools public API"])
prop("C08","Events deliver the value stored under each observable name, in any selection",
 "For every event and every ordering or subset of observables, extracting data by name, by index or through an observable set yields exactly the stored values in the requested order, and setting one value changes that one only. Relative indices between two observable sets map each requested name to its position in the other set, and a missing name is refused.",
 ["inputs","configurations"],"all values and all selections/permutations of up to 4 observables",
 "tests use one fixed permutation; an index slip that is identity on that permutation passes",
 ["src/data/Event.cpp","src/data/ObsSet.cpp"],[("GetRelativeIndices","src/data/ObsSet.cpp"),("ToObsSet/GetDatum","src/data/Event.cpp")],["Event, ObsSet public API"])
prop("C09","Cuts accept exactly their region and the cut log accounts for every event",
 "A box cut passes exactly values strictly inside its limits, a line cut exactly the chosen side of its limit, a bool cut exactly its value, and a collection passes an event only if every cut does, never consulting or depending on the order of cuts for the final decision. The cut log attributes each rejected event to the first failing cut, so that logged events always equal passed plus the sum of rejections, with percentages consistent with the counts.",
 ["inputs","histories"],"all event values, limits, cut orders and event sequences in the bound",
 "tests try a few literals per cut; boundary values and multi-event accounting are not covered",
 ["src/cut/BoxCut.cpp","src/cut/LineCut.cpp","src/cut/BoolCut.cpp","src/cut/CutCollection.cpp","src/cut/CutLog.cpp"],[("PassesCut/PassesCuts/CutLog counters","src/cut")],["Cut, CutCollection, CutLog public API"])
prop("C10","Event systematics change only their observable, by the exact rule, in order",
 "Shifting, scaling and reconvolving an event changes only the targeted observable, by adding the shift, multiplying by the scale, or moving the value away from truth by the stated correction, with neutral parameters leaving it unchanged. A manager applies its systematics one after another in the order added, parameters set by name are the ones used, and non-positive factors given to the scale setter, missing observables and unknown parameters are refused.",
 ["inputs","histories"],"all event values and parameters, all pairs/triples of systematics",
 "tests apply one literal shift or scale; ordering and untouched observables need arbitrary values",
 ["src/eventSystematic/EventShift.cpp","src/eventSystematic/EventScale.cpp","src/eventSystematic/EventReconvolution.cpp",F+"EventSystematicManager.cpp"],[("operator() on events","src/eventSystematic")],["EventSystematic, EventSystematicManager public API"])
prop("C11","Filling a distribution counts exactly the events that pass the cuts",
 "Filling a binned distribution from a data set adds one entry, in the bin holding the (systematically shifted) event, for every event that passes all cuts and nothing for any other event, so the increase of the integral equals the number of passing events considered. The cut log of the fill accounts for every event, and only the requested number of events is read.",
 ["inputs","histories"],"all data sets of up to 4 events with arbitrary values, all cut limits",
 "the existing tests never compare a fill against cuts event by event",
 [D+"DistFiller.cpp",D+"BinnedED.cpp"],[("FillDist loop",D+"DistFiller.cpp")],["DistFiller::FillDist, BinnedED contents, CutLog"])
prop("C12","Shrinking by buffer bins keeps or drops exactly the buffered content",
 "Shrinking removes the requested number of bins from each end of each buffered axis and leaves the other axes alone. With overflow treatment on, the content of removed bins moves to the nearest kept bin so the integral is unchanged; with it off, exactly the removed bins' content disappears and every kept bin is untouched, in any number of dimensions.",
 ["inputs","configurations"],"all contents and buffer sizes on up to 2 axes of up to 4 bins",
 "tests use one 1D and one 2D layout with constant contents",
 [F+"BinnedEDShrinker.cpp"],[("ShrinkAxes/ShrinkDist/SetBinMap",F+"BinnedEDShrinker.cpp")],["BinnedEDShrinker public API"])
prop("C13","Event probability is the content of the event's own bin, or the product of parts",
 "The probability a binned distribution assigns to an event is the content of the bin holding that event's observables, wherever those observables sit in the event, and after normalisation the bins sum to one. A composite distribution's probability is the product of its parts and its integral the product of integrals; copies and clones of any distribution answer identically and independently of the original.",
 ["inputs","configurations"],"all contents, event values and observable placements",
 "tests use identical observable order in event and distribution and literal contents",
 [D+"BinnedED.cpp",D+"CompositeED.cpp",D+"AnalyticED.cpp",D+"SpectralFitDist.cpp"],[("Probability / operator* / Clone",D)],["EventDistribution public API"])
prop("C14","Total probability is the normalisation-weighted sum over the held distributions",
 "The probability reported by a distribution manager for an event or bin is the sum over its distributions of normalisation times that distribution's probability, with each normalisation the one set under that distribution's own name, whatever mixture of fitting modes the distributions were added with. Setting, renaming and reading back normalisation parameters addresses exactly one distribution and is never lost when others are added, a copied manager keeps them and goes on independently, and mismatched counts are refused.",
 ["inputs","histories"],"all norms and contents, all mixtures of the three fitting modes of up to 3 distributions",
 "tests only cover uniform modes; mixed mode index bookkeeping has 27 combinations",
 [F+"BinnedEDManager.cpp",F+"EDManager.cpp"],[("fNormalisations / fFittableNorms bookkeeping",F+"BinnedEDManager.cpp")],["BinnedEDManager, EDManager public API"])
prop("C15","Response matrices obey matrix algebra and refuse wrong shapes",
 "Applying a matrix to a vector gives the row-by-column sums of the components that were set, products of matrices act like applying one after the other, the identity changes nothing, scaling scales every component, and clearing zeroes all. Reading a component returns the last value set there; indices outside the matrix, wrong vector lengths and non-square identities are refused.",
 ["inputs"],"all component values of matrices up to 3x3, all 64-bit indices",
 "the only matrix tests go through other classes with near-diagonal literals",
 [C+"SparseMatrix.cpp",C+"DenseMatrix.cpp"],[("Armadillo wrappers",C)],["SparseMatrix, DenseMatrix public API"])
prop("C16","Shift, scale and scale-function move each bin by its exact overlap fraction",
 "Each column of the response of a shift, scale or monotone scale-function systematic holds, for every bin, the fraction of the moved source bin that overlaps it: entries lie between 0 and 1, columns whose moved bin stays inside the axis sum to one, and no column exceeds one. Neutral parameters give the identity, only the targeted axis is affected in any number of dimensions, and results follow the current parameters after any sequence of parameter changes.",
 ["inputs","configurations","histories"],"all parameters and edges in the bound, 1D and 2D, each axis as target",
 "tests check a few literal scale factors against hard-coded contents",
 [S+"Shift.cpp",S+"Scale.cpp",S+"ScaleFunction.cpp",S+"Systematic.cpp"],[("GetBinContribution, bin mapping cache",S)],["GetResponse, Systematic::operator()"])
prop("C17","Convolution's response is the kernel integral, for every axis arrangement",
 "The response entry from one bin to another is the kernel's integral over the destination bin relative to the source centre on the convolved axes if the bins agree on all other axes, and zero otherwise, for any choice, number and order of convolved axes. Repeating the construction after changing parameters reflects the new parameters.",
 ["inputs","configurations"],"all kernel integrals (arbitrary non-negative function of the offsets), every choice and order of axes up to 3",
 "the convolution tests are compiled out without ROOT and use one axis order",
 [S+"Convolution.cpp","src/function/JumpPDF.cpp"],[("block permutation cache",S+"Convolution.cpp")],["GetResponse"])
prop("C18","Shape and renormalisation systematics scale every bin by its own factor",
 "A shape systematic multiplies each bin by the user function evaluated at the bin's centre on the transformed axes with the current parameters, and a renormalisation multiplies every bin by its factor; no content moves between bins. Negative shape values are refused.",
 ["inputs","configurations"],"all function values, parameters and contents, 1D and 2D, each axis subset",
 "tests use one polynomial and one binning, and only one axis subset",
 [S+"Shape.cpp",S+"Renorm.cpp"],[("diagonal response construction",S)],["GetResponse"])
prop("C19","Systematic groups compose in order and reach exactly their distributions",
 "Every distribution is transformed by the general group first where it applies and then by each of its own groups in the declared order, systematics within a group acting in the order added, and by no systematic of another group. The transformed distribution equals applying the responses one after another, and the total content before normalisation is reported when asked for; unknown or duplicated groups are refused.",
 ["inputs","configurations","histories"],"all responses and contents, all assignments of 2 systematics to groups for 2 distributions",
 "tests use commuting or single systematics, for which order and group mix-ups are invisible",
 [F+"SystematicManager.cpp"],[("Construct / DistortEDs",F+"SystematicManager.cpp")],["SystematicManager public API"])
prop("C20","Each constraint contributes its stated penalty for every parameter value",
 "A symmetric Gaussian constraint contributes half the squared deviation in sigmas, an asymmetric one uses the sigma of the side the value lies on, a ratio, fractional or shape constraint the same for the derived quantity, and a bivariate one the correlated quadratic form; all are zero at the central value and never negative. Impossible correlations and missing parameters are refused.",
 ["inputs"],"all finite values, means, positive widths and correlations",
 "tests evaluate a few literal points; sign and side selection depends on region of the input",
 ["src/constraint/QuadraticConstraint.h","src/constraint/BivariateQuadraticConstraint.h","src/constraint/RatioConstraint.h","src/constraint/FractionalConstraint.h","src/constraint/ShapeConstraint.cpp"],[("Evaluate","src/constraint")],["Evaluate of each constraint"])
prop("C21","The constraint total is the sum of every active constraint exactly once",
 "The manager's value for any parameter set is the sum of all constraints set on it, each once: resetting a constraint for the same parameter replaces the old one, and different constraints never shadow each other. Conflicting or incomplete requests are refused and every needed parameter must be present.",
 ["inputs","histories"],"all sequences of constraint settings in the bound with arbitrary numbers",
 "tests set one constraint of each type; overrides and interactions are histories",
 ["src/constraint/ConstraintManager.cpp"],[("SetConstraint / Evaluate","src/constraint/ConstraintManager.cpp")],["ConstraintManager public API"])
prop("C22","The binned likelihood is the extended Poisson likelihood plus constraints",
 "For any data, distributions, normalisations and parameters, the evaluated statistic is the sum over bins of expected minus observed times log expected, plus the constraint penalties, where expected is the normalisation-weighted sum of the (systematically distorted, shrunk) distributions, however these, their groups, rates and managers were handed over; evaluating repeatedly, or after setting other parameters and coming back, gives the same value. With finite Monte-Carlo treatment on, each bin uses the non-negative solution of the Barlow-Beeston equation with its penalty; a zero expected bin or missing data is refused.",
 ["inputs","histories","configurations"],"all contents, norms and data of up to 3 bins and 2 distributions, with buffers, systematics and modes",
 "the likelihood tests are not run without ROOT, and compare one literal value",
 ["src/teststat/BinnedNLLH.cpp",F+"BinnedEDManager.cpp"],[("Evaluate","src/teststat/BinnedNLLH.cpp")],["BinnedNLLH public API"])
prop("C23","A summed statistic is the sum of its parts with shared parameters set once",
 "The value of a sum of statistics is the sum of the parts' values plus its own constraints at the current parameters, whichever way the sum was formed. Its parameter set is the union of the parts' parameters and setting a shared parameter reaches every part that has it.",
 ["inputs","configurations"],"all part values and parameter values, overlapping and disjoint parameter sets",
 "tests add two constant statistics; overlap and constraints are not combined",
 ["src/teststat/StatisticSum.cpp"],[("Evaluate/SetParameters","src/teststat/StatisticSum.cpp")],["StatisticSum public API"])
prop("C24","Fit parameters set by name are read back by name and reach the right target",
 "For every fittable object, setting parameters from a dictionary and reading them returns exactly those values under the same names, counts and name sets agree with the dictionary, and each value acts on the quantity the name denotes. Renaming moves a value to the new name and removes the old one; unknown or missing names are refused, and parameters not owned by the object do not alter it.",
 ["inputs","histories","configurations"],"all values, all components, rename/set sequences in the bound",
 "tests exercise one or two components with one or two literals",
 [C+"ParameterManager.cpp",C+"ComponentManager.cpp",S+"Shift.cpp",S+"Scale.cpp",S+"Shape.cpp",S+"ScaleFunction.cpp","src/function/GaussianFitter.cpp","src/function/SquareRootScale.cpp"],[("SetParameters/GetParameters/RenameParameter",C+"ParameterManager.cpp")],["FitComponent interface"])
prop("C25","Data sets return the events put in, in order, and survive combining and copying",
 "Entries come back in insertion order with the exact values and observable names given, the entry count is the number added, appending joins the second set's entries after the first's, and indices past the end, empty events and events with another number of observables are refused. Events read from a set or copy remain readable by name for as long as that set or copy lives, independent of the lifetime of others, and combining two sets leaves both unchanged.",
 ["inputs","histories"],"all values and all sequences of up to 4 add/append/copy/destroy operations",
 "tests never outlive the original data set nor append sets of different layouts",
 ["src/data/OXSXDataSet.cpp","src/data/LazyOXSXDataSet.cpp"],[("AddEntry/GetEntry/operator+","src/data/OXSXDataSet.cpp")],["OXSXDataSet public API"])
prop("C26","Generated data sets draw the requested counts of genuine events",
 "A generated data set draws, for each source, the requested number of events (the rate rounded, or a Poisson number) and reports that count; of the drawn events it holds those passing the cuts, each an actual event of that source, in the order of the sources. Without replacement no source event is used twice across draws, every unused event is equally likely (or they are taken in order when asked for), events failing the cuts count as used, and the leftover set holds exactly the unused events until a reset. Requests beyond what is left, from an empty source, or without one rate and flag per source are refused.",
 ["inputs","histories"],"all random draws (the generator is an arbitrary value), sources of up to 3 events, sequences of 3 requests with leftovers and a reset",
 "the generator tests are compiled out without ROOT and random draws are sampled once",
 ["src/data/DataSetGenerator.cpp"],[("swap-to-back draw bookkeeping","src/data/DataSetGenerator.cpp")],["DataSetGenerator public API"])
prop("C27","Grid search returns the best of all grid points, corners included",
 "For every statistic and any number of parameters, the grid search evaluates every grid point between minima and maxima at the given steps and reports the parameters and value of the smallest (or, when maximising, largest) one, whatever its sign or value. Inconsistent minima, maxima and step dictionaries are refused.",
 ["inputs","configurations"],"all values of the statistic at each grid point, 1 to 3 parameters with up to 3 points each",
 "no test runs the grid search; the answer depends on where the optimum sits",
 ["src/optimise/GridSearch.cpp"],[("Optimise/Increment","src/optimise/GridSearch.cpp")],["FitResult of Optimise"])
prop("C28","Hamiltonian steps are reversible, stay inside hard walls and use true gradients",
 "Integrating forward, flipping the momenta and integrating the same number of steps returns to the starting point, and one leapfrog step matches its defining equations for any potential. With reflecting boundaries a trajectory starting inside never leaves them and reflection preserves kinetic energy; the numerical gradient of a quadratic is exact, and the soft boundary adds the stated penalty for every limit.",
 ["inputs"],"all positions, momenta, masses and gradients up to 2 dimensions and 2 steps",
 "no unit test covers the integrator; reversibility is a for-all statement",
 ["src/optimise/LeapFrog.cpp","src/optimise/LeapFrog.hpp","src/optimise/Gradient.hpp","src/optimise/SigmoidBoundary.hpp","src/optimise/HamiltonianSampler.hpp"],[("Hamiltonian / FirstIntersectionTime","src/optimise/LeapFrog.hpp")],["LeapFrog, Gradient, SigmoidBoundary public API"])
prop("C29","The Markov chain obeys acceptance, limits and best-fit bookkeeping",
 "At each step the chain moves to the proposal exactly when it lies inside the limits and the acceptance ratio (times the sampler's correction) beats one fresh random draw, otherwise stays; proposals start from the current point and those outside the limits are never evaluated. Every step whose index is above the burn-in and a multiple of the thinning factor is recorded once, at the chain's point after that step, in the full histogram or the one- and two-dimensional projections; the saved chain holds every step. The best fit is the point of the highest value visited, start and last step included; acceptance and rejection rates count steps. The Metropolis sampler moves each free parameter by its own width times a Gaussian draw and never moves a fixed one.",
 ["inputs","histories"],"all proposals, likelihood values and random draws for chains of up to 3 steps (thorough 4) in 1 or 2 parameters",
 "sampler code is not built in the default tests and random behaviour is never compared step by step",
 ["src/optimise/MCMC.cpp","src/optimise/MCMCSamples.cpp","src/optimise/MetropolisSampler.cpp"],[("StepAccepted","src/optimise/MCMC.cpp")],["MCMC, MCMCSamples public API"])
prop("C30","Counting results and credible limits follow from the counted events",
 "A counting experiment reports as observed, signal efficiency and background exactly the passing events over the totals scaled by the given rates, with errors scaling as the square root of passing events and totals adding up (errors in quadrature). The credible upper limit of a one-dimensional posterior is the point below which the linearly interpolated posterior holds the requested probability.",
 ["inputs","histories"],"all event values and rates for up to 3 events; all posterior contents of up to 4 bins and all levels in (0,1)",
 "no unit test covers counting or limits",
 ["src/count/CountingExperiment.cpp","src/count/CountingResult.cpp","src/interval/BayesIntervalCalc.cpp"],[("CountData/CountBackgrounds","src/count/CountingExperiment.cpp"),("UpperBound","src/interval/BayesIntervalCalc.cpp")],["CountingResult, BayesIntervalCalc"])
prop("C31","Configuration text is parsed into exactly the sections, fields and lists written",
 "For every well-formed text, each section and field is found under its trimmed name with its trimmed value and nothing else, comments and blank lines are ignored, and malformed lines, duplicate keys and missing sections or fields are refused. Lists split into their non-empty items in order.",
 ["inputs"],"all texts up to the byte bound over a small alphabet that includes every character the parser treats specially",
 "tests do not cover the parser; hostile text is an unbounded input space",
 ["src/config/ini.hpp","src/config/ConfigLoader.cpp",C+"ContainerTools.hpp"],[("INI parser","src/config/ini.hpp"),("Split",C+"ContainerTools.cpp")],["INI::Parser, ContainerTools::Split"])
prop("C32","Saved data sets and histograms load back identical",
 "Saving a data set or histogram in an HDF5 file and loading it returns the same observable or axis names of any length, the same bin edges and exactly the same values in the same order, for any number of entries (none included, several pieces included) and dimensions; saving again replaces the file. ROOT ntuples and histograms written hold the same names, edges and values, ntuples and trees read entry by entry, and entries past the end are refused. Lazily loaded data sets, also copied, assigned and used in turn, hand out the file's entries, which stay readable when another file is loaded. Unknown extensions, missing files or trees, and names not matching the observables are refused.",
 ["inputs","configurations","histories"],"all values for data sets of up to 3 entries and observables, pieces of 10000 numbers, histograms up to 3D, up to 3 accesses of lazy sets, with the file store replaced by an in-memory model",
 "the I/O tests need ROOT and are not run; they use one literal data set",
 ["src/data/IO.cpp","src/data/LazyOXSXDataSet.cpp","src/data/ROOTNtuple.cpp","src/data/ROOTTree.cpp"],[("SaveDataSetH5/LoadDataSet/SaveHistogramH5/LoadHistogram","src/data/IO.cpp")],["IO, LazyOXSXDataSet, ROOTNtuple, ROOTTree public API"])
prop("C33","Analytic functions evaluate their formula with the parameters their names denote",
 "The multidimensional Gaussian, step, square-root and jump functions evaluate their defining formula for every point and parameter, integrals of the Gaussian over adjacent intervals add up and lie in [0,1], and conditional kernels depend only on the offset. Each named parameter controls its own dimension for reading and writing, copies are independent of the original, and wrong dimensions, and non-positive widths at construction, are refused.",
 ["inputs","configurations"],"all points and parameters up to 2 dimensions",
 "Gaussian tests are compiled out without ROOT; second-dimension parameters are never read by name",
 ["src/function/Gaussian.cpp","src/function/GaussianFitter.cpp","src/function/Heaviside.cpp","src/function/JumpPDF.cpp","src/function/SquareRootScale.cpp","src/function/VaryingCDF.cpp"],[("operator()/Integral/parameter forwarding","src/function")],["Function/PDF public API"])
prop("C34","Fit results and statistics summaries survive copying and report what was set",
 "A fit result returns exactly the best fit, extreme value, validity, projections, covariance and statistic space that were set, and a copy or assigned result returns the same and stays valid and unchanged after the original changes or is destroyed. The running autocorrelation reports one at zero lag and uses only the values filled.",
 ["inputs","histories"],"all values, all copy/assign/destroy orders of two results",
 "no unit test copies or assigns a fit result",
 ["src/optimise/FitResult.cpp","src/optimise/AutoCorrelationCalc.cpp"],[("deep copy of the statistic space","src/optimise/FitResult.cpp")],["FitResult, AutoCorrelationCalc public API"])
prop("C35","Container helpers keep every key, value and pair they are given",
 "Building a map from names and values pairs them position by position, key and value extraction return every key once and the values in the requested key order, and key comparison is exact. All pair combinations contain each unordered pair of distinct elements once and all index combinations enumerate the full product once.",
 ["inputs","configurations"],"all small containers with arbitrary values",
 "helpers are only exercised indirectly",
 [C+"ContainerTools.hpp",C+"Combinations.hpp",C+"Combinations.cpp"],[("CreateMap/GetKeys/GetValues/SetValues",C+"ContainerTools.hpp")],["ContainerTools, Combinations"])
prop("C36","Random distributions and samples follow the requested totals and shapes",
 "A generated distribution has the first source's axes and observables, whole counts only, and in total the rounded rate (or one Poisson number) of counts per source; each count falls in the bin whose cumulated share of its source's content contains a fresh random draw, so only bins with content are filled and each with its own probability. It carries the name given, or one derived from the sources; the sources are untouched, and missing or mismatched sources and rates are refused. Rejection sampling takes the first uniform trial point under the curve; uniform, Gaussian and integer shots follow the range, mean, width and limit asked for.",
 ["inputs","fault_sequences"],"all random draws, rates and contents for up to 2 sources and 4 bins; up to 3 rejections",
 "the generator is not built without ROOT",
 [D+"BinnedEDGenerator.cpp","src/rand/Rand.cpp"],[("ExpectedRatesED/PoissonFluctuatedED",D+"BinnedEDGenerator.cpp")],["BinnedEDGenerator public API"])
prop("C37","Histograms convert to and from ROOT without losing edges or contents",
 "Converting a histogram or binned distribution to a ROOT histogram keeps every bin edge and puts every content in its own bin and nothing elsewhere, divided by the bin width only when asked for (1D); converting back returns the same edges and contents with axes named after the titles. Converting an analytic distribution puts in each bin its integral over exactly that bin. Wrong dimensions are refused.",
 ["inputs","configurations"],"all contents and edges for 1 to 3 axes with up to 12 bins",
 "the conversion tests are compiled out without ROOT and use even bins only",
 [D+"DistTools.cpp"],[("ToHist/ToTH1D/ToTH2D/ToTH3D",D+"DistTools.cpp")],["DistTools public API"])
prop("C38","The Minuit wrapper gives every parameter its place and reports the minimum found",
 "Each parameter reaches the minimiser with its own initial value, error and limits, exactly the fixed (and not released) ones are fixed, and every point tried is given to the statistic under the parameters' own names. When maximising, the minimiser sees the negated statistic and the reported extreme value has its sign restored. The method, strategy, maximum calls, tolerance and contour edge asked for are those used, in every fit made with the object. The result names the minimum's values, its validity and its full symmetric covariance. Mismatched values, errors or limits, empty ranges, unknown methods, unknown fixed parameters and statistics of other parameters are refused.",
 ["inputs","configurations","histories"],"all values and points, all sets of fixed parameters for up to 4 (thorough 5) parameters, two fits in a row",
 "the wrapper is not built without ROOT and results of a real search say nothing about every point",
 ["src/optimise/Minuit.cpp","src/optimise/MinuitFCN.cpp"],[("Initialise/Optimise","src/optimise/Minuit.cpp"),("operator()","src/optimise/MinuitFCN.cpp")],["Minuit, MinuitFCN public API"])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(path,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
