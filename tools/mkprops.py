"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))

NOT = ("The 11 stable tests only differentiate four transforms at one hand-picked point; "
       "nothing in them runs this part of the code. ")

p("P01", "Scale hand-off and result coordinate frame",
  "In every multi-scale fit each scale starts from exactly the shape at which the previous scale ended (mapped between the two scales' images), the first scale starts from the shape the caller supplied, and every shape in the returned result - initial, per-iteration, final and ground truth - is expressed in the pixel frame of the image the caller passed. This holds for every list of scales, every assignment of feature functions to scales (including features that resize or shift the image) and for starting from a shape or from a bounding box, where the start is the reference shape aligned to that box.",
  ["configurations", "inputs"],
  "all scale lists, feature-per-scale patterns, feature geometries, initial shapes / boxes and per-scale displacements",
  NOT + "A sample cannot cover the product of scale lists, feature patterns (same / different / same-again) and geometric offsets where a mis-composed map only shows for particular combinations.",
  ["menpofit/fitter.py", "menpofit/result.py"],
  [("pyramid preparation", "menpofit/fitter.py _prepare_image"), ("hand-off composition", "menpofit/fitter.py _fit"),
   ("mapping results back", "menpofit/result.py _rescale_shapes_to_reference")],
  ["per-scale optimiser call arguments", "result.shapes / initial_shape / final_shape / gt_shape"],
  [("scale image frame", "frame in which the current scale works", "menpofit/fitter.py")])

p("P02", "Iteration budget and stopping rule",
  "Every fit performs, at each scale, at most the number of iterations granted to that scale, and stops earlier only when the last update moved the shape by no more than the optimiser's tolerance; a list grants each scale its own entry, and one integer (or a list holding just one) is shared out equally (each scale gets the nearest integer to its equal share). A list of any other length is rejected with a ValueError, and an iteration budget of zero returns the starting shape unchanged (for parametric fitters, the model's reconstruction of it). Cascaded regressors (supervised descent, dlib) always run exactly the stages they were trained with.",
  ["inputs", "histories", "configurations"],
  "all iteration budgets (integers, lists), numbers of scales, optimisers and convergence histories",
  NOT + "The bound must hold for each optimiser family, for every budget and every convergence history, not for a sampled one.",
  ["menpofit/checks.py", "menpofit/fitter.py", "menpofit/aam/algorithm/lk.py", "menpofit/atm/algorithm.py", "menpofit/lk/algorithm.py",
   "menpofit/clm/algorithm/gd.py", "menpofit/unified_aam_clm/algorithm.py", "menpofit/aps/algorithm/gn.py", "menpofit/sdm/algorithm/base.py"],
  [("budget splitting", "menpofit/checks.py check_max_iters"), ("optimisation loops", "run() of each algorithm")],
  ["n_iters_per_scale, shapes, per-scale algorithm results"])

p("P03", "Result bookkeeping is consistent",
  "For any fitting result the number of iterations, the per-scale iteration counts, the list of shapes, the shape parameters, the appearance parameters, the homogeneous parameters, the costs, the displacements and the error curves all describe the same sequence of states: one state per start and per iteration (plain Lucas-Kanade costs: one per iteration), concatenated over scales in order, with the model's reconstruction of the starting shape kept apart from the starting shape. Errors and displacements reported by the result equal those recomputed from its shapes, quantities that were not supplied (ground truth, starting shape, costs) are reported as absent - and asking for an error without ground truth raises ValueError - and reducing a result to its non-iterative form keeps its final, initial and ground-truth shapes.",
  ["histories", "configurations"],
  "all numbers of scales, iterations per scale and combinations of optional data, for each result class",
  NOT + "Off-by-one slips depend on the number of scales and iterations at each, and on which optional data are present.",
  ["menpofit/result.py", "menpofit/aam/result.py", "menpofit/lk/result.py", "menpofit/aps/result.py", "menpofit/unified_aam_clm/result.py", "menpofit/sdm/algorithm/base.py"],
  [("iterative results", "menpofit/result.py"), ("family results", "menpofit/*/result.py")],
  ["public properties and methods of result objects"])

p("P04", "Fits leave inputs alone and do not depend on history",
  "Fitting never changes the image (pixels, landmark groups and their values), the initial shape, the bounding box, the ground truth or the trained model the caller passed in, and fitting twice with equal arguments gives equal results whatever other fits the same fitter performed in between - other images, other starting shapes, other iteration budgets, costs on or off, prior (MAP) inference on or off. The same result is also obtained from a freshly constructed fitter on the same model. A caller may change its own arrays (image, shapes) in place between fits without changing earlier results or having earlier content remembered, and what it does to a returned result does not reach later fits.",
  ["histories", "configurations"],
  "all interleavings of fit calls on one fitter object, for every fitter family and optimiser",
  NOT + "State leaking from one fit to the next shows only in particular orders of calls with particular options.",
  ["menpofit/fitter.py", "menpofit/aam/algorithm/lk.py", "menpofit/atm/algorithm.py", "menpofit/lk/algorithm.py", "menpofit/clm/algorithm/gd.py",
   "menpofit/sdm/algorithm/base.py", "menpofit/aps/algorithm/gn.py", "menpofit/unified_aam_clm/algorithm.py"],
  [("temporary landmarks attach/detach", "menpofit/fitter.py _prepare_image"), ("precomputed optimiser state", "_precompute of each algorithm")],
  ["arguments before/after each fit", "results of repeated fits"])

p("P05", "Lucas-Kanade updates solve their least-squares problem",
  "Each iteration of every gradient-based optimiser (project-out, simultaneous, alternating, modified alternating and Wiberg; forward, inverse and additive; with and without appearance model) moves the parameters to the minimiser of its linearised cost: the sum of squared masked image differences, with the appearance variation handled as that optimiser promises (projected out or co-estimated), plus - in MAP mode - the prior on the shape parameters (and on the appearance parameters where those are estimated by increments, i.e. in the simultaneous and alternating optimisers), which never penalises the global (similarity) parameters. On an image the model reproduces exactly the true parameters are a fixed point, fits started close to them come back - in a single step where the image varies evenly, so that the linearisation is exact -, and the reported cost sequence is the value of the image cost at each visited state. For pictorial structures the step minimises the linearised appearance cost (weighted by the appearance precision matrix) plus the weighted deformation cost of the shape parameters (leaving the similarity parameters out when procrustes is used), over the sampled pixels only, and the three reported cost sequences are the appearance cost, the weighted deformation cost and their sum at each visited state. Aligning a plain template by sums of squares weighs the residual with the given kernel whether it is evaluated in the image or the Fourier domain; the normalised residuals (enhanced correlation coefficient, gradient images, gradient correlation) do not depend on gain and offset of the image's intensities. An enhanced-correlation step is the one after which the linearised image correlates best with the template, so such alignments come to rest only where the correlation no longer changes to first order; and what an alignment finds does not depend on the image and the template being viewed transposed or mirrored together (compositional alignments by gradient correlation, which favours an axis along the frame's border, apart).",
  ["inputs", "histories", "configurations"],
  "all residuals, Jacobians, current parameters, priors and optimisers within the bounded linear model world; all optimisers on model-generated images",
  NOT + "A wrong sign, a missing projection or a prior on the wrong parameters still converges on easy samples.",
  ["menpofit/aam/algorithm/lk.py", "menpofit/atm/algorithm.py", "menpofit/lk/algorithm.py", "menpofit/aps/algorithm/gn.py"],
  [("update equations", "menpofit/aam/algorithm/lk.py"), ("MAP / ML solvers", "menpofit/aam/algorithm/lk.py solve_*")],
  ["shape_parameters, appearance_parameters and costs of algorithm results"])

p("P06", "Landmark-expert fitting steps follow the responses",
  "Each iteration of the landmark-expert (constrained local model) optimisers moves the shape parameters to the regularised least-squares fit of the landmark positions proposed by the expert responses - the response peak (averaged over the search window with the requested Gaussian) for the active-shape step and the kernel-weighted mean response position for the mean-shift step; the shape model is linearised at its mean - so that experts responding exactly at the current landmarks leave the shape unchanged and landmarks that all agree on a displacement of the shape move it there. The unified holistic-and-parts optimisers add the image term of their appearance model to the same step. Prior (MAP) inference shrinks only the non-rigid parameters, never the global ones.",
  ["inputs", "histories", "configurations"],
  "all response maps in the bounded model (delta responses at every grid offset, per landmark), all starting parameters, with and without prior",
  NOT + "Index-order and sign slips cancel on symmetric or centred responses.",
  ["menpofit/clm/algorithm/gd.py", "menpofit/unified_aam_clm/algorithm.py"],
  [("ASM step", "menpofit/clm/algorithm/gd.py ActiveShapeModel"), ("RLMS step", "menpofit/clm/algorithm/gd.py RegularisedLandmarkMeanShift")],
  ["shapes and shape_parameters of results"])

p("P07", "Shape models keep parameters and target in step",
  "After any sequence of operations on a statistical shape model - setting a target, setting a parameter vector, changing the number of active components, incrementing with more shapes - its target is exactly the instance its current parameters generate, its parameter vector has one entry per global parameter and active component, and setting a target yields the closest shape the model can generate - for models with a global transform: in the frame of the transform that best aligns the mean with that target (so, for the linear and the orthonormal variants, setting a reproducible target returns that target, and setting it again changes nothing). In the orthonormal variant the non-rigid components stay orthonormal to each other and orthogonal to the similarity basis, and the reported derivative of the target with respect to the parameters is the true one (the derivative with respect to the global parameters being, as documented, the one at the model mean). Arrays and shapes handed in may be reused by the caller without changing the model.",
  ["histories", "inputs"],
  "all operation sequences up to the bound over exact integer/rational targets, parameter vectors and component counts",
  NOT + "Desynchronisation needs a particular order of operations (for example shrinking the active components after setting a target).",
  ["menpofit/modelinstance.py"],
  [("state/target synchronisation", "menpofit/modelinstance.py ModelInstance, PDM, GlobalPDM, OrthoPDM")],
  ["target, as_vector, weights, global_parameters, d_dp"],
  [("weights, global transform, target", "the model instance state", "menpofit/modelinstance.py")])

p("P08", "Model-driven warps stay in step with their shape model",
  "After any sequence of target settings and parameter updates, a model-driven warp maps its source landmarks onto the target its shape model currently generates, its parameter vector round-trips, the identity parameters give the identity warp for a source equal to the model mean, the warp of the negated parameters is what it reports as its pseudo-inverse, and its derivative with respect to the parameters is, at every point, the derivative of the warp through its target (at the source landmarks: the derivative of the model's target); the linear variant reports the sparse landmarks that correspond to its dense target. This stays so when the caller reuses and changes in place the vectors and points it handed in.",
  ["histories", "inputs"],
  "all bounded sequences of set-target / parameter updates / compositions for every model-driven warp and base warp",
  NOT + "A stale target or source appears only after specific sequences of updates.",
  ["menpofit/transform/modeldriven.py", "menpofit/transform/homogeneous.py", "menpofit/transform/piecewiseaffine.py", "menpofit/transform/thinplatesplines.py"],
  [("target setter chain", "menpofit/transform/modeldriven.py")],
  ["apply, target, as_vector, d_dp, d_dx, sparse_target"])

p("P09", "Differentiable warps report their true derivatives",
  "For every differentiable warp (affine, similarity, translation-scale alignment variants, piecewise affine, thin-plate spline, radial basis) the reported derivatives - with respect to its parameters, its input points and its landmarks - equal the derivatives of the map the warp actually applies, at every evaluation point, current state and landmark configuration; parameter vectors round-trip exactly, and parameter composition and inversion agree with composing and inverting the maps (of interpolating splines: the spline through the exchanged landmarks).",
  ["inputs", "histories"],
  "all bounded integer-lattice landmark configurations, parameter vectors and evaluation points",
  "The existing tests compare a handful of hard-coded arrays at one configuration; an error that vanishes for identity linear part, at zero rotation, or for points of one triangle is invisible to them.",
  ["menpofit/transform/homogeneous.py", "menpofit/transform/piecewiseaffine.py", "menpofit/transform/thinplatesplines.py", "menpofit/transform/rbf.py", "menpofit/differentiable.py"],
  [("analytic derivatives", "menpofit/transform/*.py")],
  ["d_dp, d_dx, d_dl, apply, as_vector/from_vector"])

p("P10", "Training consumes every sample once, in order, at every scale",
  "However the training images are delivered - one list, a generator cut into batches, or later increments - every image is used exactly once and in order, there is exactly one model of each kind per scale, the reference shape is fixed by the first batch (or by the caller) and never moves afterwards, and the models account for all the samples seen so far, weighted by the forgetting factor requested (models without batch training take their images in one piece). The trained models are the same as when equal data are delivered in one piece as far as the underlying incremental algebra is exact (sample counts and means), and the caller's training images and landmarks are left unchanged. Reporting progress (verbose) has no effect on any of this, and training that is not verbose prints nothing.",
  ["histories", "configurations"],
  "all partitions of small training sets into batches and increments, for every trainable model family and scale list",
  NOT + "Which sample is lost or counted twice depends on batch size, set size and increments; tests never batch.",
  ["menpofit/base.py", "menpofit/aam/base.py", "menpofit/atm/base.py", "menpofit/clm/base.py", "menpofit/aps/base.py", "menpofit/sdm/fitter.py", "menpofit/unified_aam_clm/base.py"],
  [("batching", "menpofit/base.py batch"), ("train/increment loops", "*_train, _train_batch")],
  ["models per scale, sample counts, means, reference shape"])

p("P11", "Supervised descent trains and runs one regressor cascade",
  "Training supervised descent fits, at each scale, exactly the configured number of cascade stages; stage k is trained on the residual between the ground truth and the shapes obtained by applying stages 1..k-1 to every perturbed start of every image, and fitting replays the same stages in the same order from the given start, recording one shape per stage. At every scale all the perturbed starts (including those from provided boxes) take part, and neither training nor fitting leaves landmarks behind on the images given by the caller (stage by stage for training data that determine the stage's regression). Verbose training builds the same cascade and reports, for every stage, the mean, standard deviation and median of the errors of the shapes it leaves (parametric ones: of the shapes the model gives to the estimated increments against those of the true ones).",
  ["histories", "configurations", "inputs"],
  "all cascade depths, scale lists, perturbation counts and provided-box configurations (images with different numbers of boxes included) within bounds, over exactly solvable regression worlds",
  NOT + "Residual sign, stage order and dropped perturbations only surface with several stages, scales and boxes.",
  ["menpofit/sdm/fitter.py", "menpofit/sdm/algorithm/base.py"],
  [("cascade training", "menpofit/sdm/algorithm/base.py"), ("per-scale hand-off", "menpofit/sdm/fitter.py _train_batch")],
  ["calls into regressors and features", "result shapes"])

p("P12", "Regressors solve their regression problem, incrementally too",
  "Each regressor (regularised linear, indirect, principal-component, optimal, orthogonal-Procrustes) returns predictions of the coefficients that solve its documented least-squares problem on all the data seen, including the bias column when requested, and incrementing the incremental ones with further data gives the same predictions as training once on the union. Prediction is exact on data its model class can represent. (Truncation of principal components by a share of variance and whitening are not part of this.)",
  ["inputs", "histories"],
  "all bounded integer data matrices, regularisation weights, bias settings and splits into increments",
  NOT + "An increment formula that is right only for one regularisation weight passes any single-sample test using that weight.",
  ["menpofit/math/regression.py"],
  [("normal equations and Woodbury update", "menpofit/math/regression.py")],
  ["predict, increment"])

p("P13", "Landmark experts: filters, increments and response maps",
  "A correlation-filter expert is the regularised least-squares filter of all its training patches: training in increments gives the same filter as training on everything at once, for single- and multi-channel filters, and the frequency images shown for it are the centred spectra of its own channels. Frequency-domain convolution equals spatial convolution for every boundary mode, padding and cropping are centred and inverse to each other, the Gaussian target peaks at the patch centre, and the probability maps given to the optimiser are non-negative, sum to one for every landmark and keep the position of the strongest response.",
  ["inputs", "histories"],
  "all bounded small-integer patches, filter shapes, boundary modes and splits into increments",
  NOT + "Weight bookkeeping errors in increments need at least two unequal increments to show.",
  ["menpofit/math/correlationfilter.py", "menpofit/math/fft_utils.py", "menpofit/clm/expert/base.py", "menpofit/clm/expert/ensemble.py"],
  [("auto/cross-correlation accumulation", "menpofit/math/correlationfilter.py"), ("padding/cropping", "menpofit/math/fft_utils.py"), ("probability maps", "menpofit/clm/expert/ensemble.py")],
  ["filters, responses, probabilities"])

p("P14", "Perturbed starts: counts, containment and image hygiene",
  "Generating perturbed starting boxes gives every image exactly the requested number per source box (plus each provided box itself, when boxes are provided), all of them inside the image, retrievable in generation order, while every other landmark group and the pixels stay as they were. Aligning a shape with a box by default gives that shape similarity-transformed onto the box, zero noise reproduces the noiseless alignment, uniform noise stays within the requested percentages (scale: half that fraction; rotation: that fraction of 180 degrees; translation: that fraction of the target's range) and uses both directions, gaussian noise reaches those limits at three standard deviations, the noise is centred on the target, both noise types are recognised by name however the string was built, unknown noise types raise ValueError, and the caller's noise settings are never modified.",
  ["inputs", "configurations"],
  "all bounded boxes, perturbation counts, provided-box counts, noise settings and draws",
  NOT + "Random perturbation ranges and naming collisions show only for particular draws and counts.",
  ["menpofit/fitter.py"],
  [("perturbation generation", "menpofit/fitter.py generate_perturbations_from_gt, noisy_*")],
  ["landmark groups on images", "returned transforms/shapes"])

p("P15", "Error metrics compute their defined distances",
  "Every error metric equals its definition for every pair of shapes: mean point-to-point distance and root-mean-square distance, divided by the named normaliser (box area, perimeter, average edge length, diagonal, or the distance between named landmarks of the ground truth), restricted to the requested landmark subset where the facial metrics convert between mark-up sizes. Errors are zero exactly for identical shapes, invariant to joint translation and, when normalised by length, to joint scaling; incompatible inputs raise ValueError.",
  ["inputs"],
  "all bounded lattice shapes with exactly representable distances, every metric and normaliser",
  NOT + "Swapped arguments or wrong normalisers agree whenever the two shapes have the same extent.",
  ["menpofit/error/base.py", "menpofit/error/human/face.py"],
  [("distances and normalisers", "menpofit/error/base.py"), ("facial mark-ups", "menpofit/error/human/face.py")],
  ["return values of the error functions"])

p("P16", "Error statistics match their definitions",
  "The cumulative error curve is the non-decreasing fraction of errors below each bin, the area under it and the failure rate are computed from that same curve and threshold, and the reported mean, standard deviation, median, median absolute deviation and maximum are those of the list given, per method and in order. Statistics do not depend on the order of the errors or on whether they arrive as lists or arrays, and the caller's lists are not modified.",
  ["inputs"],
  "all bounded multisets of errors on and between bin edges, all bounded ranges and steps",
  NOT + "Boundary cases (errors on a bin edge, above the maximum, ties, even/odd counts) are not sampled.",
  ["menpofit/error/stats.py", "menpofit/visualize/textutils.py"],
  [("CED, AUC and failure rate", "menpofit/error/stats.py")],
  ["return values"])

p("P17", "Multi-scale parameters are normalised or rejected",
  "Each parameter validator turns every documented spelling (a single value, a one-entry list, one entry per scale, tuples, None where allowed) into a fresh list with exactly one valid entry per scale in the same order, and rejects lists of any other length and values of any other type (or outside the documented range) with ValueError, so that no model or fitter can be built with a parameter list whose length differs from its number of scales. Validators never change the caller's values. Every trainer refuses a reference diagonal below 20 with ValueError before it looks at an image, and, where no reference shape is given, warns once when only the first batch decides the reference and when images without triangles of their own are to be warped piecewise affinely - and only then.",
  ["inputs", "configurations"],
  "all bounded parameter spellings (types, lengths, nesting) for 1..4 scales",
  NOT + "The space is spellings times number of scales; ambiguities (a two-entry patch shape with two scales) hide in its corners.",
  ["menpofit/checks.py"],
  [("validators", "menpofit/checks.py")],
  ["returned lists and raised exceptions"])

p("P18", "Persisted fitters: wrapping, loading and download recovery",
  "A pickled fitter wrapper fits exactly like the fitter it wraps, with call-time arguments overriding stored ones for that call only, and reports its result on the image the caller passed even when the wrapper preprocesses the image. Loading a named fitter uses the local file if it loads, downloads it when missing, and - whatever fails or is cut short at any point: the download, writing, or unpickling - also when the process dies there or another process loads the same fitter in the middle of it - never leaves behind a damaged file under the fitter's name: a damaged file is removed, the error reaches the caller, and the next load recovers.",
  ["crash_points", "fault_sequences", "histories"],
  "all sequences of load attempts with faults injected at every step of download, write and unpickle; all combinations of stored and call-time arguments",
  NOT + "Crash points in the middle of a download or a damaged file followed by a second load are never exercised.",
  ["menpofit/io.py"],
  [("load/purge protocol", "menpofit/io.py load_fitter"), ("download", "menpofit/io.py download_file"), ("wrapper", "menpofit/io.py PickleWrappedFitter")],
  ["files on disk after each attempt", "arguments reaching the wrapped fitter", "results"])

p("P19", "dlib bridge converts faithfully",
  "Bounding boxes and landmark shapes survive the round trip to dlib's representation and back up to its integer rounding, images are handed over as grayscale or RGB bytes according to their channels without modifying them, and the dlib-based trainers and fitters give every image's all starting boxes with the matching ground truth to dlib, cascade one dlib predictor per scale, and return results under the same rules as every other fitter.",
  ["inputs", "configurations"],
  "all bounded boxes/shapes, channel counts, numbers of boxes per image (equal or not) and scale lists",
  NOT + "Axis swaps hide on square boxes and symmetric shapes; multiple boxes per image and several scales are not sampled.",
  ["menpofit/dlib/conversion.py", "menpofit/dlib/algorithm.py", "menpofit/dlib/fitter.py"],
  [("conversions", "menpofit/dlib/conversion.py"), ("training set assembly", "menpofit/dlib/algorithm.py")],
  ["dlib objects and results"])

p("P20", "Model instances and reconstructions match the parameters",
  "Generating an instance of a trained appearance, template or pictorial-structure model at any scale uses that scale's models: the shape is the shape model's instance for the given normalised weights (missing weights meaning the mean), the texture is the appearance model's instance warped into that shape's frame, random instances draw one weight per active component of each model, and reconstructing a fitting's appearance parameters yields one image per visited state using the model of the scale that state belongs to. (Linear models document instance as not implemented.)",
  ["inputs", "configurations", "histories"],
  "all scales, weight vectors, component counts and per-scale iteration counts within bounds",
  NOT + "Mixing up component counts or scale boundaries only fails when the counts differ or there are three or more scales.",
  ["menpofit/aam/base.py", "menpofit/atm/base.py", "menpofit/clm/base.py", "menpofit/aps/base.py", "menpofit/unified_aam_clm/base.py"],
  [("instance generation", "instance/_instance"), ("appearance reconstruction", "appearance_reconstructions")],
  ["returned images and shapes"])

p("P21", "Training pipeline building blocks keep images and shapes registered",
  "Every preprocessing step of training - choosing the reference shape, rescaling to it, extracting features, scaling, warping to the reference frame, extracting patches, aligning and densifying shapes - transforms pixels and landmarks by the same map, so that the texture found at a landmark stays at that landmark; the reference shape has the requested diagonal, the reference frame contains its landmarks with the requested margin, outputs correspond one-to-one and in order to inputs, and inputs are never modified. Smoothing requested for the training images of a unified model acts on each channel alone, at the reference size, leaves flat and slanted regions alone and spreads equally in both directions with the requested standard deviation. The deformation model of a pictorial structure is built at every scale on the graph given or else on the tree, grown from the first landmark, that spans the landmarks where their displacements vary least over the (size-normalised) training shapes, and scores a shape by how far the displacements along the edges are from their training mean in units of their training covariance, over the shapes as they are or after Procrustes alignment as requested. (Interpolation at the outermost pixels of a resized image is not part of this.)",
  ["inputs", "configurations"],
  "all bounded image geometries, reference sizes, scales and patch shapes on exactly computable coordinate images",
  NOT + "Misregistration by half a pixel or by one image in the list passes any test that only checks array shapes.",
  ["menpofit/builder.py", "menpofit/aps/base.py", "menpofit/unified_aam_clm/base.py"],
  [("pipeline functions", "menpofit/builder.py")],
  ["returned images, shapes and reference frames"])

p("P22", "Component counts and sampling are applied per scale",
  "The number of active shape and appearance components and the sampling mask requested when a fitter is built take effect at exactly the scale they were requested for - an integer as that many components, a fraction as the smallest number of components keeping that share of variance - and every quantity the optimiser derives from them (parameter counts, Jacobian and residual sizes) agrees with them; requests of any other form raise ValueError before any model is changed.",
  ["inputs", "configurations"],
  "all bounded requests (integers, fractions, None, lists) for 1..3 scales over models with known spectra, every fitter family with components",
  NOT + "Per-scale mix-ups are invisible with one scale or equal requests.",
  ["menpofit/checks.py", "menpofit/aam/fitter.py", "menpofit/atm/fitter.py", "menpofit/clm/fitter.py", "menpofit/aps/fitter.py", "menpofit/unified_aam_clm/fitter.py"],
  [("component setting", "menpofit/checks.py set_models_components"), ("sampling", "menpofit/checks.py check_sampling, _build_sampling_mask")],
  ["n_active_components per scale, parameter vector lengths"])

p("P23", "What is drawn and printed is what is there",
  "Drawing a fitting result shows exactly the shapes that were asked for - final, initial, ground truth, or the chosen iterations in the order of the request - each at its own points, under its own name (iterations numbered from 0 at the start, every scale's reconstruction of its starting shape kept apart and numbered by scale) and with the colours requested for it, in one picture or one picture each, on the image or not; the curves of errors, displacements and costs show the values the result reports against the iteration number. Drawing several landmark groups of an image draws each group once, at its landmarks, in the order given, with its own name and style - one style for all or one for each, any other number being rejected with ValueError. The picture of a deformation model shows, per edge, the spread of one landmark about its neighbour. The text a result, a trained model or a fitter prints about itself states the errors, and scale by scale from the lowest to the highest the component counts, active components, patch shapes, iteration counts and image diagonal that are in force. Asking never changes the result, the image or its landmarks, and asking for what does not exist (unknown iterations, errors without ground truth) raises ValueError.",
  ["inputs", "configurations", "histories"],
  "all result classes with 1..3 scales and bounded iteration counts, all kinds of requests; all bounded lists of groups and styles; all model and fitter families with per-scale settings",
  NOT + "Numbering depends on the class of result, on the number of scales and on which shapes are present; nothing draws or prints in the tests.",
  ["menpofit/result.py", "menpofit/visualize/base.py", "menpofit/aam/fitter.py", "menpofit/aam/base.py", "menpofit/atm/base.py", "menpofit/clm/base.py",
   "menpofit/aps/base.py", "menpofit/unified_aam_clm/base.py", "menpofit/sdm/fitter.py", "menpofit/dlib/fitter.py"],
  [("views and curves", "menpofit/result.py view, view_iterations, plot_*"), ("landmark groups", "menpofit/visualize view_image_multiple_landmarks"),
   ("summaries", "__str__ of results, models and fitters")],
  ["axes, lines, legends and titles of the figure", "str()"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
