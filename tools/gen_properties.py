#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a statement changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Control calls follow the lifecycle state machine",
  "For every sequence of control calls made one after another, each call has the result, and leaves the status, of the lifecycle: Init works from Created or Finished and is otherwise refused as already created; Play initialises if needed and starts a run, resumes a paused one, and is refused only while running; Pause is accepted only while running; Stop finishes a ready, running or paused algorithm and is refused as not alive otherwise. "
  "Wait answers 'not running' before the initialisation, 'idle' when paused, 'never finish' when running without any end condition, the timeout error when its maximal duration elapses, nothing at once when ready or finished, and otherwise returns when the given condition holds or, without one, when the run ends or is paused, with the error of that run; Batch stops, plays, waits and stops again, and returns the first error. "
  "A run whose end condition is met becomes Ready, a failed one becomes Finished with its error, and a status carries an error only when it is Finished.",
  ["histories", "fault_sequences"], "every finite sequence of Init/Play/Pause/Stop/Wait/Batch calls, natural ends of run and injected failures",
  "The scenario tests drive about five fixed sequences; the state space of sequences (restart after failure, pause then end, batch from every state) is never enumerated.",
  ["core/ctrl.go", "core/algo.go", "core/status.go", "core/timeout.go", "core/error.go"],
  [("status switch of each control operation", "core/ctrl.go"), ("run end status", "core/ctrl.go run")],
  ["return values of OnlineClust control methods", "Status()"], [("status", "current lifecycle status", "core.Algo")])

p("C02", "Concurrent control is linearizable and runs one iteration at a time",
  "Whatever the interleaving of Init, Play, Pause, Stop and Status calls made by several goroutines, their results are those of some sequential order of these calls, compatible with real time, under the lifecycle. "
  "At most one iteration of the implementation is in progress at any instant, and none during an initialisation. "
  "Once Pause or Stop has succeeded, or a run has become Ready or Finished, no iteration is in progress and none starts before a later Play or automatic start.",
  ["schedules", "histories"], "every interleaving of control calls from any number of goroutines, with runs that end by themselves or not",
  "Every existing test controls an algorithm from a single goroutine, under one processor.",
  ["core/ctrl.go", "core/algo.go"],
  [("serialisation of control operations and hand-shake with the run goroutine", "core/ctrl.go, core/algo.go sendStatus/receiveStatus")],
  ["call/return history of control methods", "entries and exits of Impl.Init and Impl.Iterate"],
  [("status, current run", "what the hand-shake protects", "core.Algo")])

p("C03", "No call blocks for ever and the algorithm stays controllable",
  "Control, data and observation calls made concurrently by any number of goroutines, from a status notifier, or after failed initialisations and iterations, all return after a bounded number of iterations of the running algorithm, except a Wait or Batch whose end condition is never met (without a condition given, the end or the pause of the run). "
  "Data and observation calls (Push, Predict, reads, Copy) do not wait for the end of the initialisation or iteration in progress. "
  "Afterwards the algorithm still obeys: it can be stopped, played, paused, resumed and stopped again. "
  "A stopped algorithm without Timeout leaves no goroutine running once its notifications are delivered.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of public calls, including re-entrant calls from the notifier and failed initialisations",
  "Tests are single threaded, never call the algorithm from a notifier and use no watchdog: a deadlock needs two goroutines at precise points.",
  ["core/ctrl.go", "core/algo.go", "core/buffer.go"],
  [("lock ordering, run end signal, non-blocking notification queue and staging", "core/ctrl.go, core/algo.go, core/buffer.go")],
  ["return of every call", "goroutine stacks"])

p("C04", "Each status change is notified exactly once, in order",
  "The configured status notifier is called exactly once for every status change, in the order of the changes and one call at a time, with the algorithm and the status (value and error) that was set. "
  "A notifier that blocks, or that calls any method of the algorithm, does not block the algorithm nor the calls of others, and no notification is lost or repeated because of it.",
  ["histories", "schedules"], "every history of control calls, natural ends, failures and timeouts, with fast, slow, blocked and re-entrant notifiers",
  "One test counts notifications of one scenario with a trivial notifier; order, failures, re-entrancy and concurrency are not sampled.",
  ["core/algo.go", "core/ctrl.go"], [("status change and its notification", "core/algo.go setStatus/notify")],
  ["calls received by CtrlConf.StatusNotifier"])

p("C05", "Failures are contained, reported and recoverable",
  "An error or a panic raised by the implementation, the space, the initializer, the distribution or the configured finishing condition, during an initialisation or an iteration, in sequential or parallel mode, neither ends the process nor escapes from a control call: the algorithm becomes Finished with that error (for a panic, an error with its message), which a failing Init or Play, a Batch and a pending Wait return. "
  "When an iteration fails, the centroids and figures of the last successful one stay available. "
  "A failed algorithm can be initialised and played again like a stopped one.",
  ["fault_sequences", "inputs"], "every failing operation (n-th call of Init, Iterate, Dist, Combine, Copy, Dim, Sample, Pdf, IsFinished), kind of failure and degree of parallelism",
  "Tests inject one error in Init and one in Iterate of a mock; panics, parallel partitions and failing spaces are never exercised.",
  ["core/ctrl.go", "core/util.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go"],
  [("recover at the end of a run and at initialisation", "core/ctrl.go"), ("panic forwarding", "core/util.go Par")],
  ["results of control calls", "Status().Error", "Centroids()", "process exit"])

p("C06", "Concurrent use is free of data races",
  "Concurrent calls of any methods of an algorithm (kmeans, mcmc or streaming, sequential or parallel), together with its own run and with reads of the centroids, predictions, figures and copies it returns, perform no unsynchronised conflicting memory accesses. "
  "The same holds for concurrent use of a data buffer and of a late distribution. "
  "This assumes that the user neither shares a random generator or distribution between running algorithms nor modifies what was handed over.",
  ["schedules"], "every interleaving of public calls of one algorithm by several goroutines",
  "The test suite is run with one processor, one client goroutine and without the race detector.",
  ["core/algo.go", "core/ctrl.go", "core/model.go", "core/buffer.go", "core/figures.go", "mcmc/latedistrib.go", "streaming/impl.go", "kmeans/impl.go", "mcmc/impl.go"],
  [("model, status, buffer and distribution locks, snapshots", "core/*.go, mcmc/latedistrib.go, streaming/impl.go")],
  ["race detector reports"])

p("C07", "Published results are immutable and consistent snapshots",
  "Centroids, predictions and figures returned to a caller never change afterwards, whatever the algorithm does, and modifying returned figures does not affect it. "
  "Each snapshot is the complete result of one initialisation or one successful iteration (figures and iteration count belonging to the same one, results of failing or empty iterations never being published), and successive reads by one observer never go back to an earlier iteration of the same session; what was produced by an iteration is visible before the next one starts. "
  "The centroid, label and distance of a prediction are those of a single such snapshot.",
  ["schedules", "histories"], "every interleaving of observers with initialisations and iterations, for every implementation",
  "Tests read results once, when the algorithm is at rest.",
  ["core/model.go", "core/ctrl.go", "core/figures.go", "streaming/impl.go", "kmeans/seq.go", "kmeans/par.go"],
  [("publication of an iteration under the model lock", "core/ctrl.go saveIterContext"), ("copies", "core/figures.go, streaming/impl.go Iterate")],
  ["Centroids()", "RuntimeFigures()", "Predict()"])

p("C08", "No accepted observation is lost, duplicated or reordered",
  "Every observation given at construction or accepted by Push, at any moment of the lifecycle and from any number of goroutines, takes part exactly once: kmeans and mcmc work on all of them, or on exactly the most recent FrameSize ones when it is set, an observation pushed to an alive algorithm being used at the latest by the second iteration that starts after the push, and one pushed otherwise by the next initialisation. "
  "Streaming processes each accepted observation exactly once, in order, one per iteration after the first which becomes the first centre; it refuses with an error, and without any effect, those that exceed its buffer. "
  "Pushing never blocks.",
  ["schedules", "histories", "inputs"], "every interleaving of pushes with control calls and iterations, every buffer size",
  "Tests push a handful of points, mostly before playing, and only look at the number of stored elements.",
  ["core/buffer.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go", "core/ctrl.go"],
  [("staging and window of the data buffer", "core/buffer.go"), ("channel of the streaming implementation", "streaming/impl.go")],
  ["elements received by Space.Dist during iterations", "Buffer.Data()", "time figure of mcmc"])

p("C09", "Runtime figures account exactly for pushes and iterations",
  "At any time the pushedData figure is the number of accepted pushes, and iterations the number of iterations that produced centroids, since the algorithm was created or last re-initialised after being Finished, which resets both to zero and the duration with them. "
  "They never decrease otherwise, refused pushes and iterations without result are not counted, and the figures given by the implementation for the last iteration come with them. "
  "The duration figure is never negative nor decreasing within a session, does not exceed the time elapsed since the session began, is the total time of the runs of the session (pauses included or not) once they are over, and lastDataTime is the second of the last accepted push (0 before the first of the session).",
  ["histories", "schedules"], "every history of pushes, runs, pauses, failures and restarts, sequential or concurrent",
  "Tests check final iteration counts of fixed scenarios only.",
  ["core/ctrl.go", "core/figures.go"], [("counters updated with the model", "core/ctrl.go Push, run, init")],
  ["RuntimeFigures()"])

p("C10", "Runs perform exactly the configured iterations",
  "A run goes on until the iterations since the (re)initialisation reach Iter + IterPerData x pushedData (when one of these is set) or the configured finishing condition holds, conditions being evaluated before each iteration, so none is performed when the run is already complete; it never stops earlier nor later, and an iteration without result does not count. "
  "Finishing conditions have their logical meaning: And requires all of its (at least one) conditions, Or any of them, Iter the iteration budget, Status one of the listed statuses or, if asked, an error. "
  "With IterFreq f, two iterations of a run never start within less than 1/f second.",
  ["inputs", "histories", "configurations"], "every budget, finishing expression, iteration frequency and history of pushes, pauses and plays",
  "Tests use four budgets on one scenario; finishing combinators and their evaluation inside a run are hardly exercised.",
  ["core/ctrl.go", "core/finish.go"], [("run loop condition", "core/ctrl.go run"), ("finishing conditions", "core/finish.go")],
  ["calls of Impl.Iterate", "Finishing.IsFinished"])

p("C11", "Timeouts interrupt the right run, never early",
  "A run configured with a Timeout that has not ended when this duration has elapsed since it was started, running or paused, becomes Finished with the timeout error as soon as the iteration in progress returns, without any other iteration, and never before that duration. "
  "The timeout of a run that has ended or was stopped has no effect on the state of the algorithm nor on later runs. "
  "A Wait with a maximal duration returns the timeout error not before it and promptly after it (within a second), leaves the algorithm untouched, and returns without timeout error when its condition is met before.",
  ["schedules", "histories", "configurations"], "every duration, iteration length and history of plays, pauses and stops relative to the timer",
  "One scenario uses a timeout of one nanosecond; early, late or stale timers cannot be seen.",
  ["core/timeout.go", "core/ctrl.go"], [("interruption timer of a run", "core/ctrl.go, core/timeout.go"), ("polling of Wait", "core/timeout.go")],
  ["Status() and iterations on a virtual clock"])

p("C12", "Pushed data start a ready algorithm when DataPerIter asks for it",
  "With DataPerIter n > 0, a push to a Ready algorithm starts a run by itself when more than n observations have been accepted since the previous automatic start (or creation), this one included, and never when there are fewer than n. "
  "It never happens when n is 0 nor when the algorithm is not Ready: data never start a created, stopped or failed algorithm nor resume a paused one, even when a Stop or Pause is concurrent with the pushes. "
  "Concurrent pushes start at most one run at a time and no start is lost.",
  ["histories", "schedules"], "every n, every history of pushes and control calls, sequential or concurrent",
  "No test sets DataPerIter with more than trivial values, and none pushes concurrently.",
  ["core/ctrl.go"], [("count of new data and automatic play", "core/ctrl.go Push")],
  ["Status() after pushes", "calls of Impl.Iterate"])

p("C13", "Elements are assigned to the first nearest centroid",
  "For any centroids, elements and space, Predict, Assign and MapLabel give for each element the lowest label whose distance is minimal, with that centroid and exactly that distance. "
  "This holds with ties, null, infinite or slightly negative distances and with any number of centroids; without centroids the label is -1 and there is no centroid. "
  "ParMapLabel gives the same for any degree of parallelism.",
  ["inputs"], "every number of centroids, elements, distance function and degree",
  "Tests assign eight vectors to three well separated centroids.",
  ["core/clustering.go", "core/par_assign.go", "core/ctrl.go"], [("nearest centroid search", "core/clustering.go nearest")],
  ["return values"])

p("C14", "Parallel computations equal sequential ones for any degree",
  "For any number of elements (including none) and any degree of at least 1, a parallel process receives contiguous ranges, one per rank, that cover every index exactly once, and the call returns when all are done; a panic of one of them reaches the caller after that. "
  "Parallel labels, distances, losses, cardinalities and label based means equal the sequential ones, up to rounding, for any data, centroids, norm and degree. "
  "Parallel means equal the sequential ones for every non empty cluster, and give the initial centroid for empty ones.",
  ["inputs", "configurations", "schedules"], "every data size, degree and space with an associative barycenter",
  "Tests use one data size (160) and three centroids, where no partition nor cluster is empty.",
  ["core/util.go", "core/par_assign.go", "core/par_dba.go", "core/par_loss.go"],
  [("partitioning", "core/util.go Par"), ("aggregation", "core/par_dba.go, core/par_loss.go")], ["return values", "ranges received"])

p("C15", "Losses, cardinalities and averages match their definitions",
  "For any data, labels, norm and space, ReduceLoss and ReduceLossForLabels give per cluster the number of its elements and the sum of their distances to its centroid raised to the norm, and TotalLoss the sum over clusters: every element is counted in exactly one cluster. "
  "ReduceDBA and ReduceDBAForLabels give per cluster the combination of its elements in order, each with weight 1, which for vector spaces is their mean, and nothing for an empty cluster. "
  "DBA and WeightedDBA give the (weighted) mean, and an error when there is no element.",
  ["inputs"], "every data set, labelling, norm, weights and cluster count, including empty and singleton clusters",
  "Tests check one small data set each.",
  ["core/clustering.go"], [("reductions", "core/clustering.go")], ["return values", "calls of Space.Combine"])

p("C16", "Vector spaces satisfy distance and barycenter laws",
  "Euclidean distance is the square root of the sum of squared differences: non negative, null for equal points, symmetric, and satisfying the triangle inequality. "
  "Cosine distance is one minus the cosine similarity: in [0, 2] up to rounding and never negative, null for collinear vectors of same direction, symmetric, independent of positive scaling, defined for null vectors (0 between them, 1 with others). "
  "In both spaces, Combine gives the weighted mean of the points whatever the weights, exactly preserves no input by reference, Copy gives an equal independent point, and Dim the number of coordinates (0 without data).",
  ["inputs"], "every pair and triple of points of moderate magnitude, dimension and weights",
  "Tests evaluate a few hand-written vectors.",
  ["euclid/vectors.go", "cosinus/cosinus.go"], [("distances and combination", "euclid/vectors.go, cosinus/cosinus.go")], ["return values"])

p("C17", "DTW distance and path are optimal within the window",
  "The DTW distance of two series is the minimum, over all monotone alignments that start and end at both ends and move by at most one step in each series, of the summed point distances, and the alignments are restricted to cells no further than the window from the diagonal when it is set (0: no constraint, whatever the lengths). "
  "The returned path is such an alignment, given from its end to its beginning, whose summed cost is the distance. "
  "The distance is null between a series and itself and symmetric, and the DTW space first resizes the longest series to the length of the shortest plus the window when they differ more.",
  ["inputs"], "every pair of non empty series of any lengths, point dimension, inner space and window",
  "Tests compute two or three pairs of short series.",
  ["dtw/cost.go", "dtw/dtw.go", "dtw/interpolate.go", "dtw/series.go"], [("accumulated cost matrix", "dtw/cost.go")], ["Dist()", "Path()", "Get()"])

p("C18", "DTW averages and interpolations are exact barycenters",
  "Resizing a series gives one of the asked length with the same first and last points, whose other points are the linear interpolation of the original at regular positions. "
  "Interpolating at irregular indexes gives, for each multiple of the shrink factor, the point at this index or the barycenter of the two surrounding points weighted by their proximity. "
  "The DTW average of two series with positive weights is the interpolation of the weighted barycenters along an optimal path, hence equal to the series when both are the same, starting with the barycenter of first points (and ending with that of last points when lengths are equal), with a length between those of both series. A copy of a series is equal to it and shares nothing with it.",
  ["inputs"], "every series, sizes, indexes, weights and inner space",
  "Tests check a single interpolation and average each.",
  ["dtw/interpolate.go", "dtw/dtw.go", "dtw/series.go"], [("interpolation", "dtw/interpolate.go Interpolate")], ["return values"])

p("C19", "kmeans performs exact Lloyd iterations",
  "Each kmeans iteration replaces every centroid by the combination of the observations nearest to it (its mean in vector spaces), computed on the observations taken into account at its start, keeps the centroid of an empty cluster, and keeps their number and order. "
  "With fixed data in a Euclidean space the sum of squared distances to the nearest centroid never increases, and a fixed point stays so. "
  "Sequential and parallel modes give the same centroids up to rounding, for any number of CPUs.",
  ["inputs", "configurations", "histories"], "every data set, initial centroids, K, frame size, degree of parallelism and history of pushes",
  "Tests run one eight-points data set and check its final labels or centroids.",
  ["kmeans/impl.go", "kmeans/seq.go", "kmeans/par.go", "core/clustering.go", "core/par_dba.go"],
  [("assignment and mean", "kmeans/seq.go, kmeans/par.go")], ["Centroids() after each iteration"])

p("C20", "Initializers draw valid centres and weighted choices are fair",
  "On success each initializer returns exactly k centres equal to observations: the k first ones (given), k different observations uniformly (rand), or a first one drawn uniformly and others drawn with probability proportional to the distance to the nearest centre already chosen, hence never a point at null distance (pp). "
  "With k lower than 1, fewer than k observations, or (pp) not enough different points, they return an error and no centre, and never panic. "
  "A weighted choice returns an index of a positive weight with probability proportional to its weight, whatever the value drawn, and an error when no weight is positive.",
  ["inputs"], "every data set, k, weights and random generator, including extreme draws",
  "Tests draw a few thousand times from one weight vector with one seed and check one k per initializer.",
  ["kmeans/init.go", "mcmc/store.go"], [("weighted draw", "kmeans/init.go WeightedChoice")], ["return values"])

p("C21", "mcmc follows the Metropolis-Hastings rule",
  "Each mcmc iteration proposes centres for k or k plus or minus 1 clusters (drawn by ProbaK, kept within 1, MaxK and the number of observations) from the last accepted centres of that size, or else from the current ones with one observation added (drawn as often as its distance to the nearest centre) or one centre removed (each as often as the others), altered by the distribution and moved by one Lloyd step. "
  "The reported lambda is Amp x sqrt((dim+3)/time), rGibbs is lambda x (current loss - proposed loss), and rho is exp(rGibbs + dim x (current k - proposed k) x log(2B) + current density - proposed density); the proposal is accepted with probability min(1, rho), becoming the centroids and incrementing acceptations, otherwise centroids are unchanged. "
  "Acceptations never exceed iterations, including after a restart.",
  ["inputs", "histories", "configurations"], "every data set, configuration, distribution and random draw",
  "Tests check a final number of clusters on one data set; the acceptance rule itself is never observed.",
  ["mcmc/impl.go", "mcmc/store.go", "mcmc/seq.go", "mcmc/par.go"], [("proposal and acceptance", "mcmc/impl.go")],
  ["Distrib.Sample/Pdf calls", "RuntimeFigures()", "Centroids()"],
  [("current proposal, store of accepted centres", "Metropolis-Hastings state", "mcmc.Impl")])

p("C22", "Alteration distributions are well defined and thread safe",
  "The multivariate T density, whose logarithm is returned, is for any dimension, degrees of freedom and time, finite, symmetric, maximal at the location, decreasing with the distance and integrates to 1; its samples are centred on the location, independent of each other and spread as a T distribution of scale 1/sqrt(20 time). "
  "Dirac samples the location itself with density value 1. "
  "A late distribution builds the wrapped one exactly once, with the location (mu) given by the first call it receives, whatever the number of goroutines using it, and then only forwards to it; if the builder panics it can be built later.",
  ["inputs", "schedules"], "every dimension, degrees of freedom, time and location; every interleaving of first uses",
  "Tests evaluate a dozen points in dimension 2 or less and use a late distribution from one goroutine.",
  ["mcmc/multivt.go", "mcmc/latedistrib.go", "mcmc/dirac.go"], [("log density", "mcmc/multivt.go Pdf"), ("double-checked initialisation", "mcmc/latedistrib.go")],
  ["return values", "calls of the builder"])

p("C23", "Streaming applies its update rule to every observation",
  "The first observation is the first centre; each following one is compared with its nearest centre, its relative distance being its distance divided by the maximal distance seen so far (itself when that is null). "
  "It becomes a new centre without changing the maximal distance if the relative distance is greater than OutRatio and at least OutAfter observations were processed before (the first centre excluded); otherwise it becomes a new centre if the relative distance is greater than a draw of the normal law (Mu, Sigma), or else is merged in the nearest centre with the weight of the observations already merged there, the maximal distance being updated in both cases. "
  "Centres are never removed nor reordered, and the maxDistance figure is the maximal distance.",
  ["inputs", "configurations", "histories"], "every stream of observations and configuration, within one initialisation",
  "Tests only check the number of centres found on a mixture, and each helper once.",
  ["streaming/impl.go", "streaming/conf.go"], [("processing of one observation", "streaming/impl.go Process")],
  ["Centroids() and maxDistance after each iteration"], [("centres, cardinalities, maximal distance", "streaming state", "streaming.Impl")])

p("C24", "A copy is a fresh independent algorithm on the same data",
  "Copying an algorithm, in any state, returns a Created algorithm without centroids nor figures that uses the given configuration and space, and for kmeans and mcmc every observation accepted so far (those of the frame when it is limited), for streaming the current centres as first observations; it then behaves as a new algorithm built with them. "
  "The original keeps its status, centroids, figures and run, and later operations on one (pushes, runs, stops) have no effect on the other, apart from user objects they share. "
  "When the centres do not fit in a streaming copy's buffer an error is returned.",
  ["histories", "schedules", "configurations"], "every state and history of the original, new configuration and space, and later operations on both",
  "No test of the concrete algorithms copies anything.",
  ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go"], [("copy of implementation and data", "Copy methods")],
  ["behaviour of both algorithms"])

p("C25", "User data are never modified by the library",
  "No operation of the library modifies the observations, series, centroids, labels, weights or slices handed to it, nor the values it returned earlier. "
  "Modifying the slice of initial observations after construction does not change the algorithm, and running algorithms that share the same observations do not disturb each other.",
  ["inputs", "histories"], "every entry point, space and implementation",
  "Tests never compare inputs after a call.",
  ["core/clustering.go", "core/par_dba.go", "core/buffer.go", "euclid/vectors.go", "dtw/interpolate.go", "kmeans/init.go", "mcmc/store.go", "streaming/impl.go"],
  [("fresh results and defensive copies", "all packages")], ["deep comparison of inputs before and after"])

p("C26", "Results are reproducible from the seed",
  "Two algorithms built with the same configuration, observations and identically seeded random generators (in the configuration and distribution) and given the same sequence of pushes and control calls publish bit identical centroids and figures, time related figures excepted. "
  "This holds for kmeans, mcmc and streaming, in sequential and parallel modes, whatever the scheduling of goroutines, the number of processors in use and, in sequential mode or when NumCPU is given, that of the machine. "
  "No other source of randomness is used when a generator is given.",
  ["schedules", "configurations", "inputs"], "every configuration, seed and schedule",
  "Tests never compare two executions.",
  ["kmeans/conf.go", "kmeans/init.go", "mcmc/impl.go", "mcmc/par.go", "mcmc/store.go", "mcmc/multivt.go", "streaming/impl.go", "core/util.go"],
  [("use of the configured generator", "kmeans, mcmc, streaming"), ("deterministic partition and aggregation", "core/util.go, core/par_dba.go")],
  ["Centroids()", "RuntimeFigures()"])

p("C27", "Configurations are validated and completed with defaults",
  "Building an algorithm panics, and verification returns an error, for every invalid configuration and for no valid one: K or InitK lower than 1, InitK greater than MaxK, OutAfter lower than 2, streaming buffer smaller than the initial observations, negative Iter, IterPerData, DataPerIter, IterFreq or Timeout. "
  "Missing parameters get their documented defaults (kmeans: all CPUs, a generator; mcmc: ProbaK 1,8,1, Norm 2, MaxK 16, B 1; streaming: BufferSize 100, Mu 0.5, Sigma 0.1, OutRatio 2, OutAfter 5) and given ones are kept. "
  "Verification is idempotent.",
  ["configurations"], "every combination of parameter values",
  "Tests check one or two invalid values and some of the defaults.",
  ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go", "streaming/algo.go", "kmeans/algo.go", "mcmc/algo.go"],
  [("Verify and SetDefaultValues", "conf.go files")], ["NewAlgo panics", "Verify errors", "values after SetDefaultValues"])

p("C28", "Memory and goroutines stay bounded over the life of an algorithm",
  "Whatever the number of observations pushed, runs and results read, an algorithm retains only the observations of its frame (when FrameSize is set) and those not yet applied by an iteration, its current centroids, for mcmc one set of accepted centres per number of clusters, for streaming the observations waiting in its buffer and its centres. "
  "Observations, results and timers that are over are released, and so is an algorithm that does not run and is no longer referenced. "
  "The number of goroutines does not depend on the number of runs, timeouts, notifications or waits it has had.",
  ["histories", "schedules"], "every implementation, space and history of pushes, runs, stops, timeouts and copies",
  "Tests push a few observations in one or two runs and never look at what is retained.",
  ["core/buffer.go", "core/ctrl.go", "core/timeout.go", "core/status.go", "mcmc/store.go", "mcmc/impl.go", "streaming/impl.go", "kmeans/impl.go"],
  [("sliding window of the frame", "core/buffer.go"), ("end of runs and timeouts", "core/ctrl.go, core/timeout.go"), ("store of accepted centres", "mcmc/store.go")],
  ["memory reachable from the algorithm", "goroutines"])

p("C29", "Implementations and callbacks are given a faithful model",
  "At each call of an implementation (initialisation, iteration, push, copy), of the configured end condition and of the notifier, what they are given describes the algorithm at that moment: its own configuration and space (for a copy those given to Copy), "
  "the status Initializing during an initialisation, Running for an iteration, and the current one otherwise, the centroids and figures of the last initialisation or successful iteration with the iterations and accepted pushes counted so far, whatever failed, was empty or is concurrent; the notifier is given the algorithm itself. "
  "Figures given to an implementation are its own copy. Each operation calls the implementation exactly as many times as it means: one initialisation per Init or Play of an algorithm created or finished, one push per Push with the very element given, one copy per Copy, whose result is the one used; the error of a push or a copy is returned as it is.",
  ["histories", "schedules"], "every implementation, configuration and history of operations, sequential or concurrent",
  "Tests use implementations that ignore the model.",
  ["core/ctrl.go", "core/model.go", "core/algo.go", "core/impl.go"],
  [("models built for each call", "core/ctrl.go run, Push, init, Copy"), ("model of a copy", "core/model.go NewSimpleOCModel"), ("notifier", "core/algo.go notify")],
  ["the arguments of Impl, Finishing and StatusNotifier"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
