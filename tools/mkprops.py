#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
NSF = "cpnest/NestedSampling.py"; SF = "cpnest/sampler.py"; PF = "cpnest/proposal.py"
CF = "cpnest/cpnest.py"; N2 = "cpnest/nest2pos.py"; MF = "cpnest/model.py"; PX = "cpnest/parameter.pyx"
E2E = "The two stable tests only run two end-to-end smoke runs and assert nothing about the numbers; "

prop("C01", "Live points stay ordered, complete and searchable",
 "The container of live points is at all times sorted by non-decreasing log-likelihood, holds exactly the points put in and not yet removed, and reports for each insertion the position at which the new point really sits (after any points of equal likelihood). Removing the n worst points removes exactly the n lowest and keeps every other point in order. This holds for every history of insertions and removals.",
 ["inputs", "histories"], "every initial collection of points, every history of insert / remove-n-worst operations, including ties",
 E2E + "one random history of distinct likelihoods per run, never ties, and a mis-sorted live set does not crash.",
 [NSF], [("ordered container", NSF + ": KeyOrderedList, OrderedLivePoints")],
 [("sorted key list", "keys of the stored points, kept parallel to them", NSF + ": KeyOrderedList._keys")], ["live set after each operation", "returned index"])

prop("C02", "Each iteration replaces exactly the worst live points, by strictly better ones",
 "One nested-sampling iteration with n workers removes exactly the n lowest-likelihood live points and adds exactly n new ones, each with log-likelihood strictly above the n-th lowest likelihood of the live set at the start of the iteration; the live set keeps its size and all the other points. The likelihood threshold handed to the workers is exactly that n-th lowest value and never decreases from one iteration to the next.",
 ["inputs", "schedules", "histories"], "every live set, every number of workers below the number of live points, every sequence of worker replies (acceptable or not, in any order of likelihood)",
 E2E + "an unconstrained or off-by-one replacement only biases the evidence, which no stable test looks at.",
 [NSF], [("iteration step", NSF + ": NestedSampler.consume_sample"), ("threshold", NSF + ": NestedSampler.get_worst_n_live_points")],
 [("live set", "ordered live points", NSF + ": NestedSampler.params"), ("threshold", "shared minimum log-likelihood", NSF + ": NestedSampler.logLmin")], ["live set and threshold after an iteration"])

prop("C03", "The nested-sample record lists every dead and final live point once, in order",
 "The recorded nested samples are in non-decreasing log-likelihood order over the whole run; each iteration appends exactly the points it removes from the live set, and at the end of the run each remaining live point is appended exactly once. A finished run therefore records exactly (number of replacements + number of live points) samples, feeds the evidence one contour per iteration with the right number of points removed plus one per final live point with the right shrinking live count, and returns that record with the final evidence.",
 ["inputs", "histories"], "every run length, live set, worker count and sequence of replies",
 E2E + "a lost, duplicated or out-of-order sample leaves a run that still completes.",
 [NSF], [("iteration step", NSF + ": NestedSampler.consume_sample"), ("final adjustments", NSF + ": NestedSampler.nested_sampling_loop")],
 [("record", "nested samples so far", NSF + ": NestedSampler.nested_samples")], ["nested samples returned by a run"])

prop("C04", "The coordinator never waits for a reply nobody owes it",
 "Whenever the coordinator blocks on a worker it has an unanswered request outstanding with that same worker; in an iteration every worker is asked once per replacement attempt and answered once, so no request is left unanswered, and populating the live set never blocks on a worker that was not asked, even if workers return points of zero likelihood. When the run ends, every worker is told to stop exactly once, after the threshold has been raised to +infinity.",
 ["schedules", "inputs", "histories"], "every number of workers and live points (whether or not divisible), every sequence of acceptable and unacceptable replies",
 E2E + "they use likelihoods that are finite everywhere and one schedule; a stall only appears with rejected initial points or particular counts.",
 [NSF], [("populate", NSF + ": NestedSampler.reset"), ("iteration", NSF + ": NestedSampler.consume_sample"), ("shutdown", NSF + ": NestedSampler.nested_sampling_loop")],
 [("worker rotation", "which worker is read next", NSF + ": NestedSampler.queue_counter")], ["messages on the worker pipes"])

prop("C05", "Insertion ranks are exact and lie in [0, 1]",
 "For every replacement the run records the new point's rank among the live points that survive the iteration, as the fraction (number of such points with likelihood not above the new one) / (number of such points); the fraction always lies in [0, 1] and exactly one is recorded per replacement. The uniformity test is run on these ranks: on the most recent live-point-count of them while running, on all of them at the end.",
 ["inputs", "histories"], "every live set (with ties), number of workers and replies",
 E2E + "the ranks are only logged.",
 [NSF], [("rank", NSF + ": NestedSampler.consume_sample"), ("test", NSF + ": NestedSampler.check_insertion_indices")],
 [("ranks", "insertion ranks", NSF + ": NestedSampler.insertion_indices")], ["recorded insertion ranks"])

prop("C06", "The running evidence is the prior-volume-weighted likelihood sum",
 "Starting from zero evidence at prior volume 1, each recorded contour removing m points from N live points multiplies the prior volume by exp(-m/N) and adds likelihood times the volume removed to the evidence; the recorded likelihoods and volumes list every contour once in order, and volumes strictly decrease. The evidence therefore never decreases and scaling all likelihoods by a constant scales it by the same constant; the information estimate follows the weighted mean of log-likelihood minus log-evidence.",
 ["inputs", "histories"], "every sequence of contours, including -infinity likelihoods, and every live count / batch size",
 E2E + "a wrong evidence is invisible to them.",
 [NSF, N2], [("accumulator", NSF + ": _NSintegralState.increment / reset"), ("log of a difference", N2 + ": logsubexp")],
 [("history", "contour log-likelihoods and log-volumes", NSF + ": _NSintegralState.logLs / log_vols")], ["evidence, information, history after each contour"])

prop("C07", "The final evidence is the trapezoidal integral over the recorded contours",
 "The reported final log-evidence is the log of the sum over successive recorded contours of half the sum of the two likelihoods times the decrease in prior volume, over the whole history including the initial contour of zero likelihood at volume 1. The helper functions compute log(exp x - exp y) and this integral exactly (in real arithmetic), reject a negative difference, and lie between the lower and upper rectangle sums.",
 ["inputs", "histories"], "every history of contours; every pair x >= y including -infinity",
 E2E + "a wrong evidence is invisible to them.",
 [NSF, N2], [("final evidence", NSF + ": _NSintegralState.finalise"), ("integral", N2 + ": log_integrate_log_trap, logsubexp")], [], ["evidence after finalisation"])

prop("C08", "Posterior weights are likelihood times removed prior volume over the evidence",
 "For a chain of M samples from a run with N live points, each sample gets exactly one log-weight: its log-likelihood plus the log of the prior volume between it and its predecessor, minus the log-evidence, where the volume starts at 1, shrinks by (1-1/N) at each of the first M-N+2 samples and from there by (1-1/N), (1-1/(N-1)), (1-1/(N-2)), ... for as many samples as remain. The returned evidence is the trapezoidal integral over those same volumes closed with the last likelihood, so that adding a constant to all log-likelihoods shifts the evidence by it and leaves the weights unchanged.",
 ["inputs"], "every chain length (shorter or longer than the live count), every live count, every likelihood values",
 E2E + "they never compare a weight with anything.",
 [N2], [("weights", N2 + ": compute_weights")], [], ["returned evidence and weights"])

prop("C09", "Posterior samples are distinct chain rows kept with the right probability",
 "Drawing a posterior returns rows of the input chain, in order and without repetition, keeping a row exactly when its weight relative to the largest weight exceeds an independent uniform number in [0, 1), so the largest-weight row is always kept. When several runs are combined each run is reweighted by its own evidence divided by its own number of samples, relative to the largest such ratio, and the run with the largest ratio loses no row.",
 ["inputs"], "every chain, weight vector, number of runs and outcome of the random numbers",
 E2E + "the drawn posterior is random and never compared with the weights.",
 [N2, CF], [("single run", N2 + ": draw_posterior"), ("many runs", N2 + ": draw_posterior_many"), ("user entry", CF + ": CPNest.get_posterior_samples")], [], ["returned posterior rows"])

prop("C10", "A fixed-size posterior draw always succeeds and follows the weights",
 "Asking for N posterior samples from one run returns exactly N rows of the input chain, row i being chosen exactly when the uniform random number falls in the i-th interval of the normalised cumulative weights, for every possible value of the random number and every weight vector with a positive total. Across several runs each run contributes round(N times its share of the total evidence) rows, all rows are returned together, and runs with no share contribute none.",
 ["inputs"], "every weight vector (whatever its sum), every N including 0, every random number in [0,1), every number of runs",
 "No existing test calls the fixed-size draw at all.",
 [N2], [("fixed-size draw", N2 + ": draw_N_posterior, draw_N_posterior_many")], [], ["returned rows"])

prop("C11", "The Metropolis-Hastings sampler accepts exactly the moves it should",
 "At each step the Metropolis-Hastings sampler moves to the proposed point if and only if the log prior ratio plus the proposal's log-Jacobian exceeds the log of a fresh uniform number and the proposed log-likelihood is strictly above the current threshold; otherwise it stays where it is. Every step is recorded, a request ends after at least the current chain length with at least one acceptance or at the maximum chain length, and the final point goes back into the pool (whose size is unchanged) and is the one returned, with the true step count and acceptance fractions.",
 ["inputs", "schedules", "histories"], "every proposal outcome, prior, likelihood (including -inf and NaN values), threshold and random number, chains of any length",
 E2E + "a sampler accepting wrong moves still terminates and yields plausible samples.",
 [SF], [("MH kernel", SF + ": MetropolisHastingsSampler.yield_sample")],
 [("pool", "points evolved by the sampler", SF + ": Sampler.evolution_points")], ["chain of points", "returned point and count"])

prop("C12", "The slice sampler samples the constrained prior slice",
 "Every move of the slice sampler lands at a point with log-prior above the drawn slice level (at or below the log-prior of the current point) and log-likelihood strictly above the threshold, on the chosen line through the current point and inside the current bracket; brackets always contain the current point, are expanded at most the allowed number of steps in total, only while the end is within the prior bounds and above the slice level, and only shrink afterwards. If nothing is accepted the point stays put; the pool keeps its size, and the tuned length scale stays positive.",
 ["inputs", "schedules"], "every direction, prior, likelihood, threshold, random number and bracket",
 "No stable test uses the slice sampler.",
 [SF], [("slice kernel", SF + ": SliceSampler.yield_sample, reset_boundaries, increase_left_boundary, increase_right_boundary, adapt_length_scale")],
 [("bracket", "interval along the slice line", SF + ": SliceSampler.L / R")], ["points produced", "bracket"])

prop("C13", "Hamiltonian moves stay in bounds and above the threshold and reflect exactly",
 "Hamiltonian position updates leave every coordinate inside its prior bounds, flipping the sign of the corresponding momentum once per reflection and changing no other; momentum updates use the full or half force step, or an exact (norm-preserving) reflection about the unit normal when the likelihood constraint is not met. A trajectory has the configured number of steps in both time directions, the proposed point is one of its interior points, its Hamiltonian change gives the acceptance log-probability min(0, dH), and a point is accepted only if its log-likelihood exceeds the threshold.",
 ["inputs", "schedules"], "every momentum, step size, bounds, force, likelihood and threshold, any trajectory length",
 "No stable test uses the Hamiltonian sampler.",
 [PF, SF], [("position / momentum step", PF + ": ConstrainedLeapFrog.evolve_trajectory_one_step_*"), ("trajectory", PF + ": ConstrainedLeapFrog.evolve_trajectory, sample_trajectory"), ("acceptance", PF + ": LeapFrog.get_sample; " + SF + ": HamiltonianMonteCarloSampler.yield_sample")], [], ["trajectory points", "accepted points"])

prop("C14", "Jump proposals compute the right move and never disturb the ensemble",
 "Each ensemble proposal returns the point its definition prescribes: the walk adds centred Gaussian multiples of three distinct ensemble members' deviations from their mean, the stretch moves along the line through a random member by a factor in [1/2, 2] and reports dimension times log factor as log-Jacobian, differential evolution adds a near-unit multiple of the difference of two distinct members, the eigenvector jump adds a multiple of one eigenvector scaled by the root eigenvalue; all but the stretch report zero log-Jacobian. No proposal changes any point of the ensemble.",
 ["inputs"], "every ensemble, current point, dimension and outcome of the random numbers",
 E2E + "a wrong Jacobian or a mutated ensemble only biases results.",
 [PF], [("proposals", PF + ": EnsembleWalk, EnsembleStretch, DifferentialEvolution, EnsembleEigenVector .get_sample; EnsembleSlice*.get_direction")], [], ["proposed point, log-Jacobian, ensemble before and after"])

prop("C15", "A proposal cycle keeps normalised weights and reports the used jump's Jacobian",
 "A proposal cycle's weights are the given ones divided by their sum, so they add to one, also after adding a proposal; a list of weights of the wrong length is refused. Every draw advances through the cycle by one and wraps around, delegates to exactly the proposal at that place, returns its point unchanged and exposes that proposal's log-Jacobian; a new ensemble reaches every ensemble proposal of the cycle.",
 ["inputs", "histories"], "every set of proposals and positive weights, every number of draws, any history of added proposals",
 E2E + "they use one default cycle and check nothing about it.",
 [PF], [("cycle", PF + ": ProposalCycle; EnsembleSliceProposalCycle.get_direction")], [("position", "place in the cycle", PF + ": ProposalCycle.idx")], ["delegated proposals, weights, log-Jacobian"])

prop("C16", "Live-point arithmetic, access and copies are exact and independent",
 "Adding, subtracting, scaling and dividing live points acts on every coordinate and only on coordinates; the plain operators leave both operands unchanged and the in-place ones change only their target; the result of a plain operator is a point that has not been evaluated, with log-likelihood and log-prior minus infinity. Access by name reads or writes exactly the named coordinate and refuses unknown names; a copy, a pickle round trip and the record-array form carry every coordinate, the log-likelihood and the log-prior, and changing a copy never changes the original.",
 ["inputs"], "every dimension, names, coordinates and operation",
 E2E + "they use 2 dimensions and compare no coordinate.",
 [PX], [("live point", PX + ": LivePoint")], [], ["coordinates, likelihood and prior of operands and results"])

prop("C17", "Prior support and unit-cube mapping agree with the bounds",
 "A point is in bounds exactly when every coordinate lies strictly between its lower and upper bound, the default log-prior is 0 there and -infinity elsewhere, and a newly drawn point always has coordinates within the bounds and non-zero prior. Mapping the unit cube to parameters is linear onto the bounds and the reverse mapping is its exact inverse; the default potential is minus the log-prior.",
 ["inputs"], "every number of parameters, bounds, coordinates and (user) prior",
 E2E + "they never evaluate a point outside the bounds, nor the unit-cube maps.",
 [MF], [("bounds and prior", MF + ": Model.in_bounds, log_prior, new_point, potential"), ("maps", MF + ": Model.from_normalised, to_normalised")], [], ["return values"])

prop("C18", "Resuming from a checkpoint restores the exact sampler state",
 "Loading a coordinator or worker checkpoint gives back every piece of its state (live points, record, evidence history, counters, threshold and maximum likelihood, pool, proposal state, tuning), attached to the new run's shared values, pipes, model and logger; only those run-bound parts differ. Every kind of worker can be checkpointed, and taking a checkpoint does not alter the running state.",
 ["histories", "inputs"], "every reachable state of the coordinator and of each kind of worker",
 "No stable test resumes a run.",
 [NSF, SF, PF], [("coordinator", NSF + ": NestedSampler.checkpoint, resume, __getstate__, __setstate__; _NSintegralState.__getstate__, __setstate__"), ("worker", SF + ": Sampler.checkpoint, resume, __getstate__, __setstate__")], [], ["state before checkpoint and after resume"])

prop("C19", "A crash while checkpointing never destroys the previous checkpoint",
 "If the process dies at any moment while writing a checkpoint, or serialisation fails half way, the checkpoint file on disk is either the complete previous checkpoint or the complete new one, never truncated or mixed. After a checkpoint call returns the file holds the new state.",
 ["crash_points", "fault_sequences"], "every point between two file-system operations of the checkpoint writer, every failure of serialisation; coordinator and worker",
 "No test kills the process during a checkpoint.",
 [NSF, SF], [("coordinator writer", NSF + ": NestedSampler.checkpoint"), ("worker writer", SF + ": Sampler.checkpoint")], [], ["checkpoint file after a crash"])

prop("C20", "An interrupted run checkpoints a consistent coordinator state",
 "When an interrupt arrives at any moment of the sampling loop, the state written by the coordinator is the state at an iteration boundary: the live set has its full size, no removed point is missing from or repeated in the record, and evidence, history and counters belong to that same boundary. All workers are then told to checkpoint and the process exits with the checkpoint status; periodic checkpoints are only taken between iterations.",
 ["crash_points", "schedules", "histories"], "an interrupt at every statement of the sampling loop and of what it calls, for every state and worker count",
 "No test sends a signal to a run.",
 [NSF, CF], [("interrupt handling", NSF + ": NestedSampler.nested_sampling_loop"), ("signal handler", CF + ": sighandler")], [], ["pickled state after an interrupt"])

prop("C21", "A worker answers each request once and stops when told",
 "A worker process answers every request it takes from the coordinator with exactly one reply carrying the point its sampler produced under the current threshold, produces nothing unasked, and takes requests in order. It stops on the stop message or when the threshold is +infinity, and on a checkpoint request writes its own checkpoint and exits with the checkpoint status without sending anything further.",
 ["schedules", "histories"], "every interleaving of requests, idle periods, checkpoint requests and stop messages",
 E2E + "one schedule per run, never a checkpoint message.",
 [SF], [("worker loop", SF + ": Sampler._produce_sample, produce_sample")], [], ["messages sent and received by a worker"])

prop("C22", "Workers get distinct pipes, seeds and checkpoint files",
 "Setting up a run starts exactly the requested number of workers of each kind, each with its own end of a distinct message pipe, a seed different from every other worker's, the shared threshold and maximum of this run, and a checkpoint file no other worker uses; this holds for every mix of the three kinds of worker, fresh or resumed. A request to checkpoint reaches every worker through the flag the workers read.",
 ["configurations"], "every total number of workers and every split into the three kinds, with and without checkpoint files present",
 E2E + "only 8 Metropolis-Hastings workers, never mixed kinds, never resumed.",
 [CF], [("set-up", CF + ": CPNest.__init__"), ("pipes", CF + ": RunManager.__init__, connect_producer"), ("checkpoint flag", CF + ": CPNest.checkpoint")], [], ["worker objects created"])

prop("C23", "The adaptive chain length stays within its limits",
 "However acceptance evolves, the chain length estimated on the fly is an integer at least the safety minimum and at most the larger of that minimum and the configured maximum, follows the documented moving average of (2/acceptance - 1) (growing when nothing is accepted), and the chain-based estimate is the integer part of the largest autocorrelation length but never below its minimum. The autocorrelation length of a chain is never below 1.",
 ["inputs", "histories"], "every acceptance history and chain, every maximum and pool size",
 E2E + "the chain length is never checked.",
 [SF, N2], [("adaptation", SF + ": Sampler.estimate_nmcmc_on_the_fly, estimate_nmcmc"), ("autocorrelation", N2 + ": acl")], [], ["chain length"])

prop("C24", "The shared maximum likelihood never loses an update",
 "The maximum log-likelihood shared by all workers never decreases and, whatever the interleaving of workers, is at least the log-likelihood of every point any worker has accepted. This holds for all three kinds of worker.",
 ["schedules"], "every interleaving of the workers' reads and writes of the shared maximum, every sequence of accepted likelihoods",
 "A lost update needs two workers to race within a few instructions; no test provokes it or looks at the value.",
 [SF], [("maximum update", SF + ": MetropolisHastingsSampler / HamiltonianMonteCarloSampler / SliceSampler .yield_sample")],
 [("shared maximum", "largest log-likelihood seen by any worker", SF + ": Sampler.logLmax")], ["shared maximum after each accepted point"])

prop("C25", "Every sample carries the likelihood and prior of its own coordinates",
 "Every point a worker returns, keeps in its pool or records in its chain because of an accepted move carries exactly the log-likelihood and log-prior the user's functions give at that point's coordinates, for all three samplers; the initial pool has finite log-prior and evaluated likelihood. No sampler ever returns a freshly accepted point whose prior is zero or whose likelihood does not exceed the threshold.",
 ["inputs", "schedules", "histories"], "every model, proposal, threshold and chain length",
 E2E + "a stale likelihood attached to a moved point is invisible to them.",
 [SF, PF], [("initial pool", SF + ": Sampler.reset"), ("kernels", SF + ": *.yield_sample"), ("Hamiltonian constraint", PF + ": ConstrainedLeapFrog.check_constraint")], [], ["coordinates, likelihood and prior of produced points"])

prop("C26", "Output files list every sample with its own values",
 "The chain file has the header of parameter names and likelihood and then exactly one line per recorded nested sample, in order, with that sample's coordinates in header order at full precision followed by its log-likelihood; the evidence file holds the final log-evidence, the maximum log-likelihood and the information. The nested samples returned to the user are the recorded ones, one row each in order with all columns.",
 ["inputs"], "every number of samples, parameter names and values",
 E2E + "no test reads an output file back.",
 [NSF, MF, CF], [("chain and evidence files", NSF + ": NestedSampler.write_chain_to_file, write_evidence_to_file"), ("line format", MF + ": Model.strsample, header"), ("user arrays", CF + ": CPNest.get_nested_samples")], [], ["files in the output folder"])

prop("C27", "The run stops exactly when the remaining evidence estimate is within tolerance",
 "The sampling loop keeps iterating while log(Z + Lmax*X) - log Z exceeds the tolerance, where X = exp(-n/N) is the remaining prior volume after the n points replaced before the points of the current iteration were removed, Z the evidence accumulated so far (those points included) and Lmax the shared maximum likelihood, and stops at the first iteration where it does not; at least one iteration is made by a fresh run. Prior-only runs make no iteration and record exactly the initial live points.",
 ["inputs", "histories"], "every evidence history, maximum, tolerance and number of live points",
 E2E + "an early or late stop still completes.",
 [NSF], [("stopping condition", NSF + ": NestedSampler.consume_sample, nested_sampling_loop")], [("condition", "estimated remaining log-evidence", NSF + ": NestedSampler.condition")], ["number of iterations"])

prop("C28", "Run logging attaches its file only while the run is active",
 "While a run's log context is open exactly one new handler writes to the run's log file at the requested verbosity, and on leaving it, normally or through an exception (which is not swallowed), that handler is detached and closed and all handlers that were there before remain. A context can be entered again later.",
 ["histories", "inputs"], "every history of entering and leaving contexts, with and without exceptions, every verbosity 0-3",
 "No test inspects log handlers or leaves a context through an exception.",
 ["cpnest/utils.py"], [("log file context", "cpnest/utils.py: LogFile, _Handler")], [], ["handlers of the package logger"])

prop("C29", "Resampled MCMC chains contain only rows of the chain, thinned by its correlation",
 "Resampling an MCMC chain returns distinct rows of that chain and at least one, chosen from every k-th row where k is the rounded largest autocorrelation length over the parameters (likelihood and prior columns excluded), each later row being kept exactly when its log-posterior gain over its predecessor exceeds the log of a fresh uniform number. With burn-in requested the first half is discarded first.",
 ["inputs"], "every chain, column set, correlation length and random outcome, with and without burn-in",
 "Only run at the highest verbosity, with no check on the result, never with burn-in.",
 [N2], [("resampling", N2 + ": resample_mcmc_chain")], [], ["returned rows"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
