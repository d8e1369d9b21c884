HOW = {
'C01': """Class invariant of the ordered live set (keys sorted, points and keys in step, key of each point its likelihood) proved for construction, insertion, removal, deletion by index and lookup from an arbitrary state satisfying it; insertion position is after equal likelihoods; everything else untouched.""",
'C02': """One iteration of the coordinator from an arbitrary live state: exactly the nthreads worst are removed and recorded in order, the threshold is the likelihood of the last of them and is published before a request goes out, a replacement is inserted only when strictly above, ghosts carry the ledger.""",
'C03': """The record of dead points: one per contour and in order, stays ordered, its likelihood and volume lists grow in step; loops cut at the main loop and the closing loop with the record relation as invariant.""",
'C04': """Ghost ledger of requests and replies over the pipes: sent − received per worker, proved at every send and receive of the coordinator (population, iterations, stop and checkpoint messages) and closed at the end; workers' side is C21.""",
'C05': """Rank recorded for a replacement = (points below it)/(number of live points then), proved against the ordered-set contract of C01; 0 ≤ rank ≤ 1.""",
'C06': """Recurrences of volume, evidence and information proved for `increment` as the exact log-space recurrence on extended reals, state lists in step.""",
'C07': """`finalise` and the log-integral helpers: exact trapezium sum over all contours with the boundary terms, as a sum over sequences (recursive spec function, lemmas by induction).""",
'C08': """Posterior weights against the schedule of volumes (recursive spec functions), normalisation, shapes; the lemmas on sums are proved by induction obligations.""",
'C09': """Row i is kept exactly when w_i exceeds the number drawn for it; at most once, order kept, nothing else; -inf weights never kept.""",
'C10': """Requested size delivered, rows are rows of the input, choice uses exactly the normalised weights; several chains weighted by their evidence.""",
'C11': """Ghost chain followed from the draws the kernel makes: a move is made exactly when u < exp(Δ log-prior + log J) and the likelihood is strictly above; the loop ends exactly by the stated rule; counters; pool keeps its size and the other points.""",
'C12': """`SliceSampler.yield_sample` under contract (`contracts/slicek.py`): ghosts follow what the kernel asks of the outside world (uniform and exponential draws, prior, likelihood, in_bounds); monitors prove for every draw that the slice level is below the prior of the current point, that the bracket contains the current point, is expanded only while its end is in bounds and not below the level and at most the allowed number of steps in total, afterwards only shrinks towards the current point, that every candidate is on the chosen line at the drawn place and above the level, and that the point handed on is where the accepted moves lead.  Three nested loops: exits are merged into one state described by the candidates valid at every exit.  Bracket operations and the length-scale rule have their own exact contracts.""",'C13': """The whole chain under contract, function by function: position step = fold of the exact move into the bounds (`TRI`/`EVEN`, defined by the reflection equations) with the parity of reflections on the momentum; momentum step = half / full force step or the exact reflection about the unit normal; trajectory = L steps of these in both time directions, as a relation between consecutive points; an interior point is chosen; acceptance log-probability min(0, ΔH); acceptance in `HamiltonianMonteCarloSampler.yield_sample`.""",
'C14': """Each ensemble proposal is proved to give the formula of the move from the numbers drawn, with its Jacobian, leaving the ensemble alone; eigen-decomposition by the assumed contract of numpy.""",
'C15': """Weights divided by their sum, also after adding a proposal; cycle index arithmetic; the draw is delegated to exactly the proposal at that place and its Jacobian exposed; the ensemble reaches every proposal.""",
'C16': """All bodies of `parameter.pyx` proved as vector-space operations on the coordinates with fresh results, by-name access, equality, copy and pickling round trip.""",
'C17': """`in_bounds`/`log_prior` agree with the box (open), `new_point` and the unit-cube maps are inside and inverse to each other.""",
'C18': """Real `__getstate__`/`__setstate__`/`checkpoint`/`resume` run through a ghost pickle from an arbitrary state (every attribute a method stores): taking a checkpoint changes nothing, the restored object equals the original except for what must be new, which is attached to the new run; shared threshold and maximum restored.""",
'C19': """Ghost file system with a crash point after every file operation: the checkpoint file always holds the previous or the complete new image, also when the disk fills up.""",
'C20': """An interrupt may arrive at every statement of the coordinator's loop; the ledger, the record and the live set stay consistent, the checkpoint is written and the exit status is the resume one.""",
'C21': """Worker loop: every request answered at most once and by the point of the current kernel call; stops on stop or +inf threshold; checkpoints exactly once when told; pool initialised once.""",
'C22': """Constructor and `resume` of everything a run needs: numbers of workers per kind, one pipe per worker, distinct seeds and file names, resumed iff the file is there, arguments passed on; population split.""",
'C23': """Chain length on the fly: integer between the safety minimum and max(minimum, maxmcmc), exact moving-average formula, growth when nothing is accepted; chain-based estimate: integer part of the largest correlation length, at least its minimum; `acl` at least 1.""",
'C24': """Shared maximum under a lock with rely/guarantee: other workers may raise it at any moment; it never decreases and covers each accepted likelihood.""",
'C25': """Ghost set of points that own their likelihood and prior: recorded, returned and kept points of an accepted move carry LL and PP of their coordinates, positive prior, above the threshold.""",
'C26': """Writers under a ghost of the open text file: header once, one line per point in order, values parse back by column; user arrays in the order of names.""",
'C27': """The loop is left exactly when log(Z + Lmax X) - log Z is within the tolerance, with the values current at that iteration; prior runs make no iteration.""",
'C28': """Ghosts for attached handlers and open files: every public operation maps the closed state to the open one and back, also when the body raises; other handlers untouched.""",
'C29': """Rows of the result are rows of the chain, distinct, at least one, from every k-th row, each later one kept exactly when its gain exceeds the log of its own uniform number; burn-in drops the first half.""",
}
SEEDED_BY = {'b01-ties-inserted-first': 'C01 (obligation and replay)', 'b02-not-strictly-better': 'C02 (obligation and replay)', 'b03-volume-linearised': 'C06 (obligation and replay)', 'b04-final-sum-forgets-prior-boundary': 'C07 (obligation and replay)', 'b05-rank-denominator': 'C05 (obligation and replay)'}
