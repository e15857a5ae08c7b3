SPECIFICATION Spec
CONSTANTS Freqs = {1, 2, 3}
 Sizes = {1, 3}
 Caps = {3, 6}
 MaxLimit = 2
 MaxEpisodes = 3
 MaxSteps = 5
INVARIANTS Cadence InsertedOnce Bounded EpisodesBounded SizeGrows Emit
CHECK_DEADLOCK FALSE
