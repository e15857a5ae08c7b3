SPECIFICATION Spec
CONSTANTS Freqs = {1, 2, 3, 4}
 Sizes = {1, 3}
 Caps = {3, 6}
 MaxLimit = 3
 MaxEpisodes = 3
 MaxSteps = 8
INVARIANTS Cadence InsertedOnce Bounded EpisodesBounded SizeGrows
CHECK_DEADLOCK FALSE
