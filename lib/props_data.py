IN = ["inputs"]
NOTE = "random search with shrinking over the stated generators; never establishes absence"
T_CORE = "the six test programs print values and assert nothing; "


def fill(prop):
    prop("C01", "Key names and codes denote the right key",
         "Every accepted spelling of a key (letter, optional sharp or flat; upper case major, lower case minor) denotes "
         "the key with that tonic and mode, keeps the spelling it was given, and codes and canonical names convert back "
         "and forth without loss, enharmonic spellings comparing equal. Any other text or number denotes no key: it is "
         "neither major nor minor and has no name, whatever was in memory before.",
         IN, "all 42 spellings, all 24 codes, arbitrary other strings and integers, all pairs",
         T_CORE + "they construct a handful of keys and never an invalid one",
         ["src/key.cc", "include/key.h"], [("spelling table", "src/key.cc: initStringToIntMap"), ("constructors", "src/key.cc")],
         "property-based testing (Hypothesis) of a sanitized bridge against tonal arithmetic", NOTE)
    prop("C02", "Key relations obey tonal arithmetic",
         "The relative of a major key lies nine semitones up in minor (and back), the parallel shares the tonic, the "
         "dominant and subdominant lie a fifth up and down in the same mode. Relative and parallel undo themselves, "
         "dominant and subdominant undo each other, twelve fifths return, and relations commute; a relation of something "
         "that is not a key is not a key.",
         ["inputs", "histories"], "every key by every spelling, every word of relations and copies",
         T_CORE + "no test composes relations", ["src/key.cc"],
         [("getRelativeKey/getParallelKey/getDominantKey/getSubDominantKey", "src/key.cc")],
         "property-based testing: random words of relations against a model, algebraic laws", NOTE)
    prop("C03", "Pitch-class names and codes denote the right pitch class",
         "Every accepted note spelling, in any letter case, denotes its pitch class and is reported under one canonical "
         "name; codes and names convert back and forth and comparison follows the pitch class. Any other text or number "
         "denotes no pitch class.",
         IN, "all 21 spellings in all letter cases, all codes, arbitrary other strings and integers",
         T_CORE + "invalid input is never tried", ["src/pitchclass.cc", "include/pitchclass.h"],
         [("spelling table and case folding", "src/pitchclass.cc")],
         "property-based testing (Hypothesis) of a sanitized bridge against tonal arithmetic", NOTE)
    prop("C04", "Key profiles are the named distributions, moved to every tonic",
         "Selecting a key profile by name gives the published distribution of that name (non-negative, summing to one up "
         "to the published rounding), selecting custom numbers gives exactly those numbers, and the likelihood of a note "
         "in a key depends only on the mode and the interval above the tonic. An unknown name is reported as invalid and "
         "selects nothing.",
         ["inputs", "configurations"], "every major/minor pair of names, every key and note, arbitrary custom numbers and names",
         T_CORE + "they print three profiles",
         ["src/keyprofile.cc", "include/keyprofile.h"], [("profile tables", "src/keyprofile.cc: initKeyProfileArrays"),
                                                           ("rotation to a tonic", "src/keyprofile.cc: getKeyProfileMap")],
         "property-based testing against published tables and a rotation model", NOTE)
    prop("C05", "Key transitions depend only on how two keys relate",
         "Transposing both keys never changes a transition value; from C major the values are exactly the selected table, "
         "every key's values are a rearrangement of it, and minor-to-minor follows major-to-major. Every named table is "
         "symmetric, follows the closeness ranking of keys, and (except the rank table itself) is a probability "
         "distribution in every row in which staying is likeliest; unknown names are invalid and select nothing.",
         ["inputs", "configurations"], "all named tables, arbitrary custom arrays and names, all key pairs",
         T_CORE + "they print one table",
         ["src/keytransition.cc", "include/keytransition.h"], [("transition tables", "src/keytransition.cc: initKeyTransitionArrays"),
                                                                 ("rotation", "src/keytransition.cc: getKeyTransitionMap")],
         "property-based testing: equivariance, symmetry and a rank model over named and custom tables", NOTE)
    prop("C06", "Decoding returns a most probable state sequence and exact scores",
         "For any model and observation sequence that has a possible explanation, decoding reports one state per "
         "observation, the sequence's own log-probability equals the reported maximum, no other sequence is more "
         "probable, and the reported score of each state is the best log-probability of any sequence ending there. This "
         "holds for pitch-class and for key observations alike.",
         IN, "all sets and orders of states, probabilities including repeats and zeros, observation sequences of any length",
         T_CORE + "one fixed five-observation sequence is decoded",
         ["src/hiddenmarkovmodel.cc"], [("log-domain max-product recursion and backtracking", "src/hiddenmarkovmodel.cc: runViterbi")],
         "property-based testing: differential against a reference decoder and brute force", NOTE)
    prop("C07", "Decoding is repeatable and models are independent",
         "Decoding the same model again, decoding a copy, or interleaving work on several models gives each model exactly "
         "the answer it gives alone. A model reports readiness only after decoding.",
         ["histories"], "all interleavings of create, decode, copy, read and print over several live models",
         T_CORE + "each model is decoded once", ["src/hiddenmarkovmodel.cc"], [("result members reset", "src/hiddenmarkovmodel.cc: runViterbi")],
         "stateful property-based testing: random operation histories over several models", NOTE)
    prop("C08", "Observations nothing can explain end in an error status, not a crash",
         "When there are no observations, or no state sequence can produce them, decoding finishes without failing, "
         "leaves the model not ready and reports no key sequence; the two-stage detector never pretends to a key then.",
         IN, "empty sequences, zero emissions, zero transitions, unreachable states, repeated attempts",
         T_CORE + "only explainable observations are tried", ["src/hiddenmarkovmodel.cc"],
         [("guards before and after the recursion", "src/hiddenmarkovmodel.cc: runViterbi")],
         "property-based testing with zero-probability generators under sanitizers", NOTE)
    prop("C09", "The detected key follows the music under transposition",
         "Detection on a note sequence runs local-key decoding, then picks the single key that best explains the local "
         "keys. Transposing every note by an interval transposes the local keys, all 24 scores and the detected key by "
         "the same interval; with a symmetric transition table playing the notes backwards leaves the best score "
         "unchanged, and a plain diatonic passage is heard in its own key.",
         ["inputs", "configurations"], "note sequences with modulations, all named and arbitrary custom profiles and transitions, all intervals",
         T_CORE + "no test detects a global key",
         ["src/hiddenmarkovmodel.cc", "src/keyprofile.cc", "src/keytransition.cc", "src/justkeydding.cc"],
         [("two-stage model", "src/justkeydding.cc: main")],
         "metamorphic and differential property-based testing of the two-stage detector", NOTE)
    prop("C10", "A chromagram file is read as what it says",
         "Reading a chromagram CSV yields exactly its rows: every timestamp with its twelve magnitudes, pitch class A "
         "first, in time order, whatever the order of the lines, the way numbers are written, the line ends, a trailing "
         "comma or blank lines. Slots are independent: loading one file never changes another chromagram, and "
         "a copy equals its original.",
         ["inputs", "histories"], "chromagrams of any length, times and magnitudes in every number format, line orders, loads in sequence",
         T_CORE + "no chromagram is read by any test",
         ["src/chromagram.cc", "include/chromagram.h"],
         [("row reader", "src/chromagram.cc: getChromagramFromCsv")],
         "property-based testing: generated files through a sanitized bridge against a reference reader", NOTE)
    prop("C11", "A chromagram becomes the note sequence its frames sound",
         "Frames are taken in time order and their magnitudes rounded down to whole numbers; a magnitude of n sounds its "
         "pitch class n-1 times (0 and 1, and anything negative, sound nothing), pitch classes in order from C. Of a run "
         "of frames that round to the same magnitudes only one sounds. So silence adds nothing, holding a chord for more "
         "frames changes nothing, and asking twice gives the same sequence.",
         ["inputs", "histories"], "chromagrams of any length with holds, silence, quantisation boundaries, negative magnitudes",
         T_CORE + "no test builds a chromagram",
         ["src/chromagram.cc"], [("discretisation and change detection", "src/chromagram.cc: getPitchClassSequence")],
         "property-based testing against a reference reduction, with hold/silence metamorphic relations", NOTE)
    prop("C12", "A printed chromagram can be read back",
         "Printing a chromagram and reading the text again gives the same times, magnitudes and note sequence, to the "
         "last bit of a float, in either column order.",
         IN, "chromagrams with any finite times and magnitudes",
         T_CORE + "no test prints or reads a chromagram",
         ["src/chromagram.cc"], [("printing", "src/chromagram.cc: print functions"), ("reading", "src/chromagram.cc: getChromagramFromCsv")],
         "property-based round-trip testing", NOTE)
    prop("C13", "Malformed chromagram files end in an error status, never a crash",
         "Whatever bytes a chromagram file holds, reading it and everything done with it afterwards stays within memory, "
         "terminates and throws nothing; a token that is not a finite number, or a file that is missing, gives the input "
         "file error status and no notes.",
         IN, "arbitrary bytes, single-token damage to valid files, truncations, wrong widths, missing files",
         T_CORE + "no test reads a file",
         ["src/chromagram.cc"], [("number parsing and status", "src/chromagram.cc: getChromagramFromCsv")],
         "fuzzing (structured and byte-level) under address and undefined-behaviour sanitizers", NOTE)
    prop("C14", "The audio front end hears the same music in every container",
         "A recording gives one finite, non-negative twelve-bin frame per analysis step at the documented times. "
         "Container and sample format, extra identical channels, and earlier loads in the same process do not change what "
         "is heard; silence sounds nothing; scaling the signal does not change the normalised frames. Missing, empty, "
         "damaged or non-audio files give an error status, never a crash.",
         ["inputs", "configurations", "histories"], "generated signals at several rates, lengths, channel counts, gains and encodings; truncated and corrupted files",
         T_CORE + "no audio is ever analysed by a test",
         ["src/chromagram.cc", "nnls-chroma-1.1/NNLSChroma.cpp", "nnls-chroma-1.1/NNLSBase.cpp"],
         [("file reading and block loop", "src/chromagram.cc: getChromagramFromAudio"), ("feature extraction", "nnls-chroma-1.1/NNLSChroma.cpp")],
         "metamorphic property-based testing with synthesised audio, byte-level fuzzing of containers", NOTE)
    prop("C15", "Synthesised chords sound as their own pitch classes at their own time",
         "For a sequence of sustained harmonic tones and chords, the frames lying wholly inside a segment have exactly "
         "the segment's pitch classes as their strongest, at every sample rate the tool accepts and in every "
         "transposition; a frame never sounds what is played elsewhere.",
         ["inputs", "configurations"], "chords over the middle registers, transpositions, sample rates, segment lengths",
         T_CORE + "no audio is analysed by any test",
         ["src/chromagram.cc", "nnls-chroma-1.1/NNLSBase.cpp", "nnls-chroma-1.1/NNLSChroma.cpp", "nnls-chroma-1.1/chromamethods.cpp"],
         [("spectral mapping, tuning, NNLS and fold to chroma", "nnls-chroma-1.1/NNLSChroma.cpp: getRemainingFeatures")],
         "property-based testing with a synthesis oracle", NOTE)
    prop("C16", "A MIDI file is read as its notes in time order",
         "The note sequence of a MIDI file is the pitch class of every note start, over all tracks, in time order: no note "
         "is lost or invented, note offs (in both encodings), other messages and channels play no part.",
         IN, "files of both formats, many tracks, running status, zero-velocity offs, metas and sysex between the notes",
         T_CORE + "the MIDI reader is not built by the tests",
         ["src/midi.cc", "include/midi.h"], [("event walk", "src/midi.cc")],
         "property-based testing: generated SMF files against a reference reading", NOTE + "; the midifile library is absent and replaced by a stand-in")
    prop("C17", "The program answers with the key its models imply",
         "Run on a file with chosen profiles and transitions, the program prints exactly one line naming the key that the "
         "two-stage model makes likeliest for the notes of that file; the same music as chromagram or MIDI gives the "
         "same answer, and audio gives the answer of its printed chromagram.",
         ["inputs", "configurations"], "note sequences in each input format under every profile and transition option",
         T_CORE + "the program itself is never run by the tests",
         ["src/justkeydding.cc"], [("pipeline", "src/justkeydding.cc: main")],
         "differential property-based testing of the command line against a reference model", NOTE)
    prop("C18", "Command-line options mean what the help says",
         "Custom numbers equal to a named table behave as that table, whatever is named beside them; anything but 24 numbers is refused with the count "
         "found; -f decides how any file is read, and without it the extension does; unknown options, values, extensions "
         "and input counts are refused without naming a key. Unreadable, empty or silent input ends in a non-zero exit "
         "and an error message. No command line crashes the program.",
         ["inputs", "configurations"], "all options with generated values and names, arbitrary argument lists, unreadable inputs",
         T_CORE + "the program itself is never run by the tests",
         ["src/justkeydding.cc"], [("option handling", "src/justkeydding.cc: main"), ("custom arrays", "src/justkeydding.cc: custom profile and transition parsing")],
         "property-based testing and argument fuzzing of the command line", NOTE + "; optparse is absent and replaced by a stand-in")
    prop("C19", "Evaluation and score output agree with the answer",
         "With -e the program compares its answer with the key at the end of the file name (after the last underscore) "
         "and prints the score of their relation: 1 the same key, 0.5 the dominant of the true key, 0.3 the relative, 0.2 "
         "the parallel, 0 anything else or no valid label. With -p it prints on one line the 24 key scores, C to B major then c to b "
         "minor, the reported key's the highest. Both agree with the plain run on the same input.",
         ["inputs", "configurations"], "all key pairs of answer and ground truth, file names, note sequences, options",
         T_CORE + "the program itself is never run by the tests",
         ["src/justkeydding.cc"], [("evaluation", "src/justkeydding.cc: main"), ("score printing", "src/justkeydding.cc: main")],
         "differential property-based testing of the command line against a reference model", NOTE)
    T_NNLS = "no test of the repository touches the feature extraction library; "
    N_ = ["nnls-chroma-1.1/NNLSBase.cpp", "nnls-chroma-1.1/chromamethods.cpp"]
    T_B = "property-based testing of a bridge to the library against a numpy model"
    prop("C20", "Spectra are mapped to pitch a third of a semitone per bin",
         "Each analysis frame gives one log-frequency spectrum at its own time: the fixed frequency-to-pitch map (three bins "
         "per semitone from MIDI pitch 20, the same smooth kernels at any sample rate and block size) applied to the "
         "frame's magnitudes. A frame that never reaches the silence threshold is silent, loud bins count at most full "
         "scale, and the bass noise threshold (rollon) empties the spectrum below it. A pure tone is strongest at its own pitch.",
         ["inputs", "configurations"], "sample rates, block sizes, spectra of every loudness, rollon values, pure tones of any pitch",
         T_NNLS + "the map depends on rate and block size",
         N_, [("map", "nnls-chroma-1.1/chromamethods.cpp: logFreqMatrix"), ("frame processing", "nnls-chroma-1.1/NNLSBase.cpp: baseProcess")],
         T_B, NOTE)
    prop("C21", "The non-negative least squares solver finds a best answer",
         "For any matrix and right-hand side the solver ends, its answer is non-negative and no non-negative vector has a "
         "smaller residual; the reported residual is the answer's own. Mixtures of note profiles are taken apart into the "
         "notes they were made of, and the order of the unknowns or the scale of the data does not matter.",
         IN, "well- and ill-posed problems, repeated and zero columns, more unknowns than equations, note dictionaries",
         T_NNLS + "optimality is a claim over all other answers",
         ["nnls-chroma-1.1/nnls.c", "nnls-chroma-1.1/chromamethods.cpp"], [("active-set solver", "nnls-chroma-1.1/nnls.c: nnls"),
                                                                          ("note dictionary", "nnls-chroma-1.1/chromamethods.cpp: dictionaryMatrix")],
         "property-based testing against the optimality (KKT) conditions and an independent solver", NOTE)
    prop("C22", "Chroma outputs follow from the log-frequency spectra",
         "The chroma plugin moves each log-frequency spectrum by the recording's tuning (or, in local mode, the running one), "
         "whitens it by its surroundings as far as asked, takes it apart into notes (or, without transcription, sums each "
         "note's own bins), and folds the notes to pitch classes from A under the treble and the bass windows. The stacked "
         "output is bass then treble, and normalisation divides by maximum, sum or Euclidean length, changing nothing else.",
         ["inputs", "configurations"], "recordings of tones, noise and silence under every parameter combination",
         T_NNLS + "the stages are only visible through the plugin's outputs",
         ["nnls-chroma-1.1/NNLSChroma.cpp"] + N_, [("tuning, whitening, NNLS and fold", "nnls-chroma-1.1/NNLSChroma.cpp: getRemainingFeatures")],
         T_B, NOTE)
    prop("C23", "Plugins start afresh, keep apart and describe themselves",
         "After a reset a plugin answers like a new one whatever it heard before; instances at work at the same time answer "
         "as each does alone; hosts that never query the outputs get the same features. A plugin that heard nothing "
         "reports nothing, and silence gives no pitch class, no chord and standard tuning. Parameters start at their "
         "described defaults and keep what they are set to; outputs have the described sizes, names and rates.",
         ["histories", "configurations"], "runs, resets and interleaved instances of the three plugins under every parameter combination",
         T_NNLS + "state left over shows only in histories",
         ["nnls-chroma-1.1/NNLSBase.cpp", "nnls-chroma-1.1/NNLSChroma.cpp", "nnls-chroma-1.1/Chordino.cpp", "nnls-chroma-1.1/Tuning.cpp"],
         [("reset and running sums", "nnls-chroma-1.1/NNLSBase.cpp: reset"), ("output numbers", "nnls-chroma-1.1/Chordino.cpp: getOutputDescriptors")],
         "stateful property-based testing: histories against fresh instances, metamorphic relations", NOTE)
    prop("C24", "The tuning of a recording is found",
         "Music tuned any number of cents (up to 45) off A=440 is reported at that concert pitch, whatever its notes and "
         "loudness, by the recording's total and by the running estimate; both are the direction of the three interleaved "
         "totals of the log-frequency spectrum. Loudness and the order of the frames do not change the global tuning.",
         IN, "tones, chords and scales at all tunings, arbitrary spectra, levels",
         T_NNLS + "no audio is analysed by any test",
         ["nnls-chroma-1.1/Tuning.cpp"] + N_, [("global tuning", "nnls-chroma-1.1/Tuning.cpp: getRemainingFeatures"),
                                              ("running tuning", "nnls-chroma-1.1/NNLSBase.cpp: baseProcess")],
         "property-based testing with a synthesis oracle and a numpy model", NOTE)
    prop("C25", "Chordino labels chords with the likeliest sequence",
         "The chord list starts with no chord at the first frame, changes label at each entry, runs forward in time and ends "
         "with N at the last frame; each chord's notes sound exactly while it does. The labels are the likeliest sequence "
         "for the frame-wise saliences of the chord dictionary in the bass and treble chroma, and sustained triads are "
         "labelled as themselves near their own time.",
         ["inputs", "configurations"], "chord progressions with detuning, noise and silence under every parameter",
         T_NNLS + "no audio is analysed by any test",
         ["nnls-chroma-1.1/Chordino.cpp"] + N_, [("chord saliences and smoothing", "nnls-chroma-1.1/Chordino.cpp: getRemainingFeatures")],
         "property-based testing with a synthesis oracle and a numpy model", NOTE)
    prop("C26", "The chord smoother finds a most probable path",
         "For any initial, transition and observation numbers, the smoother returns one state per frame such that no other "
         "sequence is more probable, with scores that are each state's best up to the reported scale factor; frames that "
         "no path explains restart it, and inputs of any length stay within the range of numbers.",
         IN, "models of any size with zeros and ties, unexplainable frames, thousands of frames",
         T_NNLS + "optimality is a claim over all other paths",
         ["nnls-chroma-1.1/viterbi.cpp"], [("scaled recursion and backtracking", "nnls-chroma-1.1/viterbi.cpp: ViterbiPath")],
         "property-based testing: differential against a reference decoder and brute force", NOTE)
    prop("C27", "The chord dictionary means what its labels say",
         "Every chord of the dictionary comes in twelve transpositions whose labels name root, type and bass in the chosen "
         "syntax, whose profiles are one another's rotations with the chord's own pitch classes, and whose notes are those "
         "pitch classes over the bass. No chord is flat and boosted as asked. A chord.dict on the plugin path replaces the "
         "built-in types in its own order and weights.",
         ["inputs", "configurations"], "both label syntaxes, all boosts, generated dictionary files",
         T_NNLS + "no test reads a dictionary",
         ["nnls-chroma-1.1/chromamethods.cpp"], [("dictionary", "nnls-chroma-1.1/chromamethods.cpp: chordDictionary"),
                                                 ("dictionary file", "nnls-chroma-1.1/chromamethods.cpp: chordDictionary, chord.dict loop")],
         "property-based testing against music-theory tables and generated dictionary files", NOTE)
    prop("C28", "The extractor programs print what the plugins find",
         "chromaextract prints one row per frame of a recording, time and twelve magnitudes from A as the detector's own front "
         "end finds them, and what it prints reads back as that chromagram; chordextract prints the chord list with times that "
         "Chordino finds. Recordings in any container, rate and length work, several channels counting as their mean. "
         "Wrong usage and unreadable recordings end with a message and status, never with a crash or invented rows.",
         IN, "recordings of tones and chords in every container, rate, length and channel count; wrong usage",
         T_NNLS + "no test runs the programs",
         ["nnls-chroma-1.1/chromaextract.cpp", "nnls-chroma-1.1/chordextract.cpp"],
         [("reading blocks and printing", "nnls-chroma-1.1/chromaextract.cpp: main"), ("chords", "nnls-chroma-1.1/chordextract.cpp: main")],
         "property-based testing: differential against the plugins, synthesis oracle", NOTE)
    prop("C29", "The optimiser's registries hold what was put in",
         "The registries of key profiles and key transitions return, under every name, the latest distribution stored and not "
         "yet removed; text handed to the detector carries every digit. Mixing takes the first one's major and the second's "
         "minor half. Flushing removes exactly the given names, keeping exactly the others, ratios included. Distributions that "
         "do not sum to 1 (either way) are reported, unknown names answered with nothing. The built-in tables are distributions, "
         "agree with the detector's own under the same name, and geometric ones have their ratio.",
         ["inputs", "histories"], "histories of inserts, mixes, look-ups, removals; all built-in names",
         "there are no tests of the Python code", ["optimizer/key_profiles.py", "optimizer/key_transitions.py"],
         [("profiles", "optimizer/key_profiles.py"), ("transitions and ratios", "optimizer/key_transitions.py")],
         "stateful property-based testing against a dictionary model; differential against the C++ tables", NOTE)
    prop("C30", "The generator makes new distributions within their hierarchy",
         "Every generated profile is new, registered, and two distributions made of counts below the range of each pitch class's "
         "level (tonic and dominant highest, then diatonic, then the rest, halving per level). Every generated transition is "
         "new, registered, and either geometric (each rank of closeness 1/ratio of the one before, ratio between 2 and 50 and "
         "on record) or free counts below halving ranges. As many are made as were asked for.",
         ["inputs", "histories"], "seeds, ranges, ratios, histories of generator calls",
         "there are no tests of the Python code", ["optimizer/generator.py"],
         [("profiles", "optimizer/generator.py: generate_major_key_profile, generate_minor_key_profile"),
          ("transitions", "optimizer/generator.py: generate_geometric_key_transition")],
         "stateful property-based testing with invariants and statistics of the draws", NOTE)
    prop("C31", "Evolving keeps the population and derives it from the last",
         "A generation is as large as the last (when the shares fit in it), with different registered names: first the best of "
         "the last in order, then randomly retained others, then crossings (one retained profile's major half, another's minor "
         "half), each itself or its mutation, then random ones. A mutation moves the given share of one entry to another of the "
         "same mode, or a geometric ratio by at most the share, up or down. Old members keep their distributions. Any population size works.",
         ["inputs", "histories"], "generations in a row of populations of 1-20 with drawn shares and probabilities",
         "there are no tests of the Python code", ["optimizer/evolver.py"],
         [("profiles", "optimizer/evolver.py: evolve_key_profiles"), ("transitions", "optimizer/evolver.py: evolve_key_transitions")],
         "stateful property-based testing: every generation explained from the last", NOTE)
    prop("C32", "Ensemble and evaluator report what the detector says",
         "The ensemble is every profile (or, mixed, every ordered pair of profiles) with every transition, in that order, and "
         "evaluating a file gives for each the detector's own 24 scores for exactly those distributions, or 24 times -1000000 "
         "with a logged error. The evaluator's error of a pair is the sum over its files of 1 - score squared (1 for a failed "
         "file); gradings list all pairs, lowest error first.",
         ["inputs", "configurations"], "note sequences in files of several kinds, profiles with tiny numbers, mixed or not",
         "there are no tests of the Python code", ["optimizer/ensembler.py", "optimizer/evaluator.py"],
         [("ensemble", "optimizer/ensembler.py: evaluate, run_keydetection"), ("errors", "optimizer/evaluator.py: evaluate, run_keydetection")],
         "property-based testing: differential against the program and the reference detector", NOTE)
    prop("C33", "The genetic search never loses its best pair",
         "The search first tries every pair of initial profiles and transitions. Then every generation is evaluated with the "
         "best partner found so far: the pair it works from always has the lowest error of all evaluated. A generation replaces "
         "the last only if its best is better, or as good with no larger total; after more than the threshold of worse ones in a "
         "row it evolves the other kind. It ends when the error is 0, with the last generation in the registry.",
         ["histories", "inputs"], "searches over drawn populations, files, thresholds and error landscapes",
         "there are no tests of the Python code", ["ga.py"], [("search loop", "ga.py: ga_runner")],
         "model-based testing: the run is replayed from the detector calls it made", NOTE)
    prop("C34", "Scaling, augmentation and scores treat all keys alike",
         "Augmenting gives each recording once per transposition, every score moved to the transposed key and the label with it. "
         "Scaling brings each pair's 24 scores to -1..1 by their own minimum and maximum, whatever the other pairs are, and "
         "commutes with transposition. The relation of two keys is tonic, fifth (up or down), relative, parallel or other, the "
         "same both ways; the weighted score is the mean of 1, .5, .3, .2 and 0 for them, followed by the shares.",
         IN, "feature matrices with ties, failures and huge scores; all pairs of keys",
         "there are no tests of the Python code", ["dataset.py"],
         [("augmentation", "dataset.py: transpose, data_augmentation"), ("scaling", "dataset.py: feature_scaling"),
          ("scores", "dataset.py: compare_keys, weighted_score")],
         "property-based testing against a reference model, metamorphic relations", NOTE)
    prop("C35", "A dataset read back is the one that was made",
         "Making and writing a dataset, then reading it, gives each recording's own ensemble features beside its own label (-1 "
         "for labels that name no key), every split with the features and labels of its recordings in its order, and the "
         "ensemble used. A split that names unknown recordings is left out; a dataset with a missing annotation is not written. "
         "Folders that are no dataset are refused with a message.",
         ["inputs", "configurations"], "datasets of chromagrams and MIDI files with drawn names, labels, splits and flaws",
         "there are no tests of the Python code", ["dataset_creator.py", "dataset.py"],
         [("creating and writing", "dataset_creator.py: compute_features, write"), ("reading", "dataset.py: Dataset")],
         "property-based testing: round trip through the file system", NOTE)
    prop("C36", "Key labels mean the same everywhere",
         "The dataset creator and the annotating tool read the same key from every label (letter with sharp or flat, case for "
         "mode, or with the mode as a word), and know no key in other text. The name the annotating tool writes is that key for "
         "the creator, the program and -e; it copies every recording under it and changes nothing else. The name printed for a "
         "key number is a label of that key.",
         IN, "all spellings, modes, cases, blanks and drawn text; folders of annotated recordings",
         "there are no tests of the Python code", ["dataset_creator.py", "tools/annotate_inline.py", "justkeydding_ensemble.py"],
         [("labels", "dataset_creator.py: parse_label"), ("annotating", "tools/annotate_inline.py"), ("names", "justkeydding_ensemble.py: key_name")],
         "property-based testing: differential between the readers and the program", NOTE)
    prop("C37", "The trained ensemble answers what its model prefers",
         "The ensemble script prints the key whose class the trained model scores highest on the scaled scores of the thirty "
         "profile-transition pairs, and its answer moves with the music. The justkeydding script writes that answer for the "
         "recording's chromagram and leaves nothing else behind. The trainer fits on every labelled recording of its nine "
         "datasets, scaled, in all twelve transpositions, and on nothing else, and refuses mixed ensembles; the tester prints "
         "the share of keys the model gets right.",
         ["inputs", "configurations"], "note sequences and recordings; nine drawn datasets with known and unknown labels",
         "there are no tests of the Python code", ["justkeydding_ensemble.py", "justkeydding", "model_trainer.py", "model_tester.py"],
         [("answer", "justkeydding_ensemble.py"), ("training", "model_trainer.py"), ("script", "justkeydding")],
         "property-based testing: differential against the model applied by hand, transposition", NOTE)
    prop("C38", "The dataset tools keep the data they handle",
         "Shortening names keeps every recording with its annotation, loses nothing, and does nothing the second time. Filtering "
         "removes exactly the recordings without annotation. Dropping columns keeps every row and the other columns. Sampling "
         "puts every recording on exactly one of two lists, a fifth of them (rounded down) on the second. Batch runs report every "
         "chromagram with the program's answer under the given options, or every recording's extracted chromagram beside it.",
         ["inputs"], "folders of recordings with drawn names, annotations and contents",
         "there are no tests of the tools", ["tools/shorten_names.sh", "tools/batch_processing.sh", "tools/batch_chromagram.sh",
                                             "tools/all_batches.sh", "tools/sample_datapoints.py", "tools/cross-era/remove_column.py",
                                             "tools/billboard/bothchroma2chroma.py", "tools/billboard/filter_confident_files.py"],
         [("shortening", "tools/shorten_names.sh"), ("batches", "tools/batch_processing.sh, tools/all_batches.sh")],
         "property-based testing of the tools on generated folders", NOTE)
    prop("C39", "The prototype decoder sums and maximises exactly",
         "For any model and observations, the prototype decoder (a state emits an observation, then moves on) prints the total "
         "probability of all state sequences that produce the observations, the probability of the likeliest one, and a sequence that has "
         "that probability, or no sequence when nothing is possible. Other models decoded before change nothing, and the answer to its "
         "built-in example follows from the numbers it lists.",
         ["inputs", "histories"], "models of up to five states, observation sequences up to twelve symbols, zeros and ties",
         "no test builds it", ["src/ViterbiSTL.cc"], [("sum-product and max-product in one pass", "src/ViterbiSTL.cc: forward_viterbi")],
         "property-based testing: differential against matrix products and brute force", NOTE)
    prop("C40", "The plugin library offers each plugin as it is",
         "A host of version 1 or later finds exactly three plugins (chroma, chords, tuning) under the indices 0 to 2, the same ones "
         "whenever it asks, and nothing under any other index; an older host finds none. Each describes itself, its parameters "
         "(ranges, defaults, as many named values as steps) and its outputs (number of values, range, unit, rate, times and durations, which "
         "its features then keep to), and through the library's C interface, in any number of "
         "instances made, used and destroyed in any order, gives exactly the features it gives when used directly.",
         ["inputs", "histories", "configurations"], "host versions and indices in any order; instance histories over four handles; all parameter combinations",
         "there are no tests of the plugins", ["nnls-chroma-1.1/plugins.cpp", "nnls-chroma-1.1/NNLSBase.cpp", "nnls-chroma-1.1/Chordino.cpp",
                                               "nnls-chroma-1.1/NNLSChroma.cpp", "nnls-chroma-1.1/Tuning.cpp"],
         [("library entry point", "nnls-chroma-1.1/plugins.cpp: vampGetPluginDescriptor")],
         "stateful property-based testing: differential between the C interface and direct use", NOTE)
    prop("C41", "Repeated use leaves nothing behind",
         "A process that does the same work again holds no more memory and no more open files than before: reading chromagram files, "
         "recordings and MIDI files (good, damaged, empty or missing), building and decoding models, making, using and destroying "
         "plugins directly or through the library, resetting a plugin after each recording, and the numerical routines.",
         ["inputs", "histories"], "the generators of the other properties, each case repeated in one process",
         "no test does anything twice", ["src/chromagram.cc", "src/hiddenmarkovmodel.cc", "src/midi.cc", "nnls-chroma-1.1/NNLSBase.cpp",
                                         "nnls-chroma-1.1/NNLSChroma.cpp", "nnls-chroma-1.1/Chordino.cpp", "nnls-chroma-1.1/nnls.c"],
         [("clean-up after a recording", "src/chromagram.cc: getChromagramFromAudio"), ("plugin reset", "nnls-chroma-1.1/NNLSBase.cpp: reset")],
         "property-based testing: invariant (held memory and files) over repeated histories", NOTE)
    prop("C42", "A chord dictionary file is read line by line, and what is no chord is ignored",
         "Whatever a chord.dict on the plugin path contains, Chordino runs, and its dictionary is the twelve transpositions of each "
         "line that defines a chord (a name, '=' and 24 weights), in the order of the lines, and 'no chord'. A comment, a blank line, "
         "a cut or overlong line or one with text for a weight adds nothing and changes nothing about the others; Windows line ends "
         "mean the same as others. All weights are finite.",
         ["inputs", "configurations"], "generated dictionaries, damaged by fields and bytes, and arbitrary text; both chord syntaxes",
         "there are no tests of the plugins", ["nnls-chroma-1.1/chromamethods.cpp", "nnls-chroma-1.1/Chordino.cpp"],
         [("reading chord.dict", "nnls-chroma-1.1/chromamethods.cpp: chordDictionary")],
         "property-based testing with structured damage: reference reader, metamorphic relations, sanitizers", NOTE)
    prop("C43", "The scripts of single datasets rename, copy and list exactly what they are for",
         "On a folder with names of its dataset's form, each script under tools/ that belongs to one dataset does its one job and nothing "
         "else: the trimming, numbering and extension scripts give every file the short (or numbered, or .key) name its own name implies "
         "and lose no file and no byte; the split scripts list the short names in order; the chroma of a track's folder becomes the "
         "track's file; a chromagram gets its recording's name; annotations hold the key that ends the name; all recordings of pieces, and "
         "only those, are copied; exactly the listed duplicates are removed; duplicates are found by their sequences of sounding pitch "
         "classes; metadata, kern keys and sizes are listed as the files have them; the run of all evaluations gives each experiment the recordings of "
         "its own dataset. (The scripts are stored with CRLF line ends and "
         "meant for a shell that ignores carriage returns.)",
         ["inputs", "configurations"], "drawn folders of up to 12 (now and then 300) files, names, texts and messages",
         "there are no tests of the tools", ["tools/billboard", "tools/experiment1", "tools/giantsteps-key-dataset", "tools/giantsteps-mtg-key-dataset",
         "tools/cross-era", "tools/arthur2018", "tools/napoles2018", "tools/maps", "tools/albrecht", "tools/verify_dataset_splits.sh", "tools/run_all_evaluations.sh"],
        [("scripts of single datasets", "tools/*/*.sh, tools/experiment1/find_duplicates.py, tools/maps/extract_data.py")],
         "property-based testing: the set of files before and after, as an unprivileged user in a scratch folder", NOTE)
