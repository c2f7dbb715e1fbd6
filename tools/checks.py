"""Build, bounds and description of each check (MANIFEST.json is generated from this by gen_manifest.py)."""
CHECKS = {}

ENUM = "explicit-state model checking: bounded-exhaustive enumeration of %s on the real code against a reference model"
SCHED = "stateless model checking of the real goroutines under a controlled scheduler (DFS with happens-before state caching)"
BOTH = SCHED + " plus bounded-exhaustive enumeration of %s"

TRUST = "the Go toolchain and runtime, the reference model in lib/ref and the harness"
TRUST_S = TRUST + ", the overlay instrumentation (tools/instrument) and the scheduler (lib/vs), which explores sequentially consistent interleavings"


def check(pid, **kw):
    kw.setdefault("deadline", {"quick": 40, "thorough": 3000})
    CHECKS[pid] = kw


check("C01", mode="none", block=64, technique=ENUM % "texts, chunkings and dictionary histories",
      note="Exhaustive within the bounds; nothing is claimed beyond them. Trusted: " + TRUST + ".",
      bounds={"quick": "texts of up to 4 of 19 pieces (all whitespace classes, multi-byte and invalid runes); word sequences up to 8 words of 4; every rune in 5 places; all pairs of 58 unusual words (case mappings, invisible, control, invalid bytes) x 6 separators; all 2^(n-1) chunkings of 5 texts x end/empty-read variants; sizes +-3 around 4 KB..128 KB, words to 4 MB; up to 65537 words or occurrences, 400000 different words of 3 kinds; words of 7 to 65538 bytes that differ in one byte; dictionary histories up to 4 of 7 operations",
              "thorough": "as quick with 5 pieces, 10 words of 5, sizes to 1 MB, histories up to 6"},
      how="every text of the bounded space is loaded by the real corpora and dictionary and compared with a reference tokenizer and counter")
check("C02", mode="none", block=16, technique=ENUM % "texts and options",
      note="Exhaustive within the bounds. Trusted: " + TRUST + ".",
      bounds={"quick": "texts of up to 5 of 4 words x lower x 7 limit pairs x windows -1..n+1 and 2^62 x 3 count types x batch sizes 1..4; texts of up to 5 of 9 byte pieces; 100..21847 words x read steps x windows x batches",
              "thorough": "texts of up to 7 words, 6 byte pieces"},
      how="both corpora load every text under every option of the space and are compared with each other: errors, vocabulary, frequencies, length, co-occurrences, training tokens")
check("C03", mode="full", block=4, technique=BOTH % "texts, batch sizes and read faults",
      note="All interleavings of producer and consumer at channel operations for the small texts, exhaustive enumeration for the rest. Trusted: " + TRUST_S + ".",
      bounds={"quick": "texts of up to 6 tokens x 4 limits x lower x batch 1..n+2, 2^31 and 2^62 x 3 passes; 1000 to 1.1 million words x up to 12 batch sizes; schedules: texts of up to 4 tokens x batch 1..n+1 x channel capacity 0..2 x a fault at every read and seek of 2 passes",
              "thorough": "texts of up to 8 tokens; schedules for 6 tokens and 3 passes"},
      how="the real BatchWords runs under the scheduler; received batches are copied on receipt and compared again at the end; the streams must be closed in every execution")
check("C04", mode="sync", block=16, technique=ENUM % "texts and limits",
      note="Exhaustive within the bounds; the training part runs one schedule per configuration. Trusted: " + TRUST_S + ".",
      bounds={"quick": "texts of up to 7 tokens of 4 words x limits -2..4 squared and huge ones x storage x lower; texts of 12..257 tokens of 5..40 words x limits -1..12 squared; frequencies +-1 around 5..65536, and 370000; training: 4 texts x 6 model variants x storage x limits 0..3 squared x 1..2 workers",
              "thorough": "texts of up to 9 tokens"},
      how="training tokens and co-occurrences of both corpora equal the reference; vectors of filtered words equal those of a run with no iterations")
check("C05", mode="none", block=4, technique=ENUM % "texts, windows and ids",
      note="Exhaustive within the bounds. Trusted: " + TRUST + ".",
      bounds={"quick": "texts of up to 7 tokens of 4 words x windows 0..n+2, 2^31 and 2^62 x both count types x both storage modes x minimum count; 256 mixed-case texts; 20..4100 words x windows to 100; 70000 different words with 1.1 million pairs; pairs up to 4280 words apart, weights of all distances around powers of two to 2^62; counts to 65540, one pair to 2^24+3; 256 ids around powers of two to 2^32",
              "thorough": "texts of up to 9 tokens of 5 words; pairs up to 16980 words apart"},
      how="counts of the real corpora are compared pair by pair with a double loop over the text; the forward-context reader with the list of pairs in text order")
check("C06", mode="none", block=16, technique=ENUM % "id pairs",
      note="Exhaustive within the bounds. Trusted: " + TRUST + ".",
      bounds={"quick": "all pairs of ids below 4096 and of 200 ids around powers of two up to 2^32", "thorough": "all pairs of ids below 65536"},
      how="every pair is encoded in both orders and decoded")
check("C07", mode="full", block=1, technique=SCHED,
      note="Scheduling points are synchronisation and channel operations; memory accesses are recorded (their interleavings are the subject of C09). Trusted: " + TRUST_S + ".",
      bounds={"quick": "7 model variants x storage x batch size 1..2: all schedules for the empty text (1-2 workers x 0..2 iterations, 3 workers x 1), one token, two tokens, three tokens with one worker, a text of which nothing is kept; up to 2 preemptions for one token per batch; up to 3 departures from the default schedule for 2-3 iterations and 3 tokens, up to 2 (1) for texts of 4..9 tokens and up to 7 workers; up to 129 workers that take turns of a fixed number of steps, forwards and backwards; progress output off and on (two logging intervals)",
              "thorough": "all schedules up to 3 workers or 3 tokens or 2 iterations, up to 5 departures elsewhere, texts of 11 tokens, 8 workers"},
      how="every execution has to end without panic or deadlock; once Train has returned everything else is run until nothing can move: every goroutine must have ended, the vectors must be the same as at the return, and vector clocks must order every write to shared memory before the return")
check("C08", mode="full", block=8, technique=BOTH % "texts, work divisions and batch sizes",
      note="Exhaustive within the bounds. The sum-of-updates part looks at changes of first order in a tiny learning rate, so it is indifferent to the order of updates and to races; hierarchical softmax and order are covered by the one-worker part. Trusted: " + TRUST_S + ".",
      bounds={"quick": "24 lengths of text 0..100 x workers x iterations x models x storage x up to 11 batch sizes; windows to 20 x 13 lengths to 25 x workers x batch sizes; limits; texts to 25000 words; up to 5000 iterations and 1000 workers; schedules: all for texts of up to 3 tokens and 2 workers, up to 3 departures for 4 tokens, up to 2 for 7 tokens and 5 workers, workers that take turns of a fixed number of steps; in-order part: texts of up to 4 of 3 words x 9 model variants x batch orders",
              "thorough": "unbounded schedules for 3 tokens on disk, 5 departures for 4 tokens, 12 tokens and 12 workers"},
      how="the learned change equals the sum of every token's (pair's) update once per iteration; with one worker the vectors equal those of the sequential reference in text order")
check("C09", mode="full", block=2, technique=SCHED,
      note="Memory accesses are scheduling points where a race makes them matter (sequential consistency is assumed for racy numbers). Trusted: " + TRUST_S + ".",
      bounds={"quick": "2 workers on disjoint words, up to 1 preemption with every conflicting numeric access a scheduling point, up to 2 departures for longer texts and 3 workers, 7 model variants x storage; 2 to 129 workers that take turns of 1, 2, 3, 5, 8 accesses, forwards and backwards; race classification on shared words for the variants with hierarchical softmax, subsampling, both optimizers and verbose mode",
              "thorough": "2 preemptions, 3-4 departures"},
      how="vectors equal the sequential reference; every pair of unsynchronised conflicting accesses (vector clocks) must be to a plain number")
check("C10", mode="full", block=8, technique=BOTH % "texts, rates and update intervals",
      note="Exhaustive within the bounds. Rates are read off the learned change of a row that only one token changes. Trusted: " + TRUST_S + ".",
      bounds={"quick": "texts of 2..13 words x 7 update intervals x 5 pairs of rates x 1..5 workers x 1, 2, 5 iterations x 3 models x storage; filtered and repeated words; schedules: all for 2-3 tokens and 2 tokens x 2 iterations in memory, up to 3 departures on disk and for 4 tokens, up to 2 for 7 tokens",
              "thorough": "all schedules for 4 tokens and 2 workers, up to 5 departures, 13 tokens"},
      how="every rate equals a value of the linear decay clamped to [minimum, initial]; with one worker and iteration the rates never rise")
check("C11", mode="sync", block=8, technique=ENUM % "texts, options and random draws",
      note="Exhaustive within the bounds: every sequence of random draws of both the implementation (through the seam) and the reference. Trusted: " + TRUST_S + ".",
      bounds={"quick": "up to 1025 negative samples for 1..4 words; texts of up to 4 tokens of 4 words x architecture x windows 1..3 x iterations 1..2 x (0..2 negative samples | depths 0..3, 9); 6 texts x dimensions 1..10 x learning rates to 300 x batch sizes x limits x storage; configurations with more than 1500 draw sequences are left out; 7 texts of 30 to 376 tokens (up to 150 words, Huffman paths up to 11 deep) x architecture x windows 1..10 x samples / depths, every draw the lowest, the highest, the middle one or one of a walk through its range; vocabularies of 100 to 66000 words (hierarchical softmax: 5000); 38 dimensions to 1025, 30 windows to 5000, 18 numbers of samples to 300 and 17 numbers of iterations to 1000, one at a time",
              "thorough": "texts of up to 5 tokens, 60000 draw sequences; long texts to 2600 tokens"},
      how="the set of vectors the real training reaches over all draws has to be the set the published rule reaches")
check("C12", mode="sync", block=16, technique=ENUM % "texts, options and visiting orders",
      note="Exhaustive within the bounds: every order in which the implementation can visit the pairs (map iteration order through the seam). Whether a pair is updated as (word, context) or (context, word) first is left open. Configurations whose vectors exceed 1e6 are left out. Trusted: " + TRUST_S + ".",
      bounds={"quick": "rates to 900; texts of up to 4 tokens x windows 1..3 x 2 solvers x 2 count types x iterations 1..2 x xmax 1, 2, 100; 8 texts x dimensions 1..10 x learning rates 0..1 x 5 exponents x 6 values of xmax; limits x storage x iterations; configurations with more than 720 orders are left out; 7 texts of 30 to 376 tokens x windows 1..60 x solvers x count types x exponents x xmax up to 2000 at a rate of 1e-8, where the order does not matter; vocabularies of 100 to 66000 words; 38 dimensions to 1025, 30 windows to 5000, 17 numbers of iterations to 1000, one at a time",
              "thorough": "texts of up to 5 tokens, 40320 orders; long texts to 2600 tokens"},
      how="the vectors of every visiting order have to be vectors that the published update reaches for some visiting order, in one orientation throughout")
check("C13", mode="sync", block=8, technique=ENUM % "texts, options and random draws",
      note="Exhaustive within the bounds: every sequence of random draws of both sides. Where smoothing makes the association depend on which word is the context, four conventions are accepted. Trusted: " + TRUST_S + ".",
      bounds={"quick": "up to 1025 negative samples for 1..4 words; rates to 80; texts of up to 4 tokens x 4 relations x smoothing x windows x negative samples x iterations, dimensions, rates, storage, limits; configurations with more than the bound of draw sequences are left out; 7 texts of 30 to 376 tokens x windows 1..10 x relations x samples, every draw the lowest, the highest, the middle one or one of a walk through its range; vocabularies of 100 to 66000 words (hierarchical softmax: 5000); 38 dimensions to 1025, 30 windows to 5000, 18 numbers of samples to 300 and 17 numbers of iterations to 1000, one at a time",
              "thorough": "texts of up to 5 tokens, 60000 draw sequences; long texts to 2600 tokens"},
      how="the set of vectors the real training reaches over all draws has to be the set the published rule reaches; unknown relations have to be errors")
check("C14", mode="full", block=16, technique=BOTH % "frequency vectors and path depths",
      note="All interleavings of the memory accesses of 2 goroutines looking up paths (3: preemption-bounded). Trusted: " + TRUST_S + ".",
      bounds={"quick": "frequency vectors of up to 5 words with frequencies 1..6 x look-up orders; 1..130 and 500 to 66000 words x 5 frequency patterns; concurrent look-ups: 8 plans x 4 trees, 2 goroutines unbounded, 3 goroutines or 4 look-ups with up to 3 preemptions",
              "thorough": "up to 7 words with frequencies 1..7, 400 words, 5 preemptions"},
      how="tree structure, codes and weighted path length against the optimum from the definition; paths against the parent chain; races on the path cache are found by vector clocks and explored at every access")
check("C15", mode="none", block=8, test="./pkg/model/word2vec", extra={"pkg/model/word2vec/x_verif_test.go": "c15/x_verif_test.go"},
      technique=ENUM % "the look-up's pieces",
      note="The look-up is checked on both sides of every switching point found between neighbouring grid points; a pair of compensating steps inside one grid cell would be missed. Trusted: " + TRUST + ".",
      bounds={"quick": "2.4 million grid points, each switching point located to one float and 300 floats on both sides, 200000 floats at both ends and around 0, all powers of two", "thorough": "120 million grid points, 20000 floats around every switching point, 20 million at the ends and around 0"},
      how="value within 0.004 of the logistic function, inside (0,1), never decreasing along every walk")
check("C16", mode="sync", block=16, technique=ENUM % "frequencies, thresholds and random draws",
      note="Exhaustive within the bounds; the draw is supplied on both sides of every decision boundary. Trusted: " + TRUST_S + ".",
      bounds={"quick": "all frequency vectors of up to 4 words with frequencies 1..6, frequencies to 200000 and vocabularies to 140000 words x 24 thresholds and thresholds next to the frequencies (probabilities down to 1e-9) x draws at and around the published probability; training: texts of up to 5 tokens x 8 thresholds x 2 models x windows x limits x storage x both architectures and optimizers, every pattern of kept tokens",
              "thorough": "5 words, frequencies to 9, texts of up to 6 tokens"},
      how="Trial has to switch from keep to drop exactly at the published probability; trained vectors have to be reachable by the published rule with some pattern of dropped tokens, and every pattern has to be reachable")
check("C17", mode="full", block=4, technique=BOTH % "draw bounds",
      note="All interleavings at memory-access granularity for the concurrent part. Trusted: " + TRUST_S + ".",
      bounds={"quick": "all bounds 1..700 and around powers of two to 2^16: every value within 45n+50 draws, 3 rounds; range for bounds around 2^17..2^63; 2 and 3 concurrent goroutines", "thorough": "bounds to 4000, 10 rounds"},
      how="each value has to turn up within a number of draws that independent uniform draws miss with probability below n*exp(-45)")
check("C18", mode="none", block=4, technique=ENUM % "worker counts and work sizes",
      note="Exhaustive within the bounds. Trusted: " + TRUST + ".",
      bounds={"quick": "1..130 workers x 0..600 items; 37 worker counts to 10007 x 450 sizes around powers of two and ten to 2^62", "thorough": "600 workers x 3000 items"},
      how="every division is checked for start, end, order and size difference")
check("C23", mode="none", block=16, technique=ENUM % "vocabularies and matrices",
      note="Exhaustive within the bounds. Trusted: " + TRUST + ".",
      bounds={"quick": "2x2 matrices over 11 (one entry: 22) boundary values; all powers of two from 2^-40 and 7 numbers next to each; all ordered vocabularies of up to 3 of 24 unusual words; dimensions 1..300, around buffer limits to 30000 and to 1000000; a word of 9 MB; 0..300 words and up to 65537; row/vocabulary mismatches", "thorough": "22 values, dimensions to 2000, 3000 words"},
      how="saved text parsed independently line by line, then loaded by the real loader and compared with the six-decimal rounding")
check("C24", mode="none", block=4, technique="explicit-state model checking: exhaustive fault enumeration on the real code",
      note="Every byte offset and write call of the listed outputs. Trusted: " + TRUST + ".",
      bounds={"quick": "a fault at every offset of outputs up to 9 KB (every 97th and around buffer limits up to 70 KB) and at every write call x 5 kinds of fault x lasting/once x 28 error values; Save of the three models",
              "thorough": "every offset up to 70 KB"},
      how="success is only accepted when the destination holds every byte")
check("C25", mode="none", block=2, technique=ENUM % "files, chunkings and read faults",
      note="Exhaustive within the bounds; lines that begin with white space other than a blank and bare carriage returns are left unspecified. Trusted: " + TRUST + ".",
      bounds={"quick": "files of up to 5 of 11 pieces (up to 4 with every read fault and several chunkings); files of up to 4 of 14 lines; lines of 4 KB..5 MB; up to 1.1 million lines; 48 forms of numbers x 11 positions; all values of up to 4 characters of 10 and up to 5 of 7 (hexadecimal); 29 unusual words x 9 files", "thorough": "6 pieces, 5 lines"},
      how="reference parser from the statement; errors must come without vectors; search.New must refuse mixed dimensions")
check("C26", mode="none", block=8, technique=ENUM % "vector sets, queries and k",
      note="Exhaustive within the bounds. Similarities within 1e-9 count as ties (relative, where nothing cancels). Trusted: " + TRUST + ".",
      bounds={"quick": "all sequences of up to 4 vectors over 5 values in dimension 1, 3 over 3 values in dimension 2, 3 over {0,1} in dimension 3, 5 over {0,1} in dimension 2, 3 over tiny and huge values, x distinct and repeated words x every grid query x k in {-3,0..n+1,100}, for the larger sets also 2^40 and the largest integer; all 720 insertion orders of 6 similarities; 0..120 and up to 70000 vectors", "thorough": "larger grids, 8! orders, 600 vectors"},
      how="result compared rank by rank with the sorted list of all candidates")
check("C27", mode="full", block=8, technique=BOTH % "search histories",
      note="All interleavings at memory-access granularity for concurrent searches. Trusted: " + TRUST_S + ".",
      bounds={"quick": "3 vector sets x all sequences of up to 2 of 14 operations, followed by all 14; all sequences of up to 2 of 13 console lines between them; 10 concurrent pairs or triples each; 16 to 70000 stored vectors: all pairs of 18 to 24 operations and 6 console lines", "thorough": "sequences of up to 3"},
      how="each result equals that of a new searcher; stored vectors and results handed out earlier are compared after every operation; any data race between searches is a violation")
check("C19", mode="full", block=16, technique=BOTH % "texts, options and export histories",
      note="Exhaustive within the bounds. Trusted: " + TRUST_S + ".",
      bounds={"quick": "7 model variants x texts of up to 4 of 4 words x dimensions 1..3 x storage; limits x lower case x iterations 0..2; vocabularies of 1..70000 words x dimensions 1..5000; matrices of 33 million components of 5 shapes; all sequences of up to 3 of 7 export operations (single, agg, save, unknown types, failing destination, writing into an export) followed by all four exports; all interleavings of 2 and 3 exports and saves at the same time, every memory access that races a scheduling point",
              "thorough": "texts of up to 6 words, 5 operations"},
      how="without iterations every component of every own and context vector must be an initial value of its own; trained vectors must equal the sequential reference; every export of a history equals the first, and saved text equals its rows; concurrent exports give what each gives later alone and touch no common memory that one of them writes")
check("C20", mode="full", block=2, technique=BOTH % "training histories",
      note="Random draws come from a sequence that restarts with every training, so results can be compared; memory accesses are scheduling points where a race makes them matter. Trusted: " + TRUST_S + ".",
      bounds={"quick": "pairs of 12 model variants x all sequences of up to 3 (2 for mirrored pairs) of up to 8 operations (train on 3 texts, on a failing source, on the same source again, train the other model, save); two models of 9 variants at the same time (training or saving one while the other trains) x 3 pairs of texts: up to 1 departure, 2 departures and 1 preemption for equal variants",
              "thorough": "sequences of up to 5, one departure or preemption more everywhere"},
      how="after every operation each model's exports equal those of a new model trained once on the same text; concurrent trainings must give what each gives alone, and may not race on anything but numbers")
check("C21", mode="full", block=8, technique="explicit-state model checking: exhaustive fault enumeration on the real code, with " + SCHED,
      note="Every call of the source is made to fail, once or from then on, with and without delivering bytes. Trusted: " + TRUST_S + ".",
      bounds={"quick": "7 model variants x storage x 7 texts x iterations 0..2 x workers 1..2 x batch sizes 1, 2, 100 x one-byte, two-byte and whole reads x a fault at every read and seek of every pass x 28 errors in turn; limits; texts of more than one buffer; under schedules: all for one token, up to 3 departures for 2 tokens, up to 2 for 4 tokens, 1 for 6 tokens and 3 workers; delivery: all chunkings of texts of up to 9 bytes with and without empty reads and early end, texts of 12 to 18 KB",
              "thorough": "all schedules for 2 tokens and 2 workers, one departure more elsewhere, texts of up to 13 bytes"},
      how="training must return an error exactly if a call failed, and everything must come to an end; without a fault the vectors equal those of one-piece delivery")
check("C22", mode="sync", block=8, technique=ENUM % "option values",
      note="Exhaustive within the bounds; one schedule per configuration (schedules of valid configurations are the subject of C07). Sizes whose only problem is the memory or time they need are left out. Trusted: " + TRUST_S + ".",
      bounds={"quick": "6 base configurations of the 3 models x every value of every option (26 options, 1..11 values at and around the limits) and of every pair of options x 4 texts",
              "thorough": "every triple of options"},
      how="training and saving must end without panic; unknown names must be errors; configurations of which every value is in range must succeed")
check("C30", mode="full", block=4, technique=BOTH % "texts, options and logging intervals",
      note="The printed reports are captured; a line's last report is the final one. Trusted: " + TRUST_S + ".",
      bounds={"quick": "8 model variants x storage x texts of up to 5 of 3 words x iterations 0..2 x batch sizes 1..3 x intervals 1, 2, 3, 5, 1000; limits x lower case; texts to 66000 words, to 66000 different ones; schedules: all for 2 tokens and one worker, up to 3 departures for 2-3 tokens, up to 2 for 4, 1 for 6 tokens and 3 workers",
              "thorough": "texts of up to 7 words, all schedules for 3 tokens or 2 workers, one departure more elsewhere"},
      how="vectors, saved bytes and errors equal those of the run without progress output (under all schedules: the sets of results are equal), and the final totals equal the reference counts")
check("C28", mode="none", block=8, stall=20, technique=ENUM % "console sessions",
      note="Exhaustive within the bounds. Words that are no identifiers of Go's expression syntax and chained expressions are left unspecified apart from their being reported and leaving later lines alone. Trusted: " + TRUST + ".",
      bounds={"quick": "5 sets of words x k in {10, 1, 2, 3, 0, -1, 100} x 119 lines singly, all pairs of lines for two k, all sequences of 3..4 of 14 lines, a session of many lines, lines of 100 to 200000 characters, with LF or CR LF ends, the last line with or without an end; ended by exit, end of input or 4 kinds of input that fails",
              "thorough": "sequences of 5"},
      how="the printed table or message of every line against a reference ranking, and against the same line in a new console")
check("C29", mode="sync", block=4, bin=True, cmds=True, technique=BOTH % "command lines, files, faults and command histories",
      note="Exhaustive within the bounds. The built command runs as an unprivileged user in a scratch directory; two commands at the same time run in one process with every file operation a scheduling point. A command that is killed from outside is not covered. Trusted: " + TRUST_S + ".",
      bounds={"quick": "3 commands x 36 lists of options x 10 inputs x 15 outputs, default files, profile; every third pair of lists of options; dimensions to 1500; a limit on the size of files at every 512 bytes and on open files 3..29; queries of every word of every output and of 6 given files x 7 ranks; 9 bad vector files; wrong uses; all sequences of 3 of 10 commands; two of the three commands at the same time, valid or invalid, to the same or another output: up to 2 departures; every file operation of a command, and every pair of them, made to fail",
              "thorough": "all pairs of lists of options, sequences of 4, 3 departures"},
      how="exit status, every file of the directory before and after, saved lines against the corpus, printed tables against a reference ranking; histories against a model of the files")
check("C32", mode="sync", block=4, cmds=True, technique=ENUM % "sequences of options",
      note="Exhaustive within the bounds. Initial values, random draws and the schedule are fixed through seams, so that trainings can be compared byte by byte. Trusted: " + TRUST_S + ".",
      bounds={"quick": "3 models x all sequences of up to 3 of 30..40 options with values, each in 2..3 ways to write the flag; effects: every option and all pairs of options on small trainings, every option on 3 texts with the default configuration, 2 vector types",
              "thorough": "sequences of 4, effects of all triples"},
      how="Options from functional options and flags equal the default with just those fields set; vectors saved by New, NewForOptions and the command are equal")
check("C33", mode="sync", block=8, technique=ENUM % "random draws, sizes and training histories",
      note="Exhaustive within the bounds. The uniform draws are supplied through a seam (and left to the plain generator in a second pass). Trusted: " + TRUST_S + ".",
      bounds={"quick": "8 model variants x storage: every outcome of the draws (2 to 5 values each, both ends among them) for up to 4 words and dimensions, up to 1024 outcomes; 28 vocabulary sizes to 4097 x 28 dimensions to 4097 up to 10000 components; all histories of up to 3 trainings of 2 instances on 4 texts (2 trainings: x 3 dimensions)",
              "thorough": "up to 70000 outcomes, 400000 components, histories of 4"},
      how="vectors are exported before any update takes place; the set of their values and its probabilities equal the product of independent uniform draws; every component of every training comes from a draw of its own made during that training")
check("C34", mode="sync", block=4, technique=BOTH % "workers, batch sizes and lengths of text",
      note="The backlog is observed by exporting vectors at every read of the text; 1 departure from the default schedule in the quick tier. The heap is measured on one schedule. Trusted: " + TRUST_S + ".",
      bounds={"quick": "6 model variants x 1..16 workers x batches of 2..100 x 1..2 iterations x 2 lengths of text to 6000 words on the schedule in which the oldest goroutine goes first; 32..40 words x 1..2 workers: all schedules with one departure; heap: loading 3 million tokens x windows x count types and taking their batches, training 240000 tokens with 6 model variants and options (GloVe 3 million) for 2 to 3 iterations",
              "thorough": "two departures, 2 iterations, batches of 3; 40 million tokens loaded, 2.4 million trained"},
      how="at every read of the training text the words read so far in the pass whose vectors have not changed are at most a few batches per worker; the heap grows by less than a byte per token")
