#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "Vocabulary, ids and word frequencies are exact",
 "For any corpus text, the words are exactly its maximal runs of non-whitespace (Unicode whitespace; lower-cased when that option is on), however the reader chunks the bytes. Loading gives each distinct word exactly one id, ids are dense and in first-appearance order, id and word look-ups are mutually inverse, each word's frequency is its number of occurrences, and the corpus length is the number of words. Words and ids that do not occur are reported as absent with frequency 0.",
 ["inputs", "configurations"], "every text up to the bound over an alphabet with ASCII/Unicode letters, all whitespace classes and invalid UTF-8; every chunking of short texts; both storage modes; lower-casing on/off; size sweeps past the scanner buffer",
 "one 3-word ASCII string is read by the only test; dictionary, memory and fs packages are never executed",
 ["pkg/corpus/dictionary/dictionary.go", "pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go"],
 [("dictionary ids and counts", "dictionary.Add/ID/Word/IDFreq"), ("word scanning", "cpsutil.ReadWord")],
 ["Dictionary().ID/Word/WordFreq/IDFreq/Len", "Corpus.Len"])

prop("C02", "Disk-backed and in-memory corpora are equivalent",
 "For any corpus text and any options, loading it in memory and reading it from the source give the same vocabulary with the same ids and frequencies, the same length, the same co-occurrence counts for every pair, and the same sequence of training tokens.",
 ["inputs", "configurations"], "every text up to the bound, every window, count type, lower-casing, min/max count and batch size in the bound",
 "neither corpus implementation is executed by any test; equivalence quantifies over all texts and options",
 ["pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go", "pkg/corpus/cpsutil/cpsutil.go"],
 [("two implementations of one interface", "corpus.Corpus"), ("streaming window reader", "cpsutil.ReadWordWithForwardContext")],
 ["Dictionary", "Cooccurrence().EncodedMatrix", "IndexedDoc vs BatchWords"])

prop("C03", "Streamed token batches are complete, ordered, stable and always end",
 "For any text, batch size and consumer speed, the batches streamed from a disk-backed corpus concatenate to the training token sequence, every batch except the last has exactly the batch size, and the stream is closed exactly once at the end, also when reading fails. A batch that has been received never changes afterwards, and streaming again yields the same batches.",
 ["inputs", "schedules", "fault_sequences"], "every text and batch size in the bound, every producer/consumer interleaving, every read fault position, repeated passes",
 "no test executes the streaming path; aliasing and missing close only show for particular sizes, schedules or read errors",
 ["pkg/corpus/fs/fs.go"], [("batch producer", "fs.Corpus.BatchWords")], ["channel passed to BatchWords"])

prop("C04", "Frequency limits decide exactly which words take part in training",
 "A word whose corpus frequency is below the minimum count, or above the maximum count when a positive maximum is set, never takes part in training: it is in no training token sequence and in no co-occurrence pair. Every occurrence of every other word is kept, in order. Negative limits, and a maximum of zero, filter nothing.",
 ["inputs", "configurations"], "every text up to the bound and every (min,max) pair in the bound, both storage modes, lower-casing on/off; for training: filtered words keep their initial vectors in every model",
 "filters are never executed by a test; off-by-one only shows at exact frequencies",
 ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go"],
 [("filters", "cpsutil.MaxCount/MinCount/Filters.Any")], ["IndexedDoc/BatchWords", "EncodedMatrix", "vectors of filtered words after training"])

prop("C05", "Co-occurrence counts equal the windowed pair counts of the text",
 "For every text and window size n, the count kept for an unordered pair of words is, in increment mode, the number of position pairs at most n apart holding these two words, and in proximity mode the sum over the same position pairs of one divided by their distance. Pairs that never occur within the window are absent, and counting is symmetric in the two words. The forward-context reader reports each such position pair exactly once, in text order.",
 ["inputs", "configurations"], "every text up to the bound length/alphabet (including texts shorter than the window, repeated words, empty text) and every window 0..bound; ids up to the size the pair key supports",
 "one 5-word text with window 2 and one single pair are tested; texts shorter than the window, windows of 3 and more and proximity mode are never run",
 ["pkg/corpus/cooccurrence/cooccurrence.go", "pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go"],
 [("window enumeration", "cpsutil.ReadWordWithForwardContext, memory.Corpus.Load"), ("pair counting", "co.Cooccurrence.Add")], ["EncodedMatrix", "ReadWordWithForwardContext callback"])

prop("C06", "Word-pair keys are symmetric, collision-free and reversible",
 "For all word ids below 2^32, the key of a pair does not depend on the order of its two words, two different unordered pairs never share a key, and decoding a key yields the smaller id and then the larger id of the pair it was made from.",
 ["inputs"], "all pairs over a dense low range and over every power-of-two boundary neighbourhood up to 2^32-1",
 "only the pair (1,2) is ever encoded by a test and its key is not inspected",
 ["pkg/corpus/cooccurrence/encode/encode.go"], [("bigram packing", "encode.EncodeBigram/DecodeBigram")], ["EncodeBigram/DecodeBigram results"])

prop("C07", "Training always terminates and leaves nothing running",
 "For every valid configuration, corpus and goroutine schedule, training returns: no deadlock, no panic, no use of a closed channel. When training returns, every goroutine it started has finished or can finish without waiting for anybody, and everything they write to shared state (all workers' updates above all) is complete: it is ordered before the return, and nothing is written later.",
 ["schedules", "configurations", "inputs"], "all interleavings at synchronisation operations (exhaustive up to happens-before equivalence) of every model and storage mode for tiny corpora, 1-3 workers, 1-2 iterations, empty and fully filtered corpora",
 "no test trains anything; a deadlock or send-after-close needs one particular interleaving",
 ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go", "pkg/corpus/fs/fs.go"],
 [("worker/observer/producer pipeline", "train, batchTrain, trainPerThread, observe"), ("workspace pools", "word2vec/model.go")],
 ["return of Train", "goroutines left"], "none in the source: sync operations are instrumented at build time through an overlay")

prop("C08", "Each retained token or pair is trained exactly once per iteration",
 "In every iteration each training token (for GloVe: each distinct co-occurring pair) is processed exactly once, whatever the number of workers, batch size, storage mode, iteration count or schedule. With one worker, the tokens of the corpus (on disk: of each batch) are processed in text order.",
 ["schedules", "configurations", "inputs"], "every interleaving of 1-3 workers over every tiny corpus whose parts use disjoint words, all batch sizes and iteration counts in the bound; learned vectors compared with a sequential reference, progress totals compared with the token count",
 "no test trains; lost or doubled work changes numbers silently",
 ["pkg/model/modelutil/modelutil.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go"],
 [("work split", "modelutil.IndexPerThread, fs.BatchWords"), ("iteration loop", "train/batchTrain")], ["WordVector", "verbose progress totals"], "build-time overlay instrumentation")

prop("C09", "Workers interfere only through HogWild updates of shared vectors",
 "Workers training on disjoint words produce exactly the vectors that training them one after the other would, under every interleaving of their individual memory accesses: scratch space is never shared. The only memory that training accesses concurrently without synchronisation is plain numbers (vector components, learning rate, random-number state), never slices, maps, pointers or counters.",
 ["schedules"], "all interleavings with a bounded number of preemptions at individual memory accesses; happens-before race detection on every explored schedule, for every model, optimizer, solver and storage mode",
 "no test runs two workers; the race detector samples one schedule and cannot tell intended HogWild races from structural ones",
 ["pkg/model/word2vec/model.go", "pkg/model/word2vec/optimizer.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go", "pkg/corpus/dictionary/node/node.go"],
 [("per-worker workspaces from a pool", "word2vec/model.go skipGram.ch, cbow.ch"), ("lazy path cache", "node.GetPath")], ["WordVector", "detected data races"], "build-time overlay instrumentation of memory accesses")

prop("C10", "The learning rate stays between its configured minimum and initial value",
 "For word2vec and LexVec, in every schedule and at every point of training (all iterations, any update interval) the learning rate used for an update is at most the initial learning rate and at least the configured minimum (when minimum <= initial), and it only takes values of the linear decay over the corpus clamped to that range.",
 ["schedules", "configurations", "inputs"], "every interleaving of progress observer and workers for tiny corpora, all update intervals, iteration counts and (initial, minimum) pairs in the bound; rates recovered from the learned vectors",
 "no test trains; going below the minimum needs an update that lands at the end of a pass followed by more work",
 ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"], [("decay", "observe")], ["effect of each update on the vectors"], "build-time overlay instrumentation",
 [("currentlr", "learning rate shared by observer and workers", "word2vec.go, lexvec.go")])

prop("C11", "word2vec training applies the documented CBOW / skip-gram updates",
 "For any corpus, single-worker word2vec training gives vectors that the published update rules yield for some choice of the random window shrinkage and negative samples: skip-gram or CBOW (the same context words are summed and updated), with negative sampling or hierarchical softmax along the Huffman path (cut at the configured depth, 0 meaning no cut). Every such random choice is attainable, and all are equally likely: the window shrinks by a uniform draw and negative samples are uniform over the vocabulary, a sample that is the predicted word itself being skipped.",
 ["inputs", "configurations"], "every corpus up to the bound, window, dimension, sample size, depth and iteration count in the bound, every outcome of every random draw (enumerated through the random-number seam)",
 "training code is never executed by a test, and random draws make single runs inconclusive",
 ["pkg/model/word2vec/model.go", "pkg/model/word2vec/optimizer.go", "pkg/model/word2vec/word2vec.go"],
 [("window/context selection", "skipGram.trainOne, cbow.dowith"), ("optimizers", "negativeSampling.optim, hierarchicalSoftmax.optim")], ["WordVector(single/agg)"], "random draws of the model are redirected at build time through an overlay")

prop("C12", "GloVe training applies its weighted least-squares update to every pair",
 "For any corpus, single-worker GloVe training gives vectors that visiting every distinct co-occurring pair once per iteration in some order yields: both (word, context) orientations are updated, the target is the log of the pair's co-occurrence value, the weight is (value/xmax)^alpha below xmax and 1 otherwise, using the selected solver (plain SGD or AdaGrad).",
 ["inputs", "configurations"], "every corpus up to the bound, window, count type, solver, xmax, alpha, dimension and iteration count in the bound, every visiting order of the pairs",
 "GloVe code is never executed by a test; map iteration order makes single runs inconclusive",
 ["pkg/model/glove/glove.go", "pkg/model/glove/item.go", "pkg/model/glove/solver.go"],
 [("items", "glove.makeItems"), ("solvers", "stochastic/adaGrad.trainOne")], ["WordVector(single/agg)"], "map iteration order is enumerated through a build-time overlay")

prop("C13", "LexVec training factorises the chosen association matrix",
 "For any corpus, single-worker LexVec training gives vectors that its update rule yields for some choice of the random window shrinkage and negative samples: each (word, context) and (word, negative sample) update moves the product of the word's vector and the other word's context vector towards the association value of that pair, 0 for pairs that never co-occurred. The association is the co-occurrence count, its logarithm, or (positive) pointwise mutual information from co-occurrence count, word frequencies, corpus length and smoothing exponent; an unknown relation is an error.",
 ["inputs", "configurations"], "every corpus up to the bound, relation type, smoothing, window, dimension, sample size, iteration count in the bound, every random draw",
 "LexVec code is never executed by a test",
 ["pkg/model/lexvec/lexvec.go", "pkg/model/lexvec/item.go"], [("association", "calculateRelation"), ("update", "trainOne/update")], ["WordVector(single/agg)"], "random draws redirected at build time through an overlay")

prop("C14", "The Huffman tree is an optimal prefix code and its paths are shared safely",
 "For any word frequencies, the tree built for hierarchical softmax is a full binary tree with one leaf per word, siblings have the codes 0 and 1, and the frequency-weighted path length is minimal. The path of a word runs from the root to its leaf, cut to the requested depth when that is positive, and complete otherwise. Any number of concurrent or repeated path look-ups return the same, correct path.",
 ["inputs", "schedules"], "all frequency vectors up to the bound, vocabulary size sweeps, all depths; all interleavings of concurrent look-ups at memory-access granularity",
 "the tree is never built in a test; corruption of a path needs two concurrent first look-ups",
 ["pkg/corpus/dictionary/huffman.go", "pkg/corpus/dictionary/node/node.go"], [("tree construction", "Dictionary.HuffnamTree"), ("path cache", "Node.GetPath")], ["HuffnamTree/GetPath results"], "build-time overlay instrumentation for the concurrent part")

prop("C15", "Sigmoid look-ups are total, monotone and accurate",
 "For every float64 strictly inside the table's range of -6 to 6, the sigmoid look-up returns without failing, within 0.004 of the true logistic function, strictly between 0 and 1, and never decreases when its argument increases.",
 ["inputs"], "every float64 in (-6,6): the look-up is piecewise constant, so all of its switching points are located exactly by bisection and both sides of each are checked",
 "the test evaluates one point, with a condition that is always true",
 ["pkg/model/word2vec/sigmoid_table.go"], [("lookup table", "newSigmoidTable, sigmoid")], ["sigmoid(x)"])

prop("C16", "Subsampling drops frequent words by the published probability",
 "The decision to train on a token depends only on the word's relative frequency f in the corpus, the threshold t and one uniform random draw: with t > 0 the token is dropped with probability max(0, 1 - sqrt(t/f)), so a word with f at or below t is never dropped and a rarer word is never dropped more often. A threshold of zero switches subsampling off: every token is trained.",
 ["inputs", "configurations"], "all frequency vectors and thresholds in the bound, every random draw class (both sides of each decision boundary)",
 "subsampling is never executed by a test and its outcome is random",
 ["pkg/model/modelutil/subsample/subsample.go"], [("trial", "Subsampler.Trial")], ["Trial(id)", "vectors after training"], "random draws supplied by the harness")

prop("C17", "Bounded random draws are in range and reach every value",
 "For every positive bound n and every reachable generator state, a draw is between 0 and n-1, and from any state every one of the n values is eventually drawn. This also holds when several goroutines draw concurrently in any interleaving.",
 ["inputs", "histories", "schedules"], "all bounds up to the limit, long draw histories for each, concurrent draws under all interleavings",
 "no test draws a number",
 ["pkg/model/modelutil/modelutil.go"], [("linear congruential generator", "modelutil.NextRandom")], ["NextRandom(n)"])

prop("C18", "Work is divided among workers completely, disjointly and evenly",
 "For every number of workers and every amount of work, the division consists of consecutive half-open ranges, one per worker, that start at 0, end at the amount of work, never overlap or leave gaps, and differ in size by at most one.",
 ["inputs"], "all worker counts and work sizes up to the bound plus power-of-two and large-size boundaries",
 "the division is never executed by a test",
 ["pkg/model/modelutil/modelutil.go"], [("ranges", "modelutil.IndexPerThread")], ["IndexPerThread"])

prop("C19", "Exported vectors honour the requested vector type for every word",
 "For every model, the exported matrix has one row of the configured dimension per vocabulary word, in id order. Type 'single' gives the word's own vector and 'agg' gives its own vector plus its context vector, component by component (hierarchical softmax has no context vectors, so both coincide there); exporting or saving does not change the model and repeated exports are identical, also when several goroutines export and save at the same time. Saving with an unknown vector type is an error.",
 ["configurations", "inputs", "histories"], "every model, optimizer, solver, dimension and tiny corpus in the bound, all orders of export/save calls",
 "no test exports or saves a matrix",
 ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/matrix/matrix.go"],
 [("export", "WordVector, Save"), ("row storage", "matrix.Matrix")], ["WordVector", "Save output"], "initial random values supplied by the harness")

prop("C20", "Model instances are independent and retraining starts afresh",
 "Training several models at the same time in one process gives each the result it would get alone, for every interleaving. Training a model a second time gives the same result as training a new model with the same options on that corpus.",
 ["schedules", "histories", "configurations"], "all pairs of models trained concurrently under all explored interleavings; all train/train sequences over the tiny corpora",
 "no test trains a model once, let alone twice",
 ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/modelutil.go"],
 [("all training state is rebuilt by Train", "Train")], ["WordVector"], "build-time overlay instrumentation")

prop("C21", "A failing corpus source makes training fail, never hang or succeed",
 "If reading or rewinding the corpus source fails at any point of any pass, training returns an error, for every model, storage mode and schedule; it never blocks and never reports success on partial data. A source that merely delivers its bytes in small pieces gives the same result as one that delivers them at once.",
 ["fault_sequences", "schedules", "configurations"], "a fault at every read and seek call of every pass, every short-read pattern for short texts, all models and storage modes, all interleavings at synchronisation operations",
 "no test trains or injects a fault; a fault in the second pass is what makes the pipeline hang",
 ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"],
 [("error propagation from scanner to Train", "ReadWord, Load, BatchWords, batchTrain")], ["error returned by Train"], "build-time overlay instrumentation")

prop("C22", "Every configuration either trains or is rejected with an error",
 "For any combination of option values, creating and training a model either returns an error or completes; out-of-range numbers (zero or negative sizes, counts, windows, batch or worker numbers) and unknown type names never cause a panic or a hang, and an unknown model, optimizer, solver, relation or count type is always an error. Values inside the documented ranges are accepted.",
 ["configurations"], "for every option each value of a small set around its limits, singly and in pairs, for every model and storage mode, on a tiny corpus under the controlled scheduler",
 "only an invalid count type is tested",
 ["pkg/model/word2vec/options.go", "pkg/model/glove/options.go", "pkg/model/lexvec/options.go"], [("option checking", "NewForOptions, Train")], ["errors of New and Train"], "build-time overlay instrumentation")

prop("C23", "Saved vectors load back unchanged",
 "For any vocabulary and any finite matrix, the saved text contains one line per word in id order of the form '<word> <v1> ... <vN>', and loading it yields the same words in the same order with the same dimension and each value equal to the original rounded to six decimals. Saving a matrix whose number of rows differs from the vocabulary size is an error.",
 ["inputs"], "all vocabularies of unusual words and all value vectors from a boundary set, up to the bound; dimension and vocabulary size sweeps across every internal buffer limit",
 "loading is tested on one literal; saving is never executed",
 ["pkg/model/modelutil/vector/vector.go", "pkg/embedding/embedding.go"], [("writer", "vector.Save"), ("reader", "embedding.Load")], ["bytes written", "Embeddings loaded"])

prop("C24", "A failed save is always reported",
 "If the destination rejects or truncates any write, saving returns an error, for every model's save as well; if saving returns success, every byte of the vector text has been accepted by the destination, in order.",
 ["fault_sequences"], "a fault, or a short write, at every byte offset of the output and at every write call, for small and multi-buffer outputs",
 "saving is never executed by a test, nor with a failing destination",
 ["pkg/model/modelutil/vector/vector.go"], [("flush and error propagation", "vector.Save")], ["error of Save", "bytes accepted"])

prop("C25", "Loading vectors accepts exactly well-formed files",
 "Loading either returns one vector per non-skipped line, with that line's word, values, dimension and Euclidean norm, or an error and no vectors; it never panics and never drops or invents a line. Lines starting with a blank are skipped; a line without at least one value, a value that is no floating-point number in Go's syntax or out of its range, and a read failure at any position are errors (whether NaN and infinities are numbers is left open). Searching refuses sets whose vectors differ in dimension.",
 ["inputs", "fault_sequences"], "every file up to the bound over an alphabet of tokens, separators and line ends; every read fault position and chunking",
 "one well-formed literal is tested and errors are ignored there",
 ["pkg/embedding/embedding.go", "pkg/embedding/embutil/embutil.go", "pkg/search/search.go"], [("parser", "parse, parseLine"), ("validation", "Validate")], ["Load result", "search.New error"])

prop("C26", "Search returns exactly the k most similar words",
 "For any vectors, query and k, the result holds the min(k, number of candidates) most similar candidates in order of decreasing cosine similarity, ranked 1, 2, 3, ..., where the candidates are the stored words with positive similarity to the query, without the queried word itself; it contains no empty entries. Searching for an unknown word, or with a query vector of another dimension, is an error, and a non-positive k gives an empty result; nothing ever panics.",
 ["inputs"], "every set of up to the bound vectors over a small grid (ties, zero and opposite vectors, duplicates), every query and every k from negative to beyond the size; larger sizes by sweep",
 "two tests use k=1 on one 4-word set",
 ["pkg/search/search.go", "pkg/search/searchutil/searchutil.go"], [("bounded insertion", "Searcher.Search"), ("cosine", "searchutil.Cosine")], ["Neighbors"])

prop("C27", "Searching never changes the searcher and is safe concurrently",
 "The result of a search depends only on the stored vectors, the query and k, never on earlier or concurrent searches, and no search, console line or printed table changes the stored vectors or a result handed out earlier.",
 ["histories", "schedules"], "every sequence of searches up to the bound compared with a fresh searcher; every interleaving of concurrent searches at memory-access granularity",
 "each test performs a single search on a fresh searcher",
 ["pkg/search/search.go", "pkg/embedding/embedding.go"], [("read-only item list, results built per call", "Searcher.Search")], ["Neighbors", "Searcher.Items"], "build-time overlay instrumentation for the concurrent part")

prop("C28", "The console evaluates each line independently and reports every failure",
 "In the console a single word (one that is an identifier of Go's expression syntax) lists its nearest words, and 'x + y' or 'x - y' lists the words nearest to the sum or difference of the two vectors, without x and y themselves. Any other line, or a word that is not in the vocabulary on either side, prints an error message and never a result, and leaves later lines unaffected: every line's output equals that of a fresh console. The console ends on 'exit' and at the end of input, ends with an error when its input cannot be read, and ignores empty lines.",
 ["histories", "inputs"], "every sequence of lines up to the bound over an alphabet of words, expressions and malformed lines, ended by exit or end of input",
 "the console is never executed by a test",
 ["pkg/search/console/console.go", "pkg/search/console/op.go", "cmd/query/console/console.go"], [("evaluation", "eval, evalBinaryExpr"), ("per-line cursor", "searchcursor"), ("loop", "Run")], ["console output"], None,
 [("cursor", "per-line words and vector", "console.go")])

prop("C29", "Command-line runs never destroy files and leave output only on success",
 "A training command refuses to run when the output file exists, leaving it byte-for-byte unchanged, and fails when the input file is missing. No command panics. When a command fails for any reason it exits with a non-zero status and no output file is left; when it succeeds, the file holds one well-formed vector per corpus word and the query command lists its nearest words in rank order. Of several commands that are given the same output at the same time at most one succeeds, and the file then holds its vectors. Input files are never modified.",
 ["configurations", "fault_sequences", "histories"], "every training command with every combination of existing/missing/unreadable input and output, valid/invalid options and vector types; every limit on the size of the output; every command sequence up to the bound; all interleavings, at file operations, of two commands",
 "no test runs a command",
 ["cmd/model/word2vec/word2vec.go", "cmd/model/glove/glove.go", "cmd/model/lexvec/lexvec.go", "cmd/query/query.go", "wego.go"],
 [("existence checks before creation", "execute")], ["exit status", "files", "printed table"])

prop("C30", "Progress reporting never affects results and counts all work",
 "Turning verbose progress output on, with any logging interval, changes neither the learned vectors nor the saved file nor the termination of training, in any schedule, and the totals it reports by the time training or saving returns, for words read, pairs read, items built, words or items trained and words saved equal the true numbers, while the numbers reported on the way to them neither decrease nor exceed them.",
 ["configurations", "schedules", "inputs"], "every model and storage mode, tiny corpora, all logging intervals in the bound, all interleavings at synchronisation operations",
 "no test trains or turns verbose output on",
 ["pkg/util/verbose/verbose.go", "pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/vector/vector.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go"],
 [("guarded printing", "verbose.Do, observe")], ["standard output", "WordVector"], "build-time overlay instrumentation")

prop("C31", "Similar words end up with similar vectors on natural corpora",
 "Training on a large natural corpus with the default options gives words of similar meaning or use a higher cosine similarity than unrelated words.",
 ["inputs"], "natural-language corpora of millions of words",
 "quality is statistical; the end-to-end program only prints neighbours",
 ["test/e2e.go"], [("the three models", "pkg/model")], ["query output"])

prop("C32", "Options mean the same however they are given",
 "Giving an option as a functional option, as a field of Options or as a command-line flag sets the setting of that name and no other, and options that are not given have the same defaults everywhere. Options may be given in any order and the last value given for an option counts. The file a training command writes is, for the same course of training, byte for byte the one that training and saving through the library with the same options gives.",
 ["configurations", "histories"], "every sequence of options and values up to the bound, for every model, in every way to give them; every single option and pair also by its effect on the saved vectors",
 "no test sets an option through a flag or a functional option",
 ["pkg/model/word2vec/options.go", "pkg/model/glove/options.go", "pkg/model/lexvec/options.go", "cmd/model/word2vec/word2vec.go", "cmd/model/glove/glove.go", "cmd/model/lexvec/lexvec.go"],
 [("flags", "LoadForCmd"), ("functional options", "New and the ModelOption functions"), ("command", "execute")], ["Options", "bytes of the saved file"], "build-time overlay instrumentation")

prop("C33", "Every training starts from fresh, independent random vectors",
 "Before the first update each component of every word's vector and (but for hierarchical softmax, which has none) of its context vector is one uniform random draw between -1/2 and 1/2 (GloVe: between 0 and 1) divided by the dimension. All components, of all words and of all trainings of any model instance, are drawn independently of each other, whatever the vocabulary, the dimension and the storage mode; no value is left over from an earlier training.",
 ["inputs", "histories"], "every outcome of the draws for small sizes, all sizes in the bound with one distinct value per draw, all histories of trainings in the bound",
 "no test trains; a shared or stale draw is invisible in any single run",
 ["pkg/model/word2vec/word2vec.go", "pkg/model/word2vec/optimizer.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/matrix/matrix.go"],
 [("initialisation", "Train, newNegativeSampling"), ("storage of the vectors", "matrix.New")], ["WordVector of a training without updates"], "build-time overlay instrumentation")

prop("C34", "A text that is not kept in memory is held only in bounded parts",
 "With in-memory storage off, no more than a few batches of the text per worker are ever held: the text is read no faster than it is trained, whatever the speed of the source and of the workers, and the memory that loading, streaming and training need depends on the vocabulary (and the number of different co-occurring pairs), not on the length of the text.",
 ["inputs", "schedules"], "schedules of reader and workers in the bound; texts of up to millions of tokens",
 "unit tests use texts of a few words, on which holding everything goes unnoticed",
 ["pkg/corpus/fs/fs.go", "pkg/corpus/cpsutil/cpsutil.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"],
 [("streaming", "BatchWords, Load"), ("spawning of workers", "batchTrain")], ["heap and vectors at every read of the text"], "build-time overlay instrumentation")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
