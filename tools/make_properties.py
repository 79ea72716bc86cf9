#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the list can be edited in one place."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    files = ["src/" + f for f in files.split()]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe.split("; "), "hook_needed": None}})

# ---------------------------------------------------------------- Bloom filter
p("B01", "Bloom filter: no false negatives",
  "Once an element was added, by value or by pointer, the filter reports it as present until the filter is cleared or its bits are replaced. This holds for every filter size in bits, every set of hash functions and every history of other additions and lookups, and never depends on what is stored next to the filter.",
  "histories inputs configurations", "every sequence of add/lookup/clear/set over any elements; sizes 1 to thousands of bits, including those that are no multiple of 8; 1 to 9 hash functions with any values below the size",
  "The tests add a handful of integers to filters of a few sizes; a lost bit at another size, position or after another history is not sampled.",
  "bloom_filter.hpp", [("add sets one bit per hash", "bloom_filter.hpp add"), ("lookup reads the same bits", "bloom_filter.hpp lookup"), ("bit addressing", "bloom_filter.hpp set_bit_to_one/get_bit")],
  "BloomFilter::lookup", [("bits", "the bit set", "bloom_filter.hpp")])
p("B02", "Bloom filter: a positive answer means exactly that all its bits are set",
  "A lookup answers true exactly when the bit of every hash of the element was set by an added element or by the bit array given to the filter. A new or cleared filter contains nothing. Giving the filter a bit array of ceil(size/8) bytes copies it: each of its first size bits is the bit of exactly one hash value, and no byte beyond the array is read.",
  "histories inputs configurations", "every history of add/lookup/clear/set and every bit array, for sizes from 1 bit up",
  "Tests check that a few chosen absent elements are reported absent; they cannot compare every answer with the exact set of bits.",
  "bloom_filter.hpp", [("bit addressing", "bloom_filter.hpp set_bit_to_one/get_bit"), ("clear", "bloom_filter.hpp clear"), ("set", "bloom_filter.hpp set")],
  "BloomFilter::lookup; BloomFilter::set; BloomFilter::clear")
# ---------------------------------------------------------------- Cuckoo filter
p("C01", "Cuckoo filter: no false negatives",
  "An element whose add was accepted is reported as present until it, or an element with the same fingerprint and buckets, is removed, or the filter is cleared. No later addition (successful or refused), eviction, lookup or removal of another element makes the filter forget it.",
  "histories inputs configurations", "every history of add/lookup/remove/clear, any hash and fingerprint functions, fingerprint sizes 1 to 8 bits, bucket sizes, numbers of buckets (powers of two), random numbers and empty markers",
  "Evictions depend on hashes, load and random numbers; the tests fill one or two small filters once.",
  "cuckoo_filter.hpp", [("kick out entries, undone when it fails", "cuckoo_filter.hpp add"), ("two candidate buckets", "cuckoo_filter.hpp search"), ("bit packing of entries", "cuckoo_filter.hpp get_entry/set_entry")],
  "CuckooFilter::add; CuckooFilter::lookup", [("buckets", "bit-packed fingerprints", "cuckoo_filter.hpp")])
p("C02", "Cuckoo filter: membership is exactly the stored fingerprints",
  "A lookup answers true exactly when a stored entry has the element's fingerprint in one of its two buckets, so a new or cleared filter contains nothing, whatever the marker for an empty entry is. Removing an element that is stored removes exactly one copy of it, and removing an element that is not stored changes nothing.",
  "histories inputs configurations", "every history of add/lookup/remove/clear over all configurations of C01; compared with a multiset of (fingerprint, bucket pair)",
  "Tests sample single additions and removals; duplicates, colliding fingerprints and entries that straddle bytes need generated histories.",
  "cuckoo_filter.hpp", [("search in both buckets", "cuckoo_filter.hpp search"), ("remove one entry", "cuckoo_filter.hpp remove"), ("clear", "cuckoo_filter.hpp clear"), ("bit packing of entries", "cuckoo_filter.hpp get_entry/set_entry")],
  "CuckooFilter::lookup; CuckooFilter::remove; CuckooFilter::clear")
p("C03", "Cuckoo filter: add succeeds when there is room, and fails without effect",
  "Adding succeeds whenever one of the element's two buckets has a free entry, and also when both are full but every entry in them has a free entry in its own other bucket. A filter with at least 4 entries per bucket and well spread hashes accepts additions up to 70% of its capacity. An add that returns false leaves the content of the filter as it was.",
  "histories inputs configurations", "every history; load runs over filters of many shapes; refused additions are compared with the state before",
  "The outcome depends on the whole history of the table and on random evictions.",
  "cuckoo_filter.hpp", [("space_in_bucket", "cuckoo_filter.hpp space_in_bucket"), ("bounded eviction chain", "cuckoo_filter.hpp add")],
  "return value of CuckooFilter::add; CuckooFilter::lookup")
# ---------------------------------------------------------------- LTC
p("L01", "LTC: the reconstruction stays within epsilon of every sample",
  "Drawing straight lines between consecutive transmitted points passes within epsilon of every sample that was added up to the last transmitted point (within epsilon plus one for integer values, whose transmitted values are truncated). This holds for every sequence of samples with increasing timestamps and values within the configured limits, for every epsilon, time unit and all value and time types.",
  "inputs histories", "all streams (constant, ramps, jumps, walks, near-tie streams, large offsets, irregular or huge timestamps) for int, long, float, double values and integer and floating-point times",
  "The test compresses one short list; an error in the cone of possible lines shows on specific geometries only.",
  "ltc.hpp", [("cone of lines through the last transmitted point", "ltc.hpp set_ul_and_ll/update"), ("need_transmit", "ltc.hpp need_transmit"), ("transmitted point is the middle of the limits", "ltc.hpp get_value_to_transmit")],
  "LTC::add; LTC::get_value_to_transmit", [("upper/lower line", "the limits of the cone", "ltc.hpp")])
p("L02", "LTC: a point is transmitted exactly when no line fits any more",
  "The compressor asks for a transmission with a sample exactly when no straight line from the last transmitted point passes within epsilon (and the configured limits) of this sample and of all samples since that point. It therefore never transmits while one line still represents everything, and never goes on when none does.",
  "inputs histories", "all streams of L01; decided by exact cone arithmetic with a margin for rounding",
  "Which sample triggers a transmission depends on the whole history of slopes; the test looks at one stream.",
  "ltc.hpp", [("need_transmit", "ltc.hpp need_transmit"), ("limits never widen", "ltc.hpp update min/max")],
  "return value of LTC::add")
p("L03", "LTC: transmitted points are ordered, dated by real samples and stable",
  "The first transmitted point is the first sample itself; every later one is dated with the sample before the one that caused the previous transmission, timestamps strictly increase, and values stay within the configured limits. No transmission is asked for by the first two samples, add answers only 0 or 1, and reading the point to transmit again gives the same point until the next transmission.",
  "inputs histories", "all streams of L01, with the getter called once, several times or not at all",
  "Depends on the sequence of samples and of calls; tests read each point once.",
  "ltc.hpp", [("timestamp of the previous sample", "ltc.hpp add"), ("get_value_to_transmit", "ltc.hpp get_value_to_transmit")],
  "LTC::get_value_to_transmit; LTC::add")
# ---------------------------------------------------------------- reservoirs
p("R01", "Reservoirs: every slot holds the element it was last given",
  "Elements go to the first free slot in order until a reservoir is full (an exponential reservoir may replace earlier ones meanwhile); from then on every index a reservoir chooses is inside it, or -1 when plain reservoir sampling does not keep the element. The chosen slot holds the element, no other slot changes, the count is as documented, and reservoirs are independent. This holds for every value of the random function in [0,1], 0 and 1 included.",
  "histories inputs configurations", "all streams, reservoir sizes, element types and all random sequences including the extreme values 0 and 1",
  "Tests use one random function over one stream; boundary values of the random function and overwriting a neighbour need generation.",
  "reservoir_sampling.hpp", [("sample_index", "reservoir_sampling.hpp sample_index"), ("add", "reservoir_sampling.hpp add")],
  "add; operator[]; count", [("sample", "the kept elements", "reservoir_sampling.hpp")])
p("R02", "Reservoir sampling: every subset of the stream is equally likely",
  "After n elements, every subset of N of them is in a reservoir of size N with the same probability, so each element is kept with probability N/n whatever its position. It holds for streams of any length, tens of thousands of elements included.",
  "histories inputs", "exhaustive frequency tables over subsets for small n and N, per-position frequencies for larger ones, long streams; decided by chi-square and binomial tails at 1e-12",
  "A test can check that some element was kept, not the distribution over all histories of random numbers.",
  "reservoir_sampling.hpp", [("replacement with probability N/n", "reservoir_sampling.hpp ReservoirSampling::sample_index")],
  "operator[] after the stream")
p("R03", "Exponential reservoir: an element survives m additions with (1-1/N)^m",
  "In an exponential reservoir of N slots every element is stored on arrival, and it is still present m additions later with probability (1-1/N)^m. While the reservoir fills up, a new element takes a free slot with probability 1-k/N when k of the N slots are used, and otherwise replaces one of the used ones, all equally likely.",
  "histories inputs", "survival and fill level tables over many random seeds, sizes 1 to 200, ages up to tens of thousands of elements; statistical bounds at 1e-12",
  "A distribution over random histories is out of reach of example tests.",
  "reservoir_sampling.hpp", [("biased insertion", "reservoir_sampling.hpp ExponentialReservoirSampling::sample_index")],
  "add; operator[]; count")
# ---------------------------------------------------------------- chained reservoir
p("K01", "Chained reservoir: slots only hold elements of the stream",
  "Until a chained reservoir is full, elements fill its slots in order; then an addition changes at most one slot, which holds the new element. Slots only ever hold elements of the stream, and two reads of a slot agree. This holds for every value of the random function in [0,1], 0 and 1 included, with and without obsolescence.",
  "histories inputs configurations", "all streams, sizes, element types, timestamps and random sequences (0, 1 and values next to 1 included), with and without obsolescence",
  "Tests run a few scripted random sequences on one reservoir size.",
  "chained_reservoir.hpp", [("add", "chained_reservoir.hpp add"), ("chains", "chained_reservoir.hpp push_on_chain")],
  "operator[]; get_timestamp; count", [("reservoir", "heads of the chains", "chained_reservoir.hpp")])
p("K02", "Chained reservoir: without obsolescence it is a uniform sample",
  "As long as nothing is made obsolete, the content of a chained reservoir of size N is a uniform sample: after n elements each element is in it with probability N/n, never twice, and all slots are replaced equally often. This holds for streams of any length.",
  "histories inputs", "frequency tables over positions for many sizes and lengths, streams of more than 70000 elements; bounds at 1e-12",
  "Tests cannot establish a distribution.",
  "chained_reservoir.hpp", [("sampling probability", "chained_reservoir.hpp add"), ("random_index", "chained_reservoir.hpp random_index")],
  "operator[] after the stream")
p("K03", "Chained reservoir: obsolete elements are replaced by live successors",
  "After timestamps up to a given one (inclusive) are declared obsolete, slots whose element is newer are untouched, and a slot whose element is obsolete keeps it or receives a later element of the stream that is not obsolete; as long as at least the last N elements are live, no slot holds an obsolete one. Declaring obsolete in several steps or in one leads to the same live content. The successor of an element is drawn uniformly among the N elements that follow it, and so on along the chain.",
  "histories inputs configurations", "all interleavings of add and obsolete with increasing timestamps, windows shorter and longer than the reservoir, chains of any length; succession frequencies at 1e-12",
  "Chains are hidden state that only shows after particular histories of adds and expiries.",
  "chained_reservoir.hpp", [("obsolete", "chained_reservoir.hpp obsolete"), ("successor choice", "chained_reservoir.hpp push_on_chain")],
  "ChainedReservoirSampling::obsolete; operator[]; get_timestamp")
p("K04", "Chained reservoir: allocation is bounded by the window, not by the stream",
  "The constructor and obsolescence allocate nothing and one addition allocates at most N blocks. Under a sliding window the total number of blocks ever allocated stays below N times the number of elements in the window (blocks are used again), however long the stream is. Chains of thousands of elements keep their order and lose nothing.",
  "histories configurations", "all interleavings of add and obsolete, chains of thousands of elements, several reservoirs at once",
  "Leaks and double frees depend on the shape of the chains; the tests never count allocations.",
  "chained_reservoir.hpp", [("clear_chain", "chained_reservoir.hpp clear_chain"), ("push_on_chain", "chained_reservoir.hpp push_on_chain"), ("obsolete frees heads", "chained_reservoir.hpp obsolete")],
  "calls of the malloc/free functions given to the class")
# ---------------------------------------------------------------- metrics
p("E01", "Error metrics: the score is the fraction of wrong predictions",
  "The score of ErrorMetrics is the fraction of wrong predictions since the last reset (inverted: of right ones), counting increase_error(c) as c wrong predictions; with the ratio option it is multiplied (inverted: divided) by the tree size. Copies and other instances are independent, and NoMetrics always scores zero.",
  "histories inputs", "all sequences of update, error, reset, copy and assignment over several instances",
  "The tests check one short sequence.",
  "metrics.hpp", [("update", "metrics.hpp ErrorMetrics::update"), ("score", "metrics.hpp ErrorMetrics::score"), ("reset", "metrics.hpp reset")],
  "score; error; ratio")
p("E02", "Kappa metrics: the score follows Cohen's kappa",
  "The score of KappaMetrics is (1-k)/2 (inverted: (1+k)/2), k being Cohen's kappa of the label/prediction pairs since the last reset; with the ratio option it is multiplied (inverted: divided) by the tree size. The score does not depend on the order of the updates nor on a renaming of the labels, is 0 for perfect agreement over several labels, and copies and other instances are independent.",
  "histories inputs", "all sequences of label pairs over 2 to many labels, resets, copies; degenerate cases where kappa is 0/0 excluded",
  "The tests check single confusion matrices.",
  "metrics.hpp", [("confusion matrix", "metrics.hpp KappaMetrics::update"), ("kappa", "metrics.hpp KappaMetrics::kappa")],
  "KappaMetrics::score")
p("E03", "Reservoir metrics: the newest metric and its S elders share a weight of one",
  "Every metric that is created or reset takes the next number n of the whole program. With n metrics started so far, the newest one weighs (n-S)/n for a sample of S and every older one 1/n, so that the newest and S older ones share a weight of one; a copy takes over the number of its source, and updates and errors change nothing.",
  "histories", "all sequences of creating, resetting, copying and scoring metrics",
  "The numbering is program-wide state, tests only see their own order.",
  "metrics.hpp", [("program-wide counter", "metrics.hpp ReservoirSamplingMetrics::last_number"), ("score", "metrics.hpp ReservoirSamplingMetrics::score")],
  "ReservoirSamplingMetrics::score", [("last_number", "number of metrics started in the program", "metrics.hpp")])
# ---------------------------------------------------------------- utils
p("U01", "Utils: arrays become distributions and indexes are picked by them",
  "Turning non-negative values with a positive sum into probabilities yields their cumulative fractions, never decreasing and ending on exactly one when the sum is computed by the function. Picking from such a distribution returns the index whose interval contains the random number, so always an index inside the array and never one of probability zero.",
  "inputs", "arrays of 1 to many values with zeros in any place, huge and tiny values, scripted random numbers at and next to every boundary, and frequencies",
  "The tests use one array and a few random numbers.",
  "utils.hpp", [("turn_array_into_probability", "utils.hpp turn_array_into_probability"), ("pick_from_distribution", "utils.hpp pick_from_distribution")],
  "Utils::turn_array_into_probability; Utils::pick_from_distribution")
p("U02", "Utils: the exponential generator follows the exponential law",
  "For every positive rate the exponential generator returns non-negative finite numbers distributed exponentially with that rate, as a monotone function of the one uniform random number it draws, for every uniform number in [0,1[.",
  "inputs", "rates over 60 binary orders of magnitude, samples of thousands of draws (Kolmogorov-Smirnov at 1e-12), and the edges of the uniform number",
  "A law cannot be decided by examples.",
  "utils.hpp", [("inverse transform", "utils.hpp rand_exponential")], "Utils::rand_exponential")
p("U03", "Utils: index of maximum, shuffle and small arithmetic helpers",
  "The index of the maximum is the first index of a largest element and the array is not changed; shuffling permutes the array in place, touches nothing else and can bring any element to any other place. Minimum, maximum, absolute value, rounding (halves away from zero), integer division and expm1 agree with their mathematical definition.",
  "inputs", "arrays of all sizes and types with ties, signed and floating-point numbers; all random functions for shuffle",
  "Tests sample a few arrays.",
  "utils.hpp", [("index_max", "utils.hpp index_max"), ("shuffle", "utils.hpp shuffle"), ("min/max/abs/round/div_int", "utils.hpp")],
  "Utils functions")
# ---------------------------------------------------------------- Naive Bayes
p("N01", "Naive Bayes: scores equal a batch computation over the same points",
  "The score of a label is the logarithm of its share of the training weight plus, over all features, the logarithm of the Gaussian density with the weighted mean and unbiased variance of the points of that label (1 or 0 for equal or different values when the variance is zero), exactly as a two-pass batch computation over all training points gives, up to rounding. The predicted label is the one with the highest score, with or without asking for scores.",
  "inputs histories", "all weighted training sequences (any order of labels, constant features, large offsets, single points) and query points, for several logarithm bases; the model is trained one point at a time and queried in between",
  "The streaming update of mean and variance is only right if it agrees with the batch formula on every stream; the tests use one data set.",
  "naive_bayes.hpp", [("streaming mean and variance", "naive_bayes.hpp train"), ("density", "naive_bayes.hpp probability_density"), ("product of probabilities", "naive_bayes.hpp predict")],
  "NaiveBayes::predict", [("count/mean/variance per label and feature", "running moments", "naive_bayes.hpp")])
p("N02", "Naive Bayes: training commutes and prediction changes nothing",
  "The order in which points are trained does not change the scores (up to rounding), an integer weight equals as many repetitions, and renaming labels, permuting features, shifting and scaling features or adding points of another label changes the scores exactly as the formula says. Predicting changes neither the model nor its arguments, and instances are independent.",
  "inputs histories", "all training sequences, permutations, relabellings and interleaved predictions over two instances",
  "These are relations between runs.",
  "naive_bayes.hpp", [("train", "naive_bayes.hpp train"), ("predict", "naive_bayes.hpp predict")],
  "NaiveBayes::predict")
# ---------------------------------------------------------------- perceptron
p("P01", "Perceptron: the forward pass is the layered weighted sum",
  "For every number and size of layers, weights and input, the outputs are the activation function applied to the weighted sums of the previous layer plus bias, layer after layer. Evaluating the network changes neither its input nor its weights, and evaluating it twice gives the same outputs.",
  "inputs configurations", "2 to several layers of 1 to many neurons, weights of any sign and magnitude, several activation functions; compared with an independent implementation",
  "The tests evaluate two fixed networks; index arithmetic errors appear for other layer sizes.",
  "perceptron.hpp", [("feed_forward", "perceptron.hpp feed_forward"), ("index arithmetic", "perceptron.hpp get_weight_base/get_output_base")],
  "MultiLayerPerceptron::feed_forward; MultiLayerPerceptron::predict")
p("P02", "Perceptron: backpropagation is one step of gradient descent",
  "After a forward pass, backpropagation changes every weight by minus the learning rate times the derivative of half the squared error with respect to that weight, computed with the weights before the step, and returns the mean squared error of the outputs before the step. It changes and reads nothing outside of the network, for every layer layout, activation function and sequence of steps.",
  "inputs configurations histories", "all layouts, weights, inputs, targets and learning rates; sequences of several steps; compared with a reference and with the numeric gradient",
  "The tests train XOR and one fixed step; wrong deltas in hidden layers still often learn.",
  "perceptron.hpp", [("backpropagate", "perceptron.hpp backpropagate")],
  "MultiLayerPerceptron::backpropagate; get_weights")
p("P03", "Perceptron: weight accessors address exactly the weights they name",
  "Setting the weights of one neuron, one layer or all layers changes exactly those weights, in the order in which they are read back, and nothing else, and neither evaluation nor any other accessor moves them. Initial weights come from the random function of the user, so two networks with the same random numbers are equal, and networks are independent; weights and outputs stay within the size given.",
  "inputs configurations", "all layouts and all neurons and layers, any sequence of setters",
  "Index arithmetic over layers of different sizes is sampled by the tests for one layout.",
  "perceptron.hpp", [("set_weights", "perceptron.hpp set_weights"), ("get_weight_base", "perceptron.hpp get_weight_base"), ("constructor", "perceptron.hpp MultiLayerPerceptron")],
  "set_weights; get_weights")
# ---------------------------------------------------------------- Hoeffding tree
p("H01", "Hoeffding tree: information gains equal the textbook definition",
  "For every feature and every candidate limit a leaf reports the textbook information gain: the entropy of the labels at the leaf minus the weighted entropies of the two sides of the limit, for all points that reached the leaf, values equal to a limit counting on the side a split would send them to. All gains are finite.",
  "inputs histories configurations", "all streams of points with any number of features, labels, limits and value types; limits set by the user at any place",
  "Tests use one small table.",
  "hoeffding_tree.hpp", [("counters per limit", "hoeffding_tree.hpp train"), ("compute_information_gain/compute_entropy", "hoeffding_tree.hpp")],
  "Node::compute_information_gain", [("counters", "per label, feature and bin counts", "hoeffding_tree.hpp")])
p("H02", "Hoeffding tree: grows and predicts as the reference algorithm",
  "A leaf splits exactly when the gain of the best limit, averaged over its points so far, exceeds that of the second best by the Hoeffding bound for its number of points and the given confidence (range 2), on the feature and value of that best limit; its children start empty with limits evenly spaced over their box. Predictions give the label frequencies of the leaf a point is sorted to (uniform for an empty leaf). Splitting or training one leaf never changes the counts of another.",
  "inputs histories configurations", "all streams, compared point by point with an independent reference tree (gains, splits, structure, predicted label and probabilities), decisions closer than rounding excluded",
  "Growth depends on the whole stream; the tests only check one accuracy and one split.",
  "hoeffding_tree.hpp", [("Hoeffding bound", "hoeffding_tree.hpp train"), ("split", "hoeffding_tree.hpp Node::split"), ("sorting", "hoeffding_tree.hpp sort_in_leaf"), ("evaluation limits", "hoeffding_tree.hpp select_split_values")],
  "HoeffdingTree::train; HoeffdingTree::predict; get_root")
p("H03", "Hoeffding tree: a full memory stops growth and nothing else",
  "The tree never uses memory beyond its size; training returns false only when a split was due and refused because the memory is full. A full tree keeps counting points, keeps its structure and the counts of all leaves, keeps predicting the label frequencies of its leaves, and never grows again.",
  "histories configurations", "all streams over trees with room for one to a few nodes; memory around the tree is guarded",
  "The tests never fill the memory.",
  "hoeffding_tree.hpp", [("space check in split", "hoeffding_tree.hpp Node::split"), ("train return value", "hoeffding_tree.hpp train")],
  "return value of HoeffdingTree::train; HoeffdingTree::predict")
# ---------------------------------------------------------------- MCNN
p("M01", "MCNN: prediction is the label of the nearest cluster mean",
  "As long as no cluster is split or replaced, the predicted label is that of the cluster whose mean of absorbed points is nearest to the query in Euclidean distance, at any distance and scale of the data. A training point is absorbed by the nearest cluster of its own label, or starts a new cluster when there is none.",
  "inputs histories configurations", "all streams and queries, float, double and signed integer features, huge and tiny coordinates; compared with plain means, near ties excluded",
  "Tests predict a few points around two clusters.",
  "mc_nn.hpp", [("find_nearest_clusters", "mc_nn.hpp find_nearest_clusters"), ("incorporate", "mc_nn.hpp incorporate"), ("centroid", "mc_nn.hpp centroid")],
  "MCNN::predict")
p("M02", "MCNN: splits, evictions and cleaning follow the algorithm",
  "A point whose nearest cluster has another label lowers the error counter of that cluster and of its own label's nearest one (each starts at the threshold), one whose nearest cluster has its label raises it; a cluster whose counter reaches zero is split at its mean plus and minus one standard deviation of its most varying feature. When there is no room the cluster of least participation is replaced or, with cleaning 1, nothing is added; cleaning 1 and 2 remove at every training the clusters of more than one point whose participation is below the performance threshold. Cluster count, train's result and predictions after every point equal those of a reference implementation of these rules.",
  "inputs histories configurations", "all streams, thresholds, cleaning periods and cluster capacities; compared step by step with a reference model, decisions closer than rounding excluded",
  "Splits and evictions need long specific streams; tests only check accuracy on one.",
  "mc_nn.hpp", [("error bookkeeping", "mc_nn.hpp train"), ("split", "mc_nn.hpp split"), ("eviction", "mc_nn.hpp get_lowest_participation"), ("cleaning", "mc_nn.hpp clean_low_performance_clusters")],
  "MCNN::predict; MCNN::count_clusters", [("clusters", "sums, squares, error and timestamps per cluster", "mc_nn.hpp")])
p("M03", "MCNN: only trained labels are predicted, the cluster count stays in bounds",
  "Predictions are the empty class before any accepted training point and otherwise a label of an accepted training point; the number of clusters is at least one after training and never exceeds the capacity. Training the same points gives the same answers, prediction changes nothing, and training is refused only with cleaning method 1 when all clusters are in use.",
  "inputs histories configurations", "all streams and capacities, data far from the origin and far apart",
  "Relations over histories; tests check accuracy.",
  "mc_nn.hpp", [("empty class", "mc_nn.hpp predict"), ("capacity", "mc_nn.hpp train/split")],
  "MCNN::train; MCNN::predict; MCNN::count_clusters")
# ---------------------------------------------------------------- Mondrian forests
p("F01", "Coarse Mondrian forest: well-formed trees that count exactly their points",
  "After every point each tree is a proper binary tree over its own nodes (no node is shared, lost or used while marked as free), split times increase downwards below the lifetime, splits lie inside their boxes, and a limit on the depth (or with ROBUR_MANAGEMENT on the nodes) of a tree is respected, and holds no tree back before it is reached. The leaves count exactly the points (per label) that were trained and sort to them, in the smallest boxes that contain them, as far as the extension method promises so. Training returns false exactly when a tree could not take the point.",
  "inputs histories configurations", "all streams, tree counts, lifetimes, memory sizes (down to no free node), depth limits, tree management modes and extension methods; every node of every tree is inspected after every point",
  "Tests look at accuracy and node counts on one stream.",
  "mondrian_coarse.hpp", [("extend_block variants", "mondrian_coarse.hpp extend_block"), ("extend_node", "mondrian_coarse.hpp extend_node"), ("split_node, adjust_boxes, adjust_counters", "mondrian_coarse.hpp split_node"), ("node accounting", "mondrian_coarse.hpp available_node")],
  "get_nodes; get_bases; return value of train", [("nodes", "all nodes of all trees", "mondrian_coarse.hpp"), ("tree bases", "root and limits per tree", "mondrian_coarse.hpp")])
p("F02", "Memory-bounded Mondrian forest: never exceeds its size, works when full",
  "The memory-bounded forest uses no more memory than its size; training returns false only when a tree has no root for lack of memory. A forest whose memory is used up keeps learning counts and boxes without splitting, exactly as the coarse forest does with the same number of nodes, and keeps predicting valid labels with finite scores.",
  "histories configurations inputs", "all streams over forests with room for a few to a few dozen nodes, several trees, float and double and int features",
  "Tests use a memory that is never filled in most cases.",
  "mondrian.hpp mondrian_coarse.hpp", [("available_node", "mondrian.hpp available_node"), ("extend_block", "mondrian.hpp extend_block"), ("train_tree", "mondrian.hpp train_tree")],
  "train; predict")
p("F03", "The three Mondrian forests agree when given the same random numbers",
  "With enough memory and the same random numbers, the memory-bounded, the unbounded and the coarse Mondrian forest give every query the same label scores and the same label after every training point.",
  "inputs histories configurations", "all streams, lifetimes, base measures, discount factors, tree counts and feature types; queries at, near and far from the data after every point",
  "A differential relation between three implementations over all streams.",
  "mondrian.hpp mondrian_coarse.hpp mondrian_unbound.hpp", [("extension of blocks", "extend_block in each file"), ("posterior means", "compute_posterior_mean/predict_tree in each file")],
  "predict with scores")
p("F04", "Mondrian forests: prediction is pure, in range and finite",
  "Predicting never changes what a forest later learns or answers, however often and with whatever queries it is asked; the answer is the label of the highest score, all scores are finite, and asking with or without the scores gives the same label. An untrained forest gives every label its base measure.",
  "inputs histories configurations", "all three forests, all extension and trimming methods, streams interleaved with any number of predictions, queries far from the data",
  "Relation between histories with and without predictions.",
  "mondrian.hpp mondrian_coarse.hpp mondrian_unbound.hpp", [("predict", "predict in each file"), ("posterior counts", "update_posterior_count in each file")],
  "predict; train")
p("F05", "Unbounded Mondrian forest: every allocation is given back",
  "An unbounded Mondrian forest gives back all the memory it allocated when it is destroyed, repeated predictions do not make it grow, and no node is used after it was freed. Several forests live and die independently.",
  "histories configurations", "all streams, forests created and destroyed in any order; every allocation of the program is counted",
  "Tests do not count memory.",
  "mondrian_unbound.hpp", [("destructors of nodes and trees", "mondrian_unbound.hpp"), ("extend_block relinks nodes", "mondrian_unbound.hpp extend_block")],
  "operator new and delete")
p("F06", "Coarse Mondrian forest: trimming removes exactly one leaf of every tree",
  "A trim removes from every tree that has a split exactly one leaf, its parent being replaced by the sibling with everything below it unchanged, and gives both nodes back for reuse; with the count based method it is a leaf with the fewest points, with the fading method one with the lowest fading score. Trims happen when asked for, and while training only when the memory is full, once every hundred points; a tree of a single leaf is left alone.",
  "inputs histories configurations", "all streams, memory sizes, tree counts and the random, count based and fading trimming methods; the node graph before and after each trim is compared",
  "Tests never trim.",
  "mondrian_coarse.hpp", [("tree_trim", "mondrian_coarse.hpp tree_trim"), ("train", "mondrian_coarse.hpp train")],
  "get_nodes; get_bases; tree_trim")
p("F07", "Mondrian forests: trees are samples of the Mondrian process on their data",
  "The first split of a tree trained with given points happens before the lifetime with probability 1-exp(-lifetime * W), W being the sum of the feature ranges, at a time that follows the truncated exponential law of rate W, on a feature chosen in proportion to its range, at a place uniform over that range, whatever the order of the points. The scores of the memory-bounded and unbounded forests have the same distribution as those of the coarse one.",
  "inputs", "small data sets of any order, dimension and type; thousands of trees each, bounds at 1e-12",
  "A law over random numbers.",
  "mondrian.hpp mondrian_coarse.hpp mondrian_unbound.hpp", [("exponential split times", "extend_block"), ("choice of dimension and value", "extend_node")],
  "get_nodes; predict")

p("F08", "Mondrian forests: scores are the posterior means of the trees, within [0,1]",
  "With a base measure within [0,1] and a discount factor that is not negative every score is within [0,1], and a forest that was trained with a single label scores it highest. A score is the average over the trees of the posterior mean at the leaf of the query: at each node the counts of the labels it has seen are discounted by exp(-discount * time since the split of the parent) in favour of the mean of the parent, a label it has not seen keeps the mean of the parent. A query outside of the box of a node branches off there with probability 1-exp(-time since the split of the parent * distance to the box), and then takes the mean of a node inserted there; a node that counts no points keeps the mean of its parent, and asking only the first k trees averages over those.",
  "inputs histories configurations", "all three forests, all streams, extension and trimming methods, base measures and discount factors; queries inside and far outside the data; compared with a computation from the splits, boxes and leaf counts of the coarse forest",
  "No test predicts with a Mondrian forest.",
  "mondrian.hpp mondrian_coarse.hpp mondrian_unbound.hpp", [("posterior mean of a node", "compute_posterior_mean in each file"), ("smoothing along the path", "predict_tree in each file"), ("counts of the inner nodes", "update_posterior_count")],
  "predict with scores; get_nodes")

p("F09", "Coarse Mondrian forest: splits and trims of grown trees lose no points or nodes",
  "Whatever the options for splitting nodes (split trigger, split helper, distribution of the counts, extension parameter), trims, memory sizes and streams: every trained point is counted exactly once, in one leaf of its label of each tree; a split moves points between leaves but loses, duplicates or relabels none; a trim takes away the points of exactly one leaf at most. No node is lost (points far away use up all free nodes again), and scores stay finite and within [0,1], also with leaves that count no points.",
  "histories inputs configurations", "all streams with repeated and shifted points, all split triggers, helpers and distributions, trims during training and by request, forests that are long full",
  "Tests never fill the memory of a coarse forest, nor trim it, nor use the split options.",
  "mondrian_coarse.hpp", [("split_node, split_barycenter", "mondrian_coarse.hpp split_node"), ("adjust_counters, adjust_boxes", "mondrian_coarse.hpp adjust_counters"), ("tree_trim", "mondrian_coarse.hpp tree_trim")],
  "get_nodes; get_bases; predict with scores")
p("F10", "Coarse Mondrian forest: what it reports about its trees is true",
  "The public queries (counts of points by leaf, of inner nodes and beside a split, of forced extensions and dead supply, barycentres, evaluation of scores) and the printed trace answer what the nodes of the trees hold: the counts that a walk over the trees gives, for every tree. Asking or printing changes nothing in the forest.",
  "inputs histories configurations", "all streams, tree counts and options; every query is compared with a walk over the nodes, every printed number with the number of the forest",
  "No test calls these functions.",
  "mondrian_coarse.hpp", [("count_* queries", "mondrian_coarse.hpp count_sides"), ("eval_scores", "mondrian_coarse.hpp eval_scores"), ("scory, otter, printy", "mondrian_coarse.hpp scory")],
  "count_sides; find_barycenter; eval_scores; scory; printy")

p("F11", "Coarse Mondrian forest: a build with UNBOUND_OPTIMIZE predicts the same",
  "Built with UNBOUND_OPTIMIZE, where training updates the counts along the branch of the new point instead of prediction updating all of them, a forest that is not trimmed gives the same scores and labels as without it: the posterior means of its trees.",
  "inputs histories configurations", "all streams, extension methods, tree counts, memories, base measures and discount factors, several forests in one program; scores compared with a computation from the leaves, and with the other two forests",
  "The tests build without it and have no Mondrian forest.",
  "mondrian_coarse.hpp", [("counts along a branch", "mondrian_coarse.hpp update_posterior_count(tree_id, features, label)"), ("train and predict", "mondrian_coarse.hpp #ifdef UNBOUND_OPTIMIZE")],
  "predict with scores; get_nodes")
p("F12", "Mondrian forests: the debug build behaves like the normal one",
  "Built with DEBUG the Mondrian forests keep all their guarantees: well-formed trees, exact counts, the same scores as each other and as the posterior means of their trees, splits and trims that lose no points. The self-check of the debug build never stops a program whose trees are sound, and its messages change nothing.",
  "inputs histories configurations", "all streams and options of the coarse forest, and streams to all three forests with the same random numbers, in a program built with DEBUG",
  "The tests have no Mondrian forest in any configuration.",
  "mondrian_coarse.hpp mondrian.hpp", [("self-check", "mondrian_coarse.hpp tree_checker"), ("assertions of the constructor", "mondrian_coarse.hpp CoarseMondrianForest"), ("messages", "#ifdef DEBUG in both files")],
  "predict with scores; get_nodes; end of the program")

# ---------------------------------------------------------------- the library as a whole
p("X01", "Objects are independent values: copies answer as the original would",
  "A copy of a filter, reservoir, compressor, metric or learner (by copy, assignment over an object with another history, or move) answers every later sequence of calls exactly as the original would have. From then on the two are independent: what is done to one of them, also its destruction, never shows in the other, and two objects with the same history and random numbers always agree.",
  "histories", "every structure of the library, any history before and after the copy, any interleaving of calls to the original and the copy, either of them destroyed at any time",
  "No test copies an object.",
  " ".join(h + ".hpp" for h in "bloom_filter chained_reservoir cuckoo_filter hoeffding_tree ltc mc_nn metrics mondrian mondrian_coarse mondrian_unbound naive_bayes perceptron reservoir_sampling".split()),
  [("nodes of the Hoeffding tree point to their tree", "hoeffding_tree.hpp operator="), ("chains of the reservoir", "chained_reservoir.hpp copy_chain"), ("copies of nodes and clusters", "mondrian.hpp Node; mc_nn.hpp cluster"), ("nodes of the unbounded forest", "mondrian_unbound.hpp clone")],
  "all public calls")
p("X04", "All headers work together in one program",
  "Any selection of the library's headers, also one on its own, can be included in a program in any order and any number of times, before or after the standard headers, in one translation unit or in several that are linked together. Such a program builds with C++11, C++14 and C++17, with g++ and clang++, and also in the debug configuration (-DDEBUG), every algorithm in it works as it does alone, and program-wide counts exist once for the whole program.",
  "programs configurations", "every list of headers with repetitions, over one to three translation units, three language standards, two compilers, with and without DEBUG; each included header is used",
  "Each test file includes one header or two, once.",
  " ".join(h + ".hpp" for h in "bloom_filter chained_reservoir cuckoo_filter hoeffding_tree ltc mc_nn metrics mondrian mondrian_coarse mondrian_unbound naive_bayes perceptron reservoir_sampling utils".split()),
  [("include guards", "first line of every header"), ("program-wide counter of metrics", "metrics.hpp ReservoirSamplingMetrics")],
  "compiler; linker; results of the program")

with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
