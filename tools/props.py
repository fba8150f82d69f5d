"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when checks/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))


M = "sidetopics/model/"
U = "sidetopics/util/"
FACADE = M + "sklearn/lda_cvb.py"

prop("P01", "Cross-validation splits partition the documents",
     "For any data set, number of folds and fold index, a cross-validation split puts every document in exactly one of the training and query sets, with none lost and none on both sides, and over all folds every document is held out - exactly once if the folds divide the documents evenly. "
     "Every component of a document (words, features, its row of links, categories, metadata) stays with it, unchanged, and the original data set is not modified.",
     ["inputs", "configurations"], "all data sets (any subset of components, any number of documents), all fold counts from 2 to the number of documents, all folds",
     "Tests split one or two data sets with every component or only words; the property is over every combination of components, document count and fold.",
     [M + "common.py"], [("DataSet.cross_valid_split / _split / _reorder", M + "common.py")],
     "Runtime monitor: documents carry unique identities in every component; an oracle identifies every row of every split and checks the partition, the pairing and the purity of the input",
     "Identity-tagged data sets, all folds of each; oracle observes real splits.")
prop("P02", "Document completion gives each token to exactly one side",
     "Splitting documents into an observed part and a part to be predicted sends every occurrence of every word to exactly one of the two, so that the two parts are non-negative, whole counts that add up to the original in every cell. "
     "All other components (features, links, categories, metadata, document order) are the same on both sides, and the original is not modified.",
     ["inputs", "configurations"], "all word-count matrices (sparse or dense, any count type, empty documents, huge counts), all proportions, minimum lengths and seeds",
     "No test adds the halves up, or uses counts above one together with every count type.",
     [M + "common.py"], [("DataSet.doc_completion_split, split_words", M + "common.py")],
     "Runtime monitor: conservation oracle, cell by cell, over generated corpora, with statistical check of the requested proportion",
     "Conservation checked on every cell of each split.")
prop("P03", "Link hold-out neither loses nor invents nor leaks links",
     "Holding out links for prediction gives every link of each document that is split to exactly one side, with its weight; no link appears that was not there, symmetric splits stay symmetric, no link is held out in two folds, and documents with too few links keep all of them for training. "
     "Documents keep their words, features and order, and the original is not modified.",
     ["inputs", "configurations"], "all link graphs (directed, symmetric, with self-links, empty rows, any weight type), thresholds and seeds",
     "Tests use a single link matrix and compare totals.",
     [M + "common.py"], [("DataSet.link_prediction_split, folded_link_prediction_split, split_on_feature", M + "common.py")],
     "Runtime monitor: conservation oracle on every link over generated graphs",
     "Links compared one by one with the original graph.")
prop("P04", "Selecting, reordering, loading and copying keep documents whole",
     "Pruning, reordering, limiting, loading, saving and copying a data set keep every component of each surviving document together in the specified order, drop exactly the documents the operation is specified to drop, and leave the source (and, for copies, every later change to either) independent.",
     ["inputs", "configurations", "histories"], "all data sets with any subset of components, any chain of operations",
     "Tests cover single operations on one data set; chains, absent components and copies of every component are not exercised.",
     [M + "common.py"], [("DataSet: reorder, prune_and_shuffle, from_files, copy, convert_to_dtype, limits", M + "common.py")],
     "Runtime monitor: identity-tagged data sets driven through random chains of operations, with an oracle model of which documents must remain, and aliasing probes by write",
     "Chains of operations checked after every step.")
prop("P05", "Sparse kernels equal their dense definitions",
     "Every sparse product, division, normaliser and soft-max reduction returns, for each stored cell, the value of its dense definition to floating-point accuracy of its type, in the sparsity pattern of its input, and writes only to the output it was given. "
     "Row ranges, caller-supplied outputs, scaling, unsorted indices, explicit zeros and every supported element type give the same values.",
     ["inputs", "configurations"], "all sparse matrices, dense factors, types, row ranges and output buffers",
     "Tests compare a handful of random CSR matrices in one type.",
     [U + "sparse_elementwise.py", U + "se_fast.pyx"], [("sparseScalarProductOf*, sparseScalarQuotientOf*, scaledSelfSoftDot, selfSoftDot, entropyOfDot, maxOverRows...", U + "sparse_elementwise.py")],
     "Runtime monitor: differential oracle, a float64 dense reference computed cell by cell beside every call of the real kernels, and hashes of every argument before and after",
     "Differential, thousands of calls over all kernels.")
prop("P07", "Logarithm, exponential and determinant helpers are stable everywhere",
     "The overflow-safe logarithm, exponential, log-sum, x log x and determinant helpers return the mathematically correct value, within the accuracy of the type, over the whole range of floating-point inputs, including those at which the naive formula overflows, underflows or divides by zero. "
     "They never return NaN for a finite input in their domain and never modify their arguments unless asked to.",
     ["inputs"], "all finite inputs of each supported type and shape",
     "Tests evaluate no extreme arguments.",
     [U + "overflow_safe.py", U + "sigmoid_utils.py"], [("safe_log, safe_log_one_plus, safe_x_log_x, lnDetOfDiagMat, safeDet, ...", U + "overflow_safe.py")],
     "Runtime monitor: reference-value oracle (higher precision) over sweeps of the number line, including branch boundaries",
     "Regions around every branch threshold sampled densely.")
prop("P08", "vec, vec-transpose and their matrix agree with their definitions",
     "Vectorising and vec-transposing a matrix, dense or sparse and of any element type, moves every entry to the position of the definition and changes none; the vec-transpose matrix applied to the vectorised matrix is the vectorised vec-transpose, and a second transposition with the conjugate parameter restores the original.",
     ["inputs", "configurations"], "all matrices, all block sizes that divide the rows, dense and sparse storage, all element types",
     "Tests use a few fixed matrices of floats.",
     [U + "vectrans.py", U + "vt_fast.pyx"], [("vec, vec_transpose, vec_transpose_csr, sp_vec_trans_matrix", U + "vectrans.py")],
     "Runtime monitor: entry-by-entry differential oracle",
     "Every entry of each transposition compared with the index formula.")
prop("P09", "Ranking metrics equal their definitions",
     "Precision at m, recall at m, mean reciprocal rank, mean average precision and their averages over groups are exactly those of the definitions for every estimated and expected link matrix, and no link is counted twice or beyond the cut-off.",
     ["inputs", "configurations"], "all pairs of estimated and expected links with distinct scores, all cut-offs, all groupings",
     "Tests do not compute any of these metrics.",
     [M + "evals.py"], [("mean_prec_rec_at, mean_reciprocal_rank, mean_average_prec, mean_average_prec_rec...", M + "evals.py")],
     "Runtime monitor: brute-force reference computed from the definition beside each call",
     "Brute-force reference for each metric.")
prop("P10", "A score is the likelihood of the data it was given",
     "For every kind of topic model, a score is the log-likelihood (or perplexity) by definition of the words given, under the topics given or inferred and the trained word distributions, one value per document where documents are scored individually, whatever the matrix format, count type, or way of asking (topics, persisted inference, data set, document completion).",
     ["inputs", "configurations", "histories"], "all kinds of model behind the common interface, corpora, count types, matrix formats, ways of passing topics",
     "Tests only assert that some scores are larger than others on one corpus.",
     [FACADE, M + "evals.py", M + "lda_cvb0.py", M + "lda_cvb.py", M + "lda_vb_python.py", M + "lda_gibbs.py", M + "mom_em.py", M + "mom_gibbs.py"],
     [("score, log_likelihood_score_point, perplexity", FACADE), ("log_likelihood_point", M)],
     "Runtime monitor: every score of the real models recomputed from the definition in float64",
     "Definition oracle on every score observed.")
prop("P11", "Topic models only ever return probability distributions",
     "Whatever corpus, priors, count type, matrix format or number of iterations a topic model is trained or queried with, the topics of documents and the words of topics it returns are finite, non-negative, sum to one, and have one row per document or topic.",
     ["inputs", "configurations"], "all kinds of model, corpora (including words that never occur, single documents, single-word documents, huge counts), priors (tiny ones included), topic counts, iteration counts",
     "Tests check the sums on a single easy corpus with default configuration.",
     [FACADE, M + "lda_cvb0.py", M + "lda_cvb.py", M + "lda_vb_python.py", M + "lda_gibbs.py", M + "mom_em.py", M + "mom_gibbs.py"],
     [("topicDists, wordDists, transform, components_", FACADE)],
     "Runtime monitor: assertion on every output of the real models under hostile configurations",
     "Distribution assertions on every output.")
prop("P12", "Using a trained model does not change what it learnt",
     "After training, any sequence of inferring topics, scoring by any method, reading, copying or misusing the model leaves all that was learnt byte-for-byte the same, and the same query repeated with the same randomness gives the same answer. "
     "Only training changes what was learnt.",
     ["histories", "configurations"], "all sequences of uses of a trained model, all kinds of model",
     "Tests do not query a model twice, nor compare its state before and after.",
     [FACADE, M + "lda_cvb0.py", M + "lda_cvb.py", M + "lda_vb_python.py", M + "lda_gibbs.py", M + "mom_em.py", M + "mom_gibbs.py"],
     [("query, log_likelihood_point: restore the counts they borrow", M)],
     "Runtime monitor: hashes of every array a model learnt, after each step of random histories of use",
     "State hashed after each step of each history.")
prop("P13", "The seed decides the result",
     "Two runs with the same data, configuration and seed give byte-identical models, topics and scores, in the same process or another and whatever ran before; different seeds give different random states.",
     ["inputs", "configurations", "histories"], "all kinds of model, data, seeds, and all preceding activity in the process",
     "Tests compare the results of different models, never of two runs with different histories or in different processes.",
     [FACADE, M + "lda_gibbs.py", M + "lda_gibbs_fast.pyx", M + "mom_gibbs.py"], [("seed, seed_rng, initialize", FACADE)],
     "Runtime monitor: hashes of all outputs of paired runs, in-process after unrelated activity and in fresh processes",
     "Paired executions compared by hash.")
prop("P14", "Resumed inference equals uninterrupted inference",
     "For the deterministic kinds of model, inferring topics for some iterations and carrying on for the remaining ones gives the same topics as doing all of the iterations at once; so does training, and its word distributions, for the kinds whose training is not incremental (variational Bayes and mixtures). "
     "State is only kept when asked for, and carrying on with other documents is refused and changes nothing.",
     ["histories", "configurations"], "all ways of cutting a number of iterations into parts, all deterministic kinds of model",
     "The tests resume once, and compare only that scores are close.",
     [FACADE, M + "lda_cvb0.py", M + "lda_cvb.py", M + "lda_vb_python.py", M + "mom_em.py"], [("resume, persist_query_state, train with an existing query state", FACADE)],
     "Runtime monitor: interrupted and uninterrupted executions of the real code compared numerically",
     "Pairs of executions compared.")

prop("P06", "Native kernels stay in bounds, leak nothing and read no garbage",
     "For every valid input, the compiled kernels and samplers read and write only within the arrays they were given, perform no undefined arithmetic, and do not keep memory after they return. "
     "Their results are functions of their arguments: what freshly allocated memory happens to hold has no influence, and no error inside a kernel is swallowed.",
     ["inputs", "configurations"], "all valid inputs of every kernel and every natively implemented model, including empty documents, single words, unsorted and explicit-zero storage, row ranges",
     "The compiled code disables bounds checks, so an ordinary test that overruns a buffer usually passes.",
     [U + "se_fast.pyx", U + "vt_fast.pyx", U + "sig_fast.pyx", M + "lda_cvb0_fast.pyx", M + "lda_cvb_fast.pyx", M + "lda_gibbs_fast.pyx", M + "dmr_fast.pyx", M + "lda_vb_fast.pyx"],
     [("every def with boundscheck(False)", U + "se_fast.pyx"), ("sample, sumSuffStats", M + "lda_gibbs_fast.pyx"), ("iterate, query", M + "lda_cvb0_fast.pyx")],
     "Sanitizers: AddressSanitizer and UBSan builds and a bounds-checked build of the unmodified native sources under generated workloads; paired runs over differently poisoned memory; allocation counters for leaks",
     "Three builds of the working tree's kernels, each driven by all workloads.")
prop("P16", "Collapsed variational inference keeps its counts balanced",
     "After training or inference by either collapsed variational method every document's expected topic counts add up to its length, the totals per topic agree with the document and word counts they summarise, every token's responsibilities are a distribution, and inference leaves the trained word counts alone. "
     "Each iteration computes the published update from the counts excluding the token, with variances as second-order corrections where the method has them.",
     ["inputs", "configurations", "histories"], "all corpora, priors, numbers of topics and iterations, either precision, training, further training and inference",
     "Tests compare perplexities with loose thresholds, under which wrong or drifting counts go unseen.",
     [M + "lda_cvb0.py", M + "lda_cvb.py", M + "lda_cvb0_fast.pyx", M + "lda_cvb_fast.pyx"], [("train, query", M + "lda_cvb0.py"), ("iterate_f32/f64, query_f32/f64", M + "lda_cvb_fast.pyx")],
     "Runtime monitor: conservation invariants on the state after every step, and a reference implementation of the update in plain Python run beside the native one",
     "Counts balanced after each call; updates compared with the reference one by one.")
prop("P17", "Gibbs samplers sample the posterior they claim to",
     "Over a long run each Gibbs sampler visits assignments as often as the exact posterior of its model gives, and inference for new documents has the exact posterior mean; every sample assigns each token, or each document of a mixture, to exactly one topic. "
     "The distributions reported are the means over the planned samples, and for regression on features the weights' objective is the expected log joint, its gradient is the derivative, and updates improve it.",
     ["inputs", "histories", "configurations"], "all corpora, priors, numbers of topics, sampling plans and seeds",
     "Tests only check that perplexity falls; a biased conditional distribution passes them.",
     [M + "lda_gibbs.py", M + "lda_gibbs_fast.pyx", M + "mom_gibbs.py", M + "dmr.py", M + "dmr_fast.pyx"],
     [("sample", M + "lda_gibbs_fast.pyx"), ("sample_memberships, sample_dirichlet", M + "mom_gibbs.py"), ("train, query, objective, gradient", M + "dmr.py")],
     "Runtime monitor: statistical oracle comparing the chain's visits and long-run means with a posterior computed by enumeration, with the chain's own autocorrelation; token balance after every sweep; finite differences",
     "Chains of some ten thousand sweeps each over tiny corpora whose posterior is enumerated.")
prop("P15", "What the caller passes in is never modified",
     "No operation that is not documented to change its input - fitting, inferring, scoring, splitting, reordering, evaluating rankings or distributions, constructing data sets - changes the caller's data sets, matrices, priors, topic distributions or lists, in whatever storage or element type they were given.",
     ["inputs", "configurations"], "all operations of every kind of model, all components and storage formats, with or without logging",
     "Tests use fresh data for each call, so a caller's array changed behind its back goes unnoticed.",
     [FACADE, M + "common.py", M + "evals.py"], [("fit, transform, score", FACADE), ("DataSet", M + "common.py"), ("mean_*", M + "evals.py")],
     "Runtime monitor: byte hashes of every object handed over, taken before and after each real call",
     "Every argument of each call hashed before and after.")
prop("P18", "Token lists, dictionaries and totals are those of the counts",
     "When word counts are turned into lists of tokens every document yields each of its words exactly as often as it was counted, in its own place, and as many topic assignments as tokens. "
     "Document lengths, totals of words and links, and exported dictionaries (documents, words, and in how many documents each occurs) agree with the counts, for any storage, element type, or size.",
     ["inputs"], "all matrices of counts: empty documents first, last and between, large counts, wide vocabularies, unsorted indices, explicit zeros, all element types",
     "Tests train on lists without counting them back, and never with counts above 255 or vocabularies above 32,767.",
     [M + "lda_cvb0_fast.pyx", M + "lda_cvb_fast.pyx", M + "lda_gibbs_fast.pyx", M + "dmr_fast.pyx", M + "common.py"],
     [("toWordList", M + "lda_cvb0_fast.pyx"), ("flatten", M + "lda_gibbs_fast.pyx"), ("gensim_dictionary, doc_lens, word_count", M + "common.py")],
     "Runtime monitor: conservation oracle counting the tokens back into a matrix",
     "Tokens counted back, cell by cell.")
prop("P20", "What cannot be honoured is refused, leaving model and data intact",
     "Documents of another vocabulary or without words where these are needed, counts which are not counts, priors, topic weights and matrices of the wrong shape, resumption with other documents, scoring by an unknown or unsuitable method, use before training, and impossible numbers of topics are refused with an exception. "
     "They never crash the process, hang, or return made-up answers, and after a refusal the model gives the same answers as before.",
     ["inputs", "histories"], "every kind of model, every such misuse, in any order, on models of any size",
     "Hardly any test passes bad input; the compiled code does no bounds checks, so mistakes read or write memory at random.",
     [FACADE, M + "common.py", U + "sparse_elementwise.py", M + "lda_gibbs.py", M + "dmr.py", M + "lda_cvb0.py", M + "lda_cvb.py", M + "mom_em.py", M + "mom_gibbs.py"],
     [("fit, transform, score", FACADE), ("newQueryState, newModelAtRandom", M + "lda_gibbs.py"), ("DataSet.__init__", M + "common.py")],
     "Runtime monitor with fault injection: misuses driven into trained models, with watchers of refusal, process death, state hashes and later answers",
     "Refusals observed, and the state and answers compared before and after.")


prop("P19", "The variational bound is what it claims to be",
     "For every corpus, prior and number of topics the bound of Dirichlet allocation and of mixtures learnt by variational Bayes equals its definition for the state it is measured on, never exceeds the logarithm of the exact evidence, and is never lowered by training for longer. "
     "The bound which collapsed variational methods report equals its definition too, and measuring a bound changes nothing.",
     ["inputs", "histories"], "all small corpora with exact evidence, all kinds of larger ones, scalar and vector priors, any division of training into runs",
     "No test compares a bound with the evidence; the few that look at it print it, or check that one run on one corpus ends higher than it began.",
     [M + "lda_vb_python.py", M + "mom_em.py", M + "lda_cvb.py", M + "lda_cvb0.py"],
     [("var_bound", M + "lda_vb_python.py"), ("var_bound", M + "mom_em.py"), ("var_bound", M + "lda_cvb.py"), ("log_likelihood_expected", M + "lda_cvb0.py")],
     "Runtime monitor: after every run of training an oracle recomputes the bound from the definition and, on corpora small enough to sum over all assignments, compares it with the exact evidence; an online checker watches it ascend",
     "Numbers of bounds, evidences and ascents observed are in the evidence.")

prop("P21", "Correlated, side-information and link models mean what they report",
     "For the correlated topic models, those with side information on documents and those of links, what is learnt and inferred are probability distributions, and the likelihood is that of these distributions for words and links. "
     "Inference leaves the model alone, does not depend on the order of documents, follows the prior where that outweighs the words, and where it claims to find the most likely weights it ends at them.",
     ["inputs", "configurations"], "every such family that can be trained, all corpus shapes, topic counts, diagonal or full covariances, schedules of reports, sparse or dense features",
     "The tests train each on one or two corpora and look at perplexities by eye; nothing compares likelihoods or answers with a definition.",
     [M + "ctm.py", M + "ctm_bohning.py", M + "ctm_grad_arb.py", M + "mtm3.py", M + "lro_vb.py", M + "stm_yv.py", M + "stm_yv_bohning.py", M + "stm_uv_vecy_bohning.py", M + "dmr.py"],
     [("train, query, log_likelihood, topicDists", M + "ctm_bohning.py"), ("query", M + "stm_yv.py"), ("log_likelihood", M + "mtm3.py")],
     "Runtime monitor: an oracle recomputes distributions, likelihoods and gradients of the posterior of every answer; metamorphic checks of the order of documents and of overwhelming priors; purity by snapshots",
     "Optima are found independently with scipy, and inference observed to stay at them.")

prop("P22", "Link predictors report all that is at least as likely as a real link",
     "For each document whose links are sought, a link predictor reports every real link, at the probability its model defines, and every other document at least as likely as the least likely real link, and nothing else. "
     "The smallest probability reported for a document is that of its least likely link, none if it has none, and rankings computed from the report are those of the table of all pairs.",
     ["inputs"], "all predictors that can be trained, all link matrices (none, few, many, to oneself), any subset of documents, any element type",
     "Tests evaluate one predictor on one data set which is not in the repository.",
     [M + "mtm3.py", M + "lro_vb.py", M + "sim_based_rec.py", M + "evals.py"],
     [("link_probs, min_link_probs", M + "mtm3.py"), ("link_probs, min_link_probs", M + "lro_vb.py"), ("link_probs, min_link_probs", M + "sim_based_rec.py")],
     "Runtime monitor: the dense table of all pairs is recomputed from the definition, and every entry of every report compared with it",
     "Numbers of pairs and links compared are in the evidence.")

prop("P23", "A copy of a model equals it and shares nothing that can change",
     "A copy of a model has all that the model has learnt, and gives the same answers. "
     "Whatever is done later to either of them - further training, inference, overwriting its arrays - leaves the other exactly as it was.",
     ["histories", "configurations"], "every model that can be copied, new or trained, scalar and vector priors, any sequence of operations on either of the two",
     "Sharing only shows when the original is used again after the copy, in an order no test exercises.",
     [M + f for f in ("lda_cvb.py", "lda_cvb0.py", "lda_gibbs.py", "lda_vb_python.py", "mom_em.py", "mom_gibbs.py", "ctm.py", "ctm_bohning.py", "mtm3.py", "lro_vb.py", "stm_yv.py", "stm_yv_bohning.py", "stm_uv_vecy_bohning.py", "dmr.py", "sim_based_rec.py")] + [FACADE],
     [("newModelFromExisting", M + "lda_gibbs.py"), ("newModelFromExisting", M + "lda_vb_python.py"), ("copy", FACADE)],
     "Runtime monitor: every array of one is overwritten and every operation run on it while hashes of the other are watched; addresses of arrays are compared",
     "Probes and steps observed are in the evidence.")

prop("P26", "Numbering carries no meaning",
     "Renumbering documents, words, topics or features renumbers what is learnt and inferred, and changes no likelihood. "
     "The answer for a document does not depend on which others it is asked with.",
     ["inputs"], "the deterministic methods, all corpus shapes, priors, permutations and subsets of documents (with repetitions)",
     "Tests do not train twice; an answer that leaks between documents looks plausible.",
     [M + f for f in ("lda_vb_python.py", "mom_em.py", "lda_cvb.py", "lda_cvb0.py", "ctm.py", "ctm_bohning.py", "ctm_grad_arb.py", "mtm3.py", "stm_yv.py", "stm_yv_bohning.py", "stm_uv_vecy_bohning.py")],
     [("train (sorts documents by length)", M + "stm_yv_bohning.py"), ("query", M + "lda_vb_python.py"), ("train, query", M + "mom_em.py")],
     "Runtime monitor: twin executions from renumbered states, compared array by array; answers for documents alone and together compared",
     "Twins and arrays compared are in the evidence.")

prop("P27", "Reports of progress are passive, and true",
     "Asking for reports of progress, at whatever interval, never changes what is learnt or inferred, except that training may stop early; a run that stopped early has learnt what training without reports for as many iterations as reported learns. "
     "A report lists the planned iterations, once each and in order, each with the likelihood and bound of having trained for as long.",
     ["configurations", "schedules"], "every model and the facade, every interval (also beyond the number of iterations or not dividing it), debugging on and off",
     "Tests use one interval, and do not compare with a silent run.",
     [M + f for f in ("lda_cvb.py", "lda_cvb0.py", "lda_vb_python.py", "lda_gibbs.py", "mom_em.py", "mom_gibbs.py", "ctm.py", "ctm_bohning.py", "ctm_grad_arb.py", "mtm3.py", "lro_vb.py", "stm_yv.py", "stm_yv_bohning.py", "stm_uv_vecy_bohning.py")] + [FACADE, U + "misc.py"],
     [("train", M + "ctm.py"), ("clamp", U + "misc.py"), ("fit", FACADE)],
     "Runtime monitor: twin executions with and without reports from the same state of the random number generators, compared array by array; a checker of reports",
     "Twins, reports and early stops observed are in the evidence.")


prop("P24", "The evaluation program reports on held-out data, truly",
     "For every model, evaluation and number of folds, the scores which the program prints for a fold are those of the model it files for that fold on the data held out from it, and its totals and tables are the sums or averages over the folds, weighted by words or documents. "
     "No fold is lost, every fold is filed once with the order of its documents, and the same command prints the same results again. "
     "Input files are never changed.",
     ["configurations", "inputs"], "every model and evaluation which the program can run, folds 1 to 5, folds cut short, limits on documents, documents too short to keep, links, features and tags",
     "No test of the program runs: those which exist name modules and files which are not there. Scores of a wrong split look plausible.",
     ["sidetopics/run/__main__.py", M + "evals.py", M + "common.py"],
     [("cross_val_and_eval_perplexity, insample_lro_style_prec_rec, link_split_prec_rec, combine_map, soft_split_on_indices, save_model", "sidetopics/run/__main__.py")],
     "Runtime monitor: the program is run on generated files in a scratch directory; its output is parsed and recomputed from the filed models and an independent division of the inputs",
     "Runs, folds, files and scores compared are in the evidence.")

prop("P25", "Tools around the evaluations lose, misplace and garble nothing",
     "A compendium of evaluation results becomes a table with every figure of every result, in its group, cut-off and column, whatever results follow each other and whichever optional figures are missing; the report on a model lists the files of exactly its folds. "
     "Text files of numbers become matrices of the same values, and malformed ones are refused. "
     "Records of papers keep number, year, title, authors and venue, every author gets one number; users selected meet equal shares of the target, and no more than needed.",
     ["inputs"], "every number and order of results, optional parts, directories of models, shapes and formats of numbers, lists of authors, counts of users and targets",
     "None of these tools is run by a test; a figure in the wrong row looks like any other.",
     ["sidetopics/run/" + f for f in ("reshape_results.py", "report_generator.py", "text_to_numpy.py", "selectusers.py", "arxiv_to_aan.py", "arxiv_author_ids.py")],
     [("read_all_results, read_table, write_all_results", "sidetopics/run/reshape_results.py"), ("_generate_report", "sidetopics/run/report_generator.py"), ("select_group_contribs", "sidetopics/run/selectusers.py"), ("read_paper_metadata", "sidetopics/run/arxiv_to_aan.py")],
     "Runtime monitor: the tools are run on generated files in a scratch directory, and all they write is compared with what went into the files",
     "Figures, matrices, records and reports compared are in the evidence.")

prop("P28", "Models wrapped from other libraries learn as there, and score and resume as here",
     "Behind the same interface, models of other libraries learn and infer exactly what those libraries do with the same parameters, seed and documents, however the documents are contained. "
     "Every score is the definition's, whichever way it is asked for, and what they cannot do is refused. "
     "Training carried on in a second call equals training at once, parameters can be read back, and clones learn the same.",
     ["inputs", "configurations", "histories"], "both wrapped models, all containers and types of counts, batch sizes, priors, rates, kinds of scores, orders of calls",
     "Most of their tests fail at creating the model, the others look at one corpus and wide ranges of scores.",
     [FACADE], [("WrappedSckitLda", FACADE), ("WrappedScikitHdp", FACADE)],
     "Runtime monitor: twin executions against the wrapped libraries, scores recomputed from the definition, hashes of inputs and models",
     "Fits, answers, scores and resumed trainings compared are in the evidence.")


prop("P29", "Each iteration of variational learning is the update its method defines",
     "For every corpus, prior and schedule, what an iteration of Dirichlet allocation by variational Bayes learns, from whole corpora or from batches, and of its mixture, is the published update of what was learnt before, and so is inference for other documents. "
     "Correlated and side-information models re-estimate the words of topics from their shares in the documents, and the weights of features by regression on the topics of documents.",
     ["inputs", "configurations", "histories"], "all kinds of corpora and storage, scalar and vector priors, batch sizes below, at and above the number of documents, delays and forgetting rates, resumed training",
     "The tests look at perplexities on one corpus, which a wrong update barely changes, and none compares an update with its definition.",
     [M + "lda_vb_python.py", M + "mom_em.py", M + "ctm.py", M + "ctm_bohning.py", M + "ctm_grad_arb.py", M + "stm_yv.py", M + "stm_uv_vecy_bohning.py"],
     [("train", M + "lda_vb_python.py"), ("_update_topics_at_d", M + "lda_vb_python.py"), ("train", M + "mom_em.py"), ("train", M + "stm_yv.py")],
     "Runtime monitor: a plain re-implementation runs beside the code from the same state, and every parameter is compared after every step",
     "Updates, parameters and inferences compared are in the evidence.")


prop("P30", "What holds of small corpora holds of large ones, up to the documented limits",
     "For every corpus with up to 65535 words or 254 topics, and with documents or numbers of documents as large as memory allows, training and inference account for every token, all distributions stay distributions, and likelihoods, splits, kernels and rankings equal their definitions. "
     "What is inferred of a document, and of rare words, does not depend on the size of the batch it is asked of, nor on its size being beyond that of an internal block. "
     "Sizes beyond what a sampler can store are refused.",
     ["inputs", "configurations"], "254 topics, 65535 words, 300000-token documents, 100000 documents, blocks of 5000 documents, words with a probability of one in 50 million",
     "The tests use one small corpus, far below every narrow integer, block size and resolution inside.",
     [M + "lda_gibbs.py", M + "dmr.py", M + "lda_cvb.py", M + "lda_vb_python.py", M + "mom_em.py", M + "common.py", M + "evals.py", "sidetopics/util/sparse_elementwise.py", "sidetopics/util/vectrans.py"],
     [("query", M + "lda_gibbs.py"), ("objective", M + "dmr.py"), ("newModelAtRandom", M + "lda_gibbs.py"), ("cross_valid_split", M + "common.py")],
     "Runtime monitor: the real code on corpora large in one dimension at a time, every token and cell accounted for, against definitions in vectorised numpy",
     "Tokens, parts and refusals observed are in the evidence.")


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p[0]["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in sorted(P, key=lambda t: t[0]["id"]):
            if p in [c[0] for c in claimed] or p["id"] in NOT_APPLICABLE:
                f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="./setup",
             checks=[dict(property=p["id"], quick_cmd="./run %s --tier quick" % p["id"], thorough_cmd="./run %s --tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n)
                     for p, t, n in sorted(claimed, key=lambda t: t[0]["id"])],
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
             notes="No hooks in /repo: the monitors observe the public Python API, the arrays it returns and the native kernels rebuilt with bounds checks and sanitizers out of tree.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed")


if __name__ == "__main__":
    main()
