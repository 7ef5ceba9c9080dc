#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

L = "src/lib/"; I = "src/include/travatar/"

p("C01", "Parallel decoding gives the sequential output, in order, exactly once",
  "Whatever the number of worker threads and however they are scheduled, the decoder writes for every input line exactly one translation line, in input order, and byte-identical output to a single-threaded run. The same holds for every side output (n-best lists, derivation traces, forests), which never contain a partial, duplicated, missing, interleaved or foreign record.",
  ["schedules", "inputs", "configurations"],
  "all thread counts, thread schedules, per-sentence decoding times, buffering decisions, rule-table/LM/tree-binarization configurations",
  "The unit tests never start the decoder binary or more than one thread.",
  [L+"travatar-runner.cc", L+"output-collector.cc", L+"thread-pool.cc", I+"travatar-runner.h", I+"thread-pool.h", I+"output-collector.h"],
  [("task queue with bounded waiting room", L+"thread-pool.cc"), ("re-ordering output buffer keyed by sentence number", L+"output-collector.cc")],
  ["stdout and side files of the decoder process"])

p("C02", "Concurrent use of shared services is free of data races",
  "When several worker threads decode, tune or evaluate at once, no two of them access the same memory without ordering when one of the accesses is a write: the symbol table, task pool, ordered output, rule tables, binarizers, language models, evaluation caches and tuning state may be shared without undefined behaviour. Every task handed to the pool runs exactly once and completes before the pool reports that it has stopped, without deadlock.",
  ["schedules"],
  "all interleavings of worker threads sharing one process's tables and caches",
  "The tests are single-threaded, so no race can occur in them.",
  [L+"thread-pool.cc", L+"dict.cc", L+"output-collector.cc", L+"binarizer-directional.cc", L+"binarizer.cc", L+"travatar-runner.cc", L+"batch-tune-runner.cc", L+"tune-greedy-mert.cc", L+"tune-mert.cc", L+"tuning-example-forest.cc", L+"eval-measure-bleu.cc"],
  [("mutex-protected symbol set", I+"symbol-set.h"), ("mutex and condition variable", L+"thread-pool.cc"), ("mutex in collector", L+"output-collector.cc")],
  ["ThreadSanitizer reports", "task execution log"])

p("C03", "Symbols and factored phrases survive the id mapping",
  "Within a process every distinct symbol string has exactly one id and every id returns the string it was made from, whichever threads created it and in whatever order. Parsing and printing words, quoted symbols, numbered non-terminals and multi-factor phrases are inverse to each other, so no text is lost, merged or altered on its way through the system.",
  ["schedules", "inputs"],
  "all symbol strings, all histories and interleavings of lookups and insertions",
  "Tests insert a handful of ASCII symbols from one thread.",
  [L+"dict.cc", I+"dict.h", I+"symbol-set.h", L+"cfg-data.cc"],
  [("string to id map plus id to string array", I+"symbol-set.h"), ("quoting and factor parsing", L+"dict.cc")],
  ["return values of id lookup, parsing and printing"])

p("C04", "Tree decoding returns exactly the best derivations the rule table licenses",
  "For a parsed source sentence, the decoder's n-best list without a language model contains exactly the highest-scoring derivations that can be built from the rules whose source side matches the tree (plus the pass-through rules for what no rule covers), in non-increasing score order, each with the translation, feature values and derivation trace that its rules produce. Every reported score equals the weighted sum of the reported features, and the single-best output is the first n-best entry.",
  ["inputs", "configurations"],
  "all source trees and forests, rule tables, weights, n-best sizes, unknown-word, unique-n-best and factor settings",
  "Tests look up a few hand-written rules on one tree; none enumerates the derivations or runs the decoder end to end.",
  [L+"lookup-table.cc", L+"lookup-table-hash.cc", L+"lookup-table-marisa.cc", L+"hyper-graph.cc", L+"travatar-runner.cc", L+"translation-rule.cc", L+"weights.cc"],
  [("matching of rule source sides against tree fragments", L+"lookup-table.cc"), ("lazy k-best extraction", L+"hyper-graph.cc"), ("n-best and trace printing", L+"travatar-runner.cc")],
  ["decoder stdout, n-best file, trace file"])

p("C05", "Rule-table storage back ends are interchangeable",
  "For one rule table, every storage back end usable for a given kind of input (hash map or compressed trie for trees; finite-state matcher or chart with on-the-fly language model for strings) offers the same rules with the same features, so decoding with either yields the same translations and scores. The order and spread of a rule's entries in the table file do not matter.",
  ["inputs", "configurations"],
  "all rule tables (shared prefixes, repeated sources, non-ASCII, many rules per source), all inputs, all permutations of the table",
  "Each back end is tested with its own tiny table; they are never compared with each other.",
  [L+"lookup-table-hash.cc", L+"lookup-table-marisa.cc", L+"lookup-table-fsm.cc", L+"lookup-table-cfglm.cc", L+"rule-fsm.cc"],
  [("source-string keyed map", L+"lookup-table-hash.cc"), ("marisa trie of source strings", L+"lookup-table-marisa.cc"), ("rule trie walked by the chart", L+"rule-fsm.cc")],
  ["n-best output of the decoder under each -tm_storage"])

p("C06", "String decoding with a synchronous grammar covers exactly its derivations",
  "For a plain input sentence and a hierarchical grammar, the decoder's hypotheses are exactly the yields of the synchronous derivations of the grammar (with glue and unknown-word rules) over that sentence, with features and scores equal to those of the derivation, best first. If and only if the grammar cannot derive the sentence, an empty translation is produced.",
  ["inputs", "configurations"],
  "all sentences, hierarchical grammars (arity up to two or more, re-ordering, unary rules, typed non-terminals), weights and n-best sizes",
  "Tests parse two or three sentences with hand-picked rules.",
  [L+"lookup-table-fsm.cc", L+"lookup-table-cfglm.cc", L+"rule-fsm.cc", L+"translation-rule-hiero.cc"],
  [("CYK+ chart walk over the rule trie", L+"lookup-table-fsm.cc"), ("cube pruning chart", L+"lookup-table-cfglm.cc")],
  ["decoder stdout and n-best file"])

p("C07", "Language-model search is exact when nothing is pruned and its scores are true",
  "Every hypothesis scored with language models carries, for each model, exactly the log probability and unknown-word count that the model assigns to the hypothesis's words with sentence boundaries, and a total score equal to the weighted feature sum. When no pruning limit is reached, bottom-up cube pruning and the chart decoder return the true highest-scoring hypothesis over all derivations for any combination of models, orders, factors and weights; with pruning, results are always valid derivations scored the same way.",
  ["inputs", "configurations"],
  "all translation forests, language models (order, number, factor, weights), search algorithms and pop limits",
  "Tests score three or four words with one bigram model.",
  [L+"lm-composer-bu.cc", L+"lm-composer-incremental.cc", L+"lookup-table-cfglm.cc", L+"lm-func.cc", L+"lm-composer.cc"],
  [("language-model state at both edges of each hypothesis", L+"lm-composer-bu.cc"), ("chart state recombination", L+"lm-func.cc"), ("KenLM incremental search", L+"lm-composer-incremental.cc")],
  ["n-best file with features", "independent ARPA evaluation of the printed words"])

p("C08", "Forest algorithms agree with enumeration of all derivations",
  "On any acyclic translation forest, the k-best list is the k highest-scoring distinct derivations in non-increasing order (or distinct translations when uniqueness is asked for), the one-best score is their maximum, and posterior edge probabilities equal the summed derivation probabilities. Re-scoring, copying, appending and path reconstruction preserve the structure, scores, features and yields of the derivations.",
  ["inputs"],
  "all acyclic hypergraphs: node and edge counts, arities, shared sub-forests, ties, dead ends, very large or small scores",
  "Tests use fixed hypergraphs of three or four nodes.",
  [L+"hyper-graph.cc", I+"hyper-graph.h", I+"sparse-map.h", L+"sparse-map.cc"],
  [("lazy k-best with per-node queues", L+"hyper-graph.cc"), ("inside-outside pass", L+"hyper-graph.cc")],
  ["n-best paths, edge scores and normalised posteriors"])

p("C09", "Tree and forest formats carry the same forest",
  "Reading a tree or forest in any supported format and writing it in any format that can express it preserves labels, spans, words, edges, scores and features, so that converting back gives the original structure. Node spans always equal the union of their words' positions.",
  ["inputs"],
  "all trees and packed forests with arbitrary label and word characters, unary chains, shared nodes, scores and features",
  "Tests convert one tree per format.",
  [L+"tree-io.cc", L+"tree-converter-runner.cc", L+"hyper-graph.cc", I+"tree-io.h"],
  [("format readers and writers", L+"tree-io.cc")],
  ["tree-converter output re-read by an independent parser"])

p("C10", "Tree transformations preserve the sentence and the set of trees",
  "Binarization (left, right, chart), unary flattening, trimming, compounding and casing change only what they are meant to change: the word sequence (up to the requested splitting or casing) and, for a forest, the set of derivations with their scores (once helper nodes are collapsed) stay the same. Binarized forests have at most two children per edge, flattened ones no unary chains, and trimmed ones only the derivations within the threshold asked for.",
  ["inputs", "configurations"],
  "all trees and forests, all transformation options and their combinations",
  "Tests transform one six-node tree per option.",
  [L+"binarizer-directional.cc", L+"binarizer-cky.cc", L+"unary-flattener.cc", L+"trimmer.cc", L+"trimmer-nbest.cc", L+"word-splitter.cc", L+"word-splitter-compound.cc", L+"word-splitter-regex.cc", L+"caser.cc", L+"tree-converter-runner.cc"],
  [("helper-node insertion", L+"binarizer-directional.cc"), ("helper-node insertion", L+"binarizer-cky.cc"), ("posterior trimming", L+"trimmer.cc")],
  ["tree-converter output; derivation sets before and after"])

p("C11", "Syntactic rule extraction yields exactly the alignment-consistent rules",
  "From a parsed source, a target sentence and a word alignment, the extractor outputs exactly the minimal rules cut at the admissible nodes, their compositions up to the requested number and the requested attachments of unaligned target words. No rule contradicts the alignment, each rule's target side is the contiguous target material of its source fragment, and the minimal rules' counts add up to one derivation of the pair.",
  ["inputs", "configurations"],
  "all trees, forests, target sentences and alignments, composition and size limits, null-attachment modes",
  "Tests extract from one Japanese-English pair.",
  [L+"forest-extractor.cc", L+"rule-composer.cc", L+"forest-extractor-runner.cc", L+"rule-filter.cc", L+"hyper-graph.cc", L+"alignment.cc"],
  [("frontier computation over spans", L+"hyper-graph.cc"), ("frontier rule expansion", L+"forest-extractor.cc"), ("rule composition", L+"rule-composer.cc")],
  ["forest-extractor stdout"])

p("C12", "Hierarchical rule extraction yields exactly the rules of the phrase pairs",
  "From a sentence pair and word alignment, the hierarchical extractor outputs every rule obtained by taking an alignment-consistent phrase pair (the shortest target span of a source span) within the length limits and replacing at most two sub-phrase pairs, not adjacent in the source, by linked non-terminals, and no others. Every output rule has a terminal on both sides, links only its own aligned terminals, respects the symbol limits, and the fractional counts of the rules of one initial phrase pair are equal and sum to one.",
  ["inputs", "configurations"],
  "all sentence pairs, alignments with gaps and many-to-many links, and length limits",
  "Tests compare one hand-computed sentence pair.",
  [L+"hiero-extractor.cc", L+"hiero-extractor-runner.cc", L+"alignment.cc"],
  [("consistent phrase-pair extraction", L+"hiero-extractor.cc"), ("non-terminal substitution", L+"hiero-extractor.cc")],
  ["hiero-extractor stdout"])

p("C13", "Evaluation scores equal the metrics' definitions",
  "For any reference and hypothesis corpus, the sentence and corpus scores reported for each measure (BLEU and its variants, RIBES, NIST, TER, WER, zero-one, linear and formula interpolations) equal the published definition evaluated on the same words and configuration. Scores are finite numbers for every input including empty sentences, identical sentences get the perfect score, and the file-level score is that of the pooled statistics.",
  ["inputs", "configurations"],
  "all corpora (empty and one-word sentences, repeated words, factored text) and all measure configurations",
  "Tests score about ten fixed sentence pairs.",
  [L+"eval-measure-bleu.cc", L+"eval-measure-ribes.cc", L+"eval-measure-nist.cc", L+"eval-measure-ter.cc", L+"eval-measure-wer.cc", L+"eval-measure-interp.cc", L+"eval-measure-adv-interp.cc", L+"eval-measure-zeroone.cc", L+"math-query.cc", L+"mt-evaluator-runner.cc", "src/tercpp/tercalc.cpp"],
  [("n-gram clipping counts", L+"eval-measure-bleu.cc"), ("context-window word matching", L+"eval-measure-ribes.cc"), ("formula evaluation", L+"math-query.cc")],
  ["mt-evaluator stdout"])

p("C14", "Evaluation statistics form a consistent algebra",
  "Statistics of a corpus are the sum of its sentences' statistics in any order and grouping; scaling and weighted addition act like multiplication and addition on every measure, including combined measures; and cloned, cached or written-and-reread statistics are equal to the originals. Bootstrap significance counts are consistent with the scores of the compared systems.",
  ["inputs", "histories"],
  "all sequences of statistics operations over all measures, magnitudes and cache histories",
  "Tests add two statistics objects of one measure.",
  [L+"eval-measure.cc", I+"eval-measure.h", L+"eval-measure-interp.cc", L+"eval-measure-adv-interp.cc", L+"eval-measure-bleu.cc", L+"mt-evaluator-runner.cc"],
  [("component-wise statistics vectors", L+"eval-measure.cc"), ("n-gram cache", L+"eval-measure-bleu.cc")],
  ["scores and statistics values after each operation"])

p("C15", "Minimum-error-rate tuning finds the true optimum of each line search",
  "For any set of n-best lists or forests, start weights, direction and permitted range, the line search returns a step whose score on the tuning set equals the maximum over all steps in the range, never worse than not moving, and the score it reports is the score the moved weights actually achieve. Tuning runs never return weights scoring worse than their start, and a weight that starts inside its permitted range stays inside.",
  ["inputs", "configurations"],
  "all n-best lists and forests, measures, directions and ranges",
  "Tests run one line search on two hypotheses.",
  [L+"tune-mert.cc", L+"tune-greedy-mert.cc", L+"mert-geometry.cc", L+"tuning-example-nbest.cc", L+"tuning-example-forest.cc", L+"batch-tune-runner.cc"],
  [("upper envelope of hypothesis lines", L+"mert-geometry.cc"), ("statistics delta sweep", L+"tune-mert.cc")],
  ["line-search results and final weights of batch-tune"])

p("C16", "Gradient-based tuning optimises the objective it reports",
  "The expected-score objective and its gradient computed from n-best lists agree: the gradient equals the derivative of the objective for every weight, measure, regulariser and scale. Tuning by gradient never ends at weights whose objective is worse than at the start, and optimising a smooth convex function converges to its minimum.",
  ["inputs", "configurations"],
  "all n-best lists, weights, measures with expected statistics, regularisation settings and convex objectives",
  "Tests compare the gradient on two fixed lists at one or two points.",
  [L+"gradient-xeval.cc", L+"gradient.cc", L+"tune-lbfgs.cc", "src/liblbfgs/lbfgs.c", I+"softmax.h"],
  [("expected statistics and their derivatives", L+"gradient-xeval.cc"), ("limited-memory quasi-Newton iteration", "src/liblbfgs/lbfgs.c")],
  ["objective and gradient values at probed points; final weights"])

p("C17", "Online weight updates follow their update rules",
  "After any sequence of updates, the perceptron, averaged perceptron and adaptive-gradient learners hold exactly the weights defined by their update rule, regularisation and margin over that sequence, whether or not weights were read in between, and averaging uses every step. Pairwise updates only move weights towards the better-scoring hypothesis and leave weights unchanged when no pair violates the margin.",
  ["histories", "inputs"],
  "all sequences of updates and reads, feature vectors, rates and regularisation strengths",
  "Tests perform three updates on one feature.",
  [L+"weights-perceptron.cc", L+"weights-average-perceptron.cc", L+"weights-adagrad.cc", L+"weights-pairwise.cc", L+"weights.cc", L+"tune-online.cc"],
  [("lazy regularisation with last-update bookkeeping", L+"weights-perceptron.cc"), ("running average", L+"weights-average-perceptron.cc")],
  ["current and final weights after each step"])

p("C18", "Sparse feature vectors obey vector-space laws",
  "Feature vectors and feature maps behave as vectors indexed by feature name: construction from any list of pairs, addition, subtraction, scaling, element-wise product, inner product, printing and parsing give the mathematically defined result for every operand, independent of insertion order, with absent features equal to zero.",
  ["inputs", "histories"],
  "all operand pairs (duplicate, disjoint, overlapping, zero and negative entries) and operation sequences",
  "Tests use two fixed three-element vectors.",
  [L+"sparse-map.cc", I+"sparse-map.h", L+"dict.cc"],
  [("sorted pair merging", L+"sparse-map.cc")],
  ["element values after each operation"])

p("C19", "N-gram language models answer queries as defined by their model file",
  "For any well-formed ARPA model, order and query history, the probability, matched length and back-off behaviour reported for each word equal the back-off definition applied to the file, for every in-memory representation, and after conversion to and reload from a binary file. Scoring a sentence piecewise, by left and right state combination, gives the same total as scoring it word by word.",
  ["inputs", "histories", "configurations"],
  "all ARPA models, word sequences incl. unknown words, context states, data structures and split points",
  "Library tests use one fixed five-gram file; several are not runnable here.",
  ["src/kenlm/lm/model.cc", "src/kenlm/lm/search_hashed.cc", "src/kenlm/lm/search_trie.cc", "src/kenlm/lm/trie.cc", "src/kenlm/lm/trie_sort.cc", "src/kenlm/lm/vocab.cc", "src/kenlm/lm/read_arpa.cc", "src/kenlm/lm/left.hh", "src/kenlm/lm/value_build.cc", "src/kenlm/lm/binary_format.cc", "src/kenlm/util/probing_hash_table.hh", "src/kenlm/util/bit_packing.hh"],
  [("hashed and sorted n-gram search", "src/kenlm/lm/search_hashed.cc"), ("trie search", "src/kenlm/lm/search_trie.cc"), ("chart rule scoring", "src/kenlm/lm/left.hh")],
  ["full-score return values"])

p("C20", "The compressed string trie is a faithful dictionary",
  "A trie built from any set of keys finds exactly those keys, maps distinct keys to distinct dense ids and back, enumerates exactly the keys that are prefixes of, or extend, a query, and behaves identically after being saved and reloaded, for every build option.",
  ["inputs", "configurations"],
  "all key sets (duplicates, empty keys, binary bytes, shared prefixes), queries and build options",
  "The tests only reach the trie through one rule table of a few entries.",
  ["src/marisa/marisa/grimoire/trie/louds-trie.cc", "src/marisa/marisa/grimoire/trie/tail.cc", "src/marisa/marisa/grimoire/vector/bit-vector.cc", "src/marisa/marisa/trie.cc", "src/marisa/marisa/keyset.cc"],
  [("succinct louds trie with tail storage", "src/marisa/marisa/grimoire/trie/louds-trie.cc")],
  ["lookup, reverse-lookup, prefix and predictive search results"])

p("C21", "Tokenizing, segmenting and recasing keep the text",
  "Tokenization splits text deterministically without dropping, adding or re-ordering any character beyond its documented symbol substitutions; re-segmentation of a translation against references outputs the same words cut into exactly as many lines as there are references with the best total score; and casing operations change letter case only, following the most frequent casing seen in training.",
  ["inputs", "configurations"],
  "all text lines, reference segmentations, measures, window sizes, training corpora and casing modes",
  "Tests tokenize five sentences and case one; segmenter and case trainer have none.",
  [L+"tokenizer-penn.cc", L+"tokenizer.cc", L+"tokenizer-runner.cc", L+"mt-segmenter-runner.cc", L+"train-caser-runner.cc", L+"caser.cc"],
  [("regular-expression rewriting", L+"tokenizer-penn.cc"), ("dynamic programme over cut points", L+"mt-segmenter-runner.cc"), ("case counting", L+"train-caser-runner.cc")],
  ["stdout of tokenizer, mt-segmenter, train-caser, tree-converter"])

p("C22", "N-best rescoring outputs the re-ranked list",
  "Rescoring an n-best file outputs, for every sentence in order, exactly its hypotheses, each once, sorted by the new score: the weighted sum of its features under the given weights, or its expected similarity to the list's distribution for minimum-risk re-ranking. Words and features are carried through unchanged.",
  ["inputs", "configurations"],
  "all n-best files, weights, scales and measures",
  "The rescorer has no tests.",
  [L+"rescorer-runner.cc", L+"weights.cc", L+"sparse-map.cc"],
  [("weight application and sorting", L+"rescorer-runner.cc")],
  ["rescorer stdout"])

p("C23", "No input makes a reader corrupt memory or execute undefined behaviour",
  "Whatever bytes the command-line tools are given as sentences, trees, forests, alignments, rule tables, n-best lists, weights, measure strings or configuration, they either process them or stop with a diagnosed error; they never read or write outside their objects, use freed memory, overflow, or hang.",
  ["inputs"],
  "all byte strings in every input position, in particular truncated, over-long, unbalanced, empty and out-of-range ones",
  "Tests feed only well-formed input, built without sanitizers.",
  [L+"tree-io.cc", L+"alignment.cc", L+"dict.cc", L+"lookup-table.cc", L+"lookup-table-hash.cc", L+"lookup-table-marisa.cc", L+"rule-fsm.cc", L+"batch-tune-runner.cc", L+"rescorer-runner.cc", L+"math-query.cc", L+"config-base.cc", L+"forest-extractor.cc", L+"hiero-extractor.cc", L+"mt-evaluator-runner.cc", L+"mt-segmenter-runner.cc", L+"sparse-map.cc", "src/kenlm/lm/read_arpa.cc"],
  [("explicit format checks raising errors", L+"tree-io.cc"), ("index checks", L+"alignment.cc")],
  ["exit status and AddressSanitizer/UndefinedBehaviorSanitizer reports of each tool"])

p("C24", "The training scripts keep the probability model consistent",
  "Alignment symmetrization yields a set between the intersection and the union of the two directional alignments as its heuristic defines; lexical and rule probabilities are the relative frequencies of the extracted events and sum to one for every condition; reversing, combining and filtering rule tables keeps each surviving rule's sides, counts, features and alignments in correspondence.",
  ["inputs", "configurations"],
  "all alignment pairs, extracted rule lists, thresholds and table pairs",
  "No script is exercised by any test.",
  ["script/train/symmetrize.pl", "script/train/align2lex.pl", "script/train/score-t2s.pl", "script/train/reverse-rt.pl", "script/train/combine-rt.pl", "script/train/filter-rt.pl", "script/train/filter-model.pl", "script/train/clean-corpus.pl"],
  [("symmetrization heuristics", "script/train/symmetrize.pl"), ("relative-frequency estimation", "script/train/score-t2s.pl")],
  ["stdout of each script"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
