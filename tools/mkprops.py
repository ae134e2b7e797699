"""Writes /verif/properties.jsonl (kept as a program only because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

H = "soynlp/hangle/_hangle.py"; HD = "soynlp/hangle/_distance.py"
N = "soynlp/normalizer/_normalizer.py"; TN = "soynlp/tokenizer/_normalizer.py"
T = "soynlp/tokenizer/_tokenizer.py"; NT = "soynlp/tokenizer/_noun_tokenizer.py"
U = "soynlp/utils/utils.py"; W = "soynlp/word/_word.py"; PM = "soynlp/word/_pmi.py"; PH = "soynlp/word/_phrase.py"
V = "soynlp/vectorizer/_vectorizer.py"; WC = "soynlp/vectorizer/_word_context.py"
PT = "soynlp/postagger/"; L = "soynlp/lemmatizer/"; PR = "soynlp/predicator/"; NN = "soynlp/noun/"

p("C01", "Hangul composition and decomposition are exact inverses",
  "For every Hangul syllable, composing the (initial, vowel, final) triple obtained by decomposing it gives the syllable back, and for every legal triple decomposing the composed syllable gives the triple back, with a blank standing for an absent final. A lone consonant or vowel letter decomposes to itself with blanks in the other positions, and every other character decomposes to None. The character tests (Korean, complete syllable, consonant, vowel, digit, Latin letter, punctuation) are true exactly on their documented character ranges.",
  ["inputs"], "every Unicode code point and every (initial, vowel, final) triple",
  "hangle_test checks one word; the guarantee covers 11,172 syllables, 51 letters and every other code point.",
  [H], [("compose", H + ":compose"), ("decompose", H + ":decompose"), ("character classes", H + ":character_is_*")])
p("C02", "Convolution Hangul encoding round-trips the normalised text",
  "Encoding a sentence as Hangul component indices and decoding it again gives the sentence with every character outside Hangul, digits and space replaced by a blank and runs of blanks collapsed and trimmed. The matrix form has one row per remaining character, 80 columns, and ones exactly at the indices of the index form. Indices always lie in the documented segment of the vector for their kind (initial, vowel, final, digit, space).",
  ["inputs"], "every sentence (bounded length) over all Unicode characters",
  "No stable test encodes text; the index arithmetic has one case per syllable, letter and digit.",
  [H], [("encode", H + ":ConvolutionHangleEncoder.encode"), ("sent_to_onehot", H + ":ConvolutionHangleEncoder.sent_to_onehot"), ("onehot_to_sent", H + ":ConvolutionHangleEncoder.onehot_to_sent")])
p("C03", "Edit distance is the minimum edit cost and symmetric",
  "The Levenshtein distance of two strings equals the cheapest sequence of insertions, deletions (cost 1) and substitutions (cost 1, or the cost the caller supplied for that ordered pair of characters), whichever of the two strings is longer. With no custom costs it is symmetric, zero exactly for equal strings, at least the length difference, at most the longer length, and satisfies the triangle inequality.",
  ["inputs", "configurations"], "every pair/triple of strings (bounded length) and every table of substitution costs",
  "hangle_test compares three fixed pairs; argument order, repeated characters and custom costs are not sampled.",
  [HD], [("levenshtein", HD + ":levenshtein")])
p("C04", "Jamo edit distance, cosine and Jaccard distances are well behaved",
  "The jamo-level distance equals the cheapest edit script in which substituting two Korean characters costs one third of the number of differing components (and 1 when either is not Korean); it is symmetric, zero exactly for equal strings, and never exceeds the plain edit distance. For non-empty strings Jaccard distance equals one minus intersection over union of the character sets, and cosine distance is one minus the cosine of the character-count vectors; both are symmetric, in range, and zero on equal inputs.",
  ["inputs"], "every pair of strings (bounded length)",
  "hangle_test prints or compares a few fixed pairs only.",
  [HD], [("jamo_levenshtein", HD + ":jamo_levenshtein"), ("cosine_distance", HD + ":cosine_distance"), ("jaccard_distance", HD + ":jaccard_distance")])
p("C05", "Text filters keep exactly the allowed characters",
  "Each text filter (Hangul only; Hangul and digits; text; the flagged normaliser; the legacy normaliser) outputs exactly the input's allowed characters in their original order, with every maximal stretch of disallowed characters or white space between two kept characters turned into one blank and nothing at either end. The filters are idempotent, and enabling a flag only ever admits more characters. The eojeol trimmer cuts right after the last Hangul character, and the sentence preparation for L-R graphs applies it to every eojeol and drops those with no Hangul.",
  ["inputs", "configurations"], "every document (bounded length) over all Unicode characters and every flag setting",
  "normalizer_test prints a few sentences; the regex classes quantify over every character.",
  [N, H], [("only_hangle/only_hangle_number/only_text", N + ":only_*"), ("normalize", N + ":normalize"), ("legacy normalize", H + ":normalize"), ("remain_hangle_on_last", N + ":remain_hangle_on_last"), ("normalize_sent_for_lrgraph", N + ":normalize_sent_for_lrgraph")])
p("C06", "Repeat and emoticon normalisation loses nothing but repeats",
  "Repeat normalisation turns every run of three or more equal word characters into the requested number of copies (up to three) and changes nothing else apart from collapsing and trimming white space. Emoticon normalisation may split a syllable next to a lone jamo into its own letters and shorten repeats, but never drops, adds or reorders letters in any other way. With zero repeats requested no run is shortened.",
  ["inputs", "configurations"], "every sentence (bounded length) and every requested repeat count",
  "normalizer_test prints four sentences; the branches depend on the jamo of neighbouring syllables.",
  [N], [("repeat_normalize", N + ":repeat_normalize"), ("emoticon_normalize", N + ":emoticon_normalize")])
p("C07", "Tokenizer-side normaliser preserves letters and collapses repeats",
  "The tokenizer package's sentence normaliser works token by token: it keeps the number and order of tokens, may decompose a syllable into its own letters next to a lone jamo, and shortens only units of one to four word characters that repeat four or more times, down to the requested number of copies. It raises no error on any input.",
  ["inputs", "configurations"], "every sentence (bounded length) and repeat count",
  "No stable test calls it.",
  [TN], [("normalize", TN + ":normalize"), ("_normalize_emoji", TN + ":_normalize_emoji"), ("_remove_repeat", TN + ":_remove_repeat")])
p("C08", "L-tokenizer cuts every eojeol at the best left part",
  "The L-tokenizer turns every blank-separated eojeol into a left part and a right part whose concatenation is the eojeol. The left part is the dictionary's best scoring prefix of two or more characters (longest on ties; eojeols of two or fewer characters are left whole), and with a tolerance it is the longest prefix whose score lies within the tolerance of the best. Flattening, right-part removal and the default score for unknown prefixes act as documented.",
  ["inputs", "configurations"], "every sentence, score dictionary, tolerance, default score and flag setting (bounded sizes)",
  "tokenizer_test uses three-word dictionaries on one sentence.",
  [T], [("LTokenizer.tokenize", T + ":LTokenizer.tokenize")])
p("C09", "Max-score tokenizer is lossless and picks best words first",
  "The max-score tokenizer splits every eojeol into tokens whose concatenation is the eojeol, with contiguous offsets, correct lengths, and each token's own dictionary score (the default score if unknown). The selected words are those of the best-first rule: highest score, then longest, then leftmost, among spans of at least two characters and at most the maximum length not overlapping an already selected word. This holds for eojeols of any length.",
  ["inputs", "configurations"], "every sentence, score dictionary, maximum length and default score (bounded sizes)",
  "tokenizer_test uses a three-word dictionary on one sentence without blanks.",
  [T], [("MaxScoreTokenizer", T + ":MaxScoreTokenizer")])
p("C10", "Regex tokenizer is lossless and splits at character-type changes",
  "The regex tokenizer's tokens, concatenated, are the sentence without white space, and no token spans two eojeols or is empty. A token never mixes complete Hangul syllables, lone consonants, lone vowels and Latin letters with one another, and maximal stretches of syllables, consonants or vowels are not cut inside.",
  ["inputs"], "every sentence (bounded length) over all Unicode characters",
  "tokenizer_test checks one sentence.",
  [T], [("RegexTokenizer", T + ":RegexTokenizer")])
p("C11", "Max L-R score tokenizer is lossless and tags by dictionary",
  "The max L-R tokenizer's output words, concatenated, are the sentence without white space, in order and without duplicates. Every word carries an L or R tag; an R word is in the R dictionary, and a word in neither dictionary is tagged L.",
  ["inputs", "configurations"], "every sentence and L/R dictionaries, scores and preferences (bounded sizes)",
  "No stable test uses it; failures need R words at eojeol ends or gaps.",
  [T], [("MaxLRScoreTokenizer", T + ":MaxLRScoreTokenizer")])
p("C12", "Noun tokenizers output exactly dictionary nouns found in the text",
  "The left-match noun tokenizer reports, per eojeol, the chain of dictionary nouns that starts at its beginning, each the longest noun at its position, joined into one compound or listed one by one, and nothing when no prefix is a noun. The match noun tokenizer reports the words of positive score that the max-score rule selects in the eojeol, at non-overlapping positions in order; with compound joining, adjacent nouns are joined and separated ones never are, and no empty noun is reported.",
  ["inputs", "configurations"], "every sentence, noun dictionary and option setting (bounded sizes)",
  "No stable test uses them.",
  [NT], [("NounLMatchTokenizer", NT + ":NounLMatchTokenizer"), ("NounMatchTokenizer", NT + ":NounMatchTokenizer")])
p("C13", "Part-of-speech taggers are lossless and tag from the dictionary",
  "For every sentence, the words of the tagger's output, concatenated, are the sentence without white space, in order, with no character lost or duplicated. Every tagged word is in the dictionary under that tag; the rest carry the unknown tag or none. Flattening does not change the words.",
  ["inputs", "configurations"], "every sentence and tag dictionary (bounded sizes)",
  "pos_tagger_test checks one sentence with one dictionary.",
  [PT + "_tagger.py", PT + "_template.py", PT + "_evaluator.py", PT + "_lrtagger.py"],
  [("SimpleTagger", PT + "_tagger.py:SimpleTagger"), ("templates", PT + "_template.py"), ("evaluators", PT + "_evaluator.py"), ("LRMaxScoreTagger", PT + "_lrtagger.py")])
p("C14", "Tag dictionary reflects its edit history and never edits the caller's data",
  "After any sequence of additions and removals (of one word or of a collection) the dictionary answers membership of a word under a tag exactly as the history dictates, lists all tags of a word, and reports a maximum word length no shorter than any word it holds, so that lookups by length miss no word. Adding under an unknown tag is refused unless forced. Saving and loading reproduces the same tag-to-words mapping.",
  ["histories", "inputs"], "every sequence of operations and words (bounded)",
  "pos_tagger_test only constructs a dictionary and looks up one word.",
  [PT + "_dictionary.py"], [("Dictionary", PT + "_dictionary.py:Dictionary")])
p("C15", "L-R graph keeps both directions consistent through any edit history",
  "Building the graph from sentences counts every split of every eojeol within the length limits exactly once per occurrence. After any sequence of pair or eojeol additions and removals, the L-to-R and R-to-L sides describe the same positive counts, a removal undoes an addition, and no empty or non-positive entries remain. Resetting restores the original graph regardless of edits, top-k queries return the k largest counts in order, and save/load round-trips.",
  ["histories", "inputs", "configurations"], "every sentence list and operation sequence (bounded)",
  "No stable test builds or edits an LRGraph and compares the result.",
  [U], [("LRGraph", U + ":LRGraph")])
p("C16", "Eojeol counter counts exactly, and covers, converts and persists losslessly",
  "The counter holds, for every eojeol no longer than the limit, its number of occurrences if at least the minimum count, after the caller's preprocessing. Removing covered eojeols removes exactly those and sets coverage to the covered fraction of the initial total, always within [0, 1]. Conversion to an L-R graph places each eojeol's count on each of its splits within limits (optionally skipping one-syllable eojeols), converting back recovers the counts, and save/load round-trips.",
  ["inputs", "histories", "configurations"], "every sentence list, limit and cover set (bounded)",
  "No stable test compares counts.",
  [U], [("EojeolCounter", U + ":EojeolCounter"), ("to_EojeolCounter", U + ":LRGraph.to_EojeolCounter")])
p("C17", "Corpus length equals what iteration yields, within the limits",
  "Iterating a corpus file yields its documents (or the non-empty double-space separated sentences, in order and stripped), skipping the header lines and stopping exactly at the requested number of documents or sentences. The reported length equals the number of items iteration yields, and iterating again yields the same items.",
  ["inputs", "configurations"], "every file content (bounded), and document/sentence limit, header and mode setting",
  "The tests iterate one sample file with one setting.",
  [U], [("DoublespaceLineCorpus", U + ":DoublespaceLineCorpus")])
p("C18", "Word statistics equal substring counts; cohesion is a valid probability root",
  "After training, the left (right) frequency of a substring equals the number of multi-character eojeols starting with it (ending with it and longer than it), for substrings within that side's length limit that reach the minimum frequency, and cumulative training equals training on all the sentences at once when nothing is pruned. The cohesion of a word equals the (n-1)-th root of its frequency over its first (last) character's frequency, lies in [0, 1], is zero for unseen words, and is the same from the single-word and the all-words interfaces.",
  ["inputs", "configurations", "histories"], "every corpus (bounded), length limit and minimum frequency",
  "word_test prints scores for one corpus.",
  [W], [("train", W + ":WordExtractor.train"), ("cohesion", W + ":WordExtractor.cohesion_score"), ("all_cohesion_scores", W + ":WordExtractor.all_cohesion_scores")])
p("C19", "Branching entropy and accessor variety equal their definitions",
  "A word's accessor variety on each side is the number of distinct neighbouring characters recorded for it by training, a neighbour inside an eojeol and the same character across a blank being told apart, and its branching entropy is the entropy of their frequencies. The all-words and the single-word interfaces agree on every word within both length limits, and both are non-negative and zero where nothing follows or precedes.",
  ["inputs", "configurations"], "every corpus (bounded) and length limit",
  "word_test prints scores for one corpus; the two interfaces are never compared.",
  [W], [("all_branching_entropy", W + ":WordExtractor.all_branching_entropy"), ("branching_entropy", W + ":WordExtractor.branching_entropy"), ("accessor_variety", W + ":WordExtractor.accessor_variety")])
p("C20", "Word extraction returns exactly the words passing every threshold",
  "Extraction returns exactly those known words whose entropies, varieties and frequency reach every configured minimum and, for words of two or more characters, whose cohesions do too, each with its own scores; with subword removal on, a word is dropped only if its one-character-longer extension was also extracted with a frequency ratio above the limit. Saving and loading a trained extractor reproduces the same configuration, counts and results.",
  ["inputs", "configurations"], "every score table, threshold setting and count table (bounded)",
  "word_test prints the result for one corpus and one configuration.",
  [W], [("extract", W + ":WordExtractor.extract"), ("save/load", W + ":WordExtractor.save"), ("word_scores", W + ":WordExtractor.word_scores")])
p("C21", "Vectorizer vocabulary honours the frequency limits and is a bijection",
  "The fitted vocabulary holds exactly the terms whose total frequency and document frequency lie within the configured limits, numbered 0..n-1 without gaps by decreasing frequency, and the index-to-term and term-to-index maps are inverse. Decoding an encoded document gives its in-vocabulary tokens in order (list form) or with their counts (bag form); unknown terms and out-of-range indices are ignored, and save/load reproduces the vocabulary.",
  ["inputs", "configurations"], "every document collection and limit setting (bounded)",
  "vectorizer_test prints results for one corpus.",
  [V], [("fit", V + ":BaseVectorizer.fit"), ("encode/decode", V + ":BaseVectorizer.encode_a_doc_to_list"), ("save/load", V + ":BaseVectorizer.save")])
p("C22", "Matrix, bag-of-words and file forms of a document collection agree",
  "The document-term matrix has one row per document and one column per vocabulary term, and each cell is the number of times the term occurs in the document. The Matrix Market file written for the same documents declares the right dimensions and number of entries and holds exactly the same cells with one-based indices, and the bag-of-words form of each document equals its row.",
  ["inputs", "configurations"], "every document collection and vocabulary (bounded)",
  "vectorizer_test writes one file and compares nothing.",
  [V], [("transform", V + ":BaseVectorizer.transform"), ("to_file", V + ":BaseVectorizer.to_file")])
p("C23", "Word-context matrix holds exact windowed co-occurrence counts",
  "Cell (i, j) of the word-context matrix is the number (or total distance weight) of co-occurrences of words i and j within the window, over vocabulary words reaching the minimum frequency; it is symmetric with shape vocabulary by vocabulary. The returned vocabulary lists exactly the words reaching the minimum frequency, in decreasing frequency.",
  ["inputs", "configurations"], "every sentence list, window, minimum frequency and weighting (bounded)",
  "pmi_test prints results for one corpus.",
  [WC], [("sent_to_word_contexts_matrix", WC + ":sent_to_word_contexts_matrix"), ("_word_context", WC + ":_word_context"), ("_encode_as_matrix", WC + ":_encode_as_matrix")])
p("C24", "PMI matrix equals its definition on every stored cell",
  "Each cell of the PMI matrix equals the logarithm of the joint probability over the product of the (optionally smoothed) marginals, kept exactly where it reaches the minimum PMI and the count is non-zero; the marginals returned are those of the count matrix (a given column distribution is used as it is). The memory-friendly form gives the same cells. Words with zero marginals cause no error and no cells.",
  ["inputs", "configurations"], "every count matrix and threshold/smoothing setting (bounded)",
  "pmi_test prints results for one corpus.",
  [PM], [("pmi", PM + ":pmi")])
p("C25", "Bigram extractor counts and selects phrases exactly",
  "The phrase extractor's bigram counts equal the number of adjacent pairs of tokens in the corpus, for exactly the pairs reaching the minimum count (with filtering in between, never more than the true count), and its scores equal their formula: frequency, pointwise mutual information, or discounted co-occurrence, over the kept pairs. Selection returns exactly the pairs reaching the threshold or, when a number is requested, the highest of them, in decreasing order.",
  ["inputs", "configurations"], "every sentence list and option setting (bounded)",
  "No stable test uses it.",
  [PH], [("Bigram", PH + ":BigramExtractor")])
p("C26", "Conjugation keeps the stem's beginning and the ending's end",
  "Conjugating any stem of Korean syllables with any ending (of syllables, the first of which may be a bare closing consonant: ㄴ ㄹ ㅁ ㅂ ㅆ, with conjugate_chat any emotive consonant) yields a non-empty set of surface forms, exactly those of the regular and irregular classes the documentation lists. Every surface form keeps all of the stem's syllables but the last, unchanged, in front (but that 르 closes the syllable before it with ㄹ) and all of the ending's syllables but the first, unchanged, at the end, and consists of well-formed Hangul; the plain concatenation is among them where no class applies. With vowel harmony enforced, no form joins a bright-vowel stem with a dark vowel ending or the reverse.",
  ["inputs", "configurations"], "every stem and ending (bounded length) over all syllables",
  "lemmatizer_test prints a few pairs.",
  [L + "_conjugation.py"], [("conjugate", L + "_conjugation.py:conjugate")])
p("C27", "Lemmatizer only proposes dictionary stems and endings that regenerate the word",
  "Every (stem, ending) analysis the lemmatizer returns has its stem and its ending in the given dictionaries (only its stem when asked), and conjugates back to the analysed word; every analysis of a split of the word that the dictionaries have is returned. Conversely every word a dictionary stem and ending form by regular conjugation, by a closing-consonant ending, or by a ㄷ, 르, ㅂ, ㅅ, 우, 오, ㅡ, 하, ㅎ or 이 contraction is recovered with that stem and ending.",
  ["inputs", "configurations"], "every word and stem/ending dictionaries (bounded length)",
  "lemmatizer_test prints a few words.",
  [L + "_lemmatizer.py"], [("Lemmatizer.lemmatize", L + "_lemmatizer.py:Lemmatizer"), ("lemma_candidate", L + "_lemmatizer.py:lemma_candidate")])
p("C28", "Predicator, stem and ending extraction never invents words",
  "Every extracted predicate is an eojeol of the corpus that reaches the minimum counts, is not a noun and a particle, and is a surface form of each of its lemmas, whose stem and ending are given or extracted; its frequency is its count, and it is listed as a verb or an adjective by the dictionary its stem is in. Every eojeol with such a lemma is extracted, but where its ending is noun-like (at most two syllables and mostly on nouns). Extracted endings and stems reach the configured scores, frequencies and feature counts, their scores are those of the left and right parts they are seen with (positive minus negative over both), their frequencies those of their analyses in the corpus, and extraction leaves the graph as it was. While predicates are extracted, eojeols of one syllable and those that begin with a noun of two or more give no evidence for new endings and stems.",
  ["inputs", "configurations"], "every L-R graph and dictionaries (bounded)",
  "No stable test uses it.",
  [PR + "_predicator.py", PR + "_stem.py", PR + "_eomi.py"], [("PredicatorExtractor", PR + "_predicator.py"), ("StemExtractor", PR + "_stem.py"), ("EomiExtractor", PR + "_eomi.py")])
p("C29", "Noun extraction (v2) reports only nouns above the thresholds, with true counts",
  "Every noun the second-generation extractor reports has frequency and score at least the configured minima and occurs in the corpus as the left part of eojeols (or is a compound of reported nouns, counted as often as it occurs, alone or with a particle), and every such word is reported that post-processing does not drop: a noun joined with a longer feature, a feature, a rarer noun and a particle. Scores lie in [-1, 1] and follow from the positive, negative and common features among the right parts (read from the feature files; those in both are common). Predicting a word changes nothing, extraction leaves the training graph as it was or, when asked, without the eojeols of nouns, and extracting again gives the same nouns. Domain features reach all their minima. Sentences are normalized unless they are said to be.",
  ["inputs", "configurations", "histories"], "every L-R graph, feature set and threshold setting (bounded)",
  "noun_test prints results for one corpus.",
  [NN + "_noun_ver2.py", NN + "_noun_postprocessing.py", NN + "_josa.py"], [("LRNounExtractor_v2", NN + "_noun_ver2.py"), ("extract_domain_pos_features", NN + "_josa.py:extract_domain_pos_features")])
p("C30", "Noun extraction (v1) scores are feature averages and thresholds are honoured",
  "Every noun the first-generation extractor reports scores at least the requested minimum and occurs at least the requested number of times as a left part, and every such word is reported but a noun and a particle of falling cohesion. Its score is the frequency-weighted mean of the coefficients of its known right parts (those no longer known right part reaches beyond) or, when too few are seen, that of the compound it is (two nouns, or a noun and a known right part), its known-feature ratio is the fraction of right-part occurrences that are known, and its frequency counts the eojeols that begin with it and no longer noun. Coefficients are the largest in the files read, and extraction leaves the graph as it was.",
  ["inputs", "configurations"], "every corpus, coefficient table and threshold setting (bounded)",
  "noun_test prints results for one corpus.",
  [NN + "_noun_ver1.py"], [("LRNounExtractor", NN + "_noun_ver1.py:LRNounExtractor")])
p("C31", "Part-of-speech extraction accounts for every eojeol, with true counts",
  "From its dictionaries (nouns, adjectives and verbs with their lemmas, stems, endings, particles, adverbs) and the counts of the corpus's eojeols, the part-of-speech extractor recognizes, in this order: eojeols that are nouns, adjectives, verbs or adverbs; a noun of two or more syllables that occurs by itself (the shortest) joined with a particle, or with an adjective or verb that occurs by itself; a predicate joined with an adjective or verb, which makes a new stem, unless that stem is known or would contract with its ending; forms of a known stem and ending, at the latest split that has any; one syllable before an adjective, verb or particle already in use; and (news only) sequences of nouns, with or without a closing word in use. The frequency of a word is the total count of the eojeols it was recognized in; a predicate's lemmas are given, or made of its parts, or known stems and endings that conjugate to it; new stems are reported with the others. Of the rest, particles, endings and single syllables are dropped and exactly the others are reported as irrecognizable, with their counts. A noun that is also an adjective, verb or adverb (or, in the conversational extractor, ends in a word in use) is reported as confused and not as a noun. The conversational extractor also rejects new stems followed by bare consonants nine times in ten, and endings that more new compounds have than other words. Training counts every eojeol that reaches the minimum, and stems in -하 give adverbs in -히.",
  ["inputs", "configurations"], "every set of dictionaries and counted eojeols (bounded), and short corpora with the package's dictionaries",
  "No stable test uses it.",
  ["soynlp/pos/_news_pos.py", "soynlp/pos/_chat_pos.py", "soynlp/pos/_adverb.py"], [("NewsPOSExtractor", "soynlp/pos/_news_pos.py:NewsPOSExtractor"), ("ChatPOSExtractor", "soynlp/pos/_chat_pos.py:ChatPOSExtractor"), ("stem_to_adverb", "soynlp/pos/_adverb.py:stem_to_adverb")])

p("C32", "Similar items, sorted word files and directories are what they say",
  "For a known item, most_similar returns the other items with their cosine similarity to it (0 for items without features), from the most to the least similar, each once: as many as asked for (or all when fewer exist, or when none are asked for), never the item itself, and no item left out is more similar than one returned; for an unknown item it returns nothing. Dense and sparse matrices give the same. Sorting a word file keeps every line that is not blank, stripped of white space, as often as it was there, in the order of characters, and sorting it again changes nothing. After check_dirs for the path of a file, the file can be written: every missing directory exists, and nothing that was there has changed. Every name that soynlp.utils lists for export exists.",
  ["inputs", "configurations"], "every matrix of small integers, query and number of items; every word file and path of bounded size",
  "No stable test calls them.",
  ["soynlp/utils/utils.py"], [("most_similar", "soynlp/utils/utils.py:most_similar"), ("sort_by_alphabet", "soynlp/utils/utils.py:sort_by_alphabet"), ("check_dirs", "soynlp/utils/utils.py:check_dirs")])

p("C33", "Taggers consider every analysis of an eojeol and choose a best one",
  "For an eojeol, the eojeol tagger considers exactly: the whole under each of its tags that may stand alone (unknown if there is none), every split into two words whose tags make one of the pairs, and the sequences of nouns and of adverbs in which each is the shortest word at its place and none is the whole. A candidate's evaluation is the sum of the weights of the features that hold (the number of nouns, words and unknown words times theirs), and the tagger gives the words of one than which none is better. The L-R tagger considers exactly the left parts of two or more characters of the dictionary, alone and with each right part after them that their tag allows; preferences given for a word and tag are added to the evaluation, a longer candidate of the same tags is better, and those selected do not overlap, are in order, and every other overlaps one that is not worse; what is left is unknown.",
  ["inputs", "configurations"], "every eojeol and dictionary, weights and preferences (bounded sizes)",
  "postagger_test tags a sentence with one dictionary.",
  [PT + "_template.py", PT + "_evaluator.py", PT + "_tagger.py"], [("EojeolTemplateMatcher", PT + "_template.py:EojeolTemplateMatcher"), ("LRTemplateMatcher", PT + "_template.py:LRTemplateMatcher"), ("SimpleEojeolEvaluator", PT + "_evaluator.py:SimpleEojeolEvaluator"), ("LREvaluator", PT + "_evaluator.py:LREvaluator"), ("SimpleTagger", PT + "_tagger.py:SimpleTagger")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
