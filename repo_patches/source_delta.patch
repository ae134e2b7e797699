From e5443c6accd2215493724626fc14a7a204c2e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 01/43] fix: levenshtein ignored custom costs when the first
 string is shorter

---
 soynlp/hangle/_distance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..634474f 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,8 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        # substitution cost is directional: (from, to)
+        return levenshtein(s2, s1, {(c2, c1): c for (c1, c2), c in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From 20d2aba98ddc11718e7c154e1d5e4bdebc8aeef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 02/43] fix: emoticon_normalize dropped syllables and finals
 next to a lone jamo

---
 soynlp/normalizer/_normalizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..6c839a3 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,17 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
             if (cho == sent[i-1]):
                 sent_.append(cho)
                 sent_.append(jung)
+                if jong != ' ':
+                    sent_.append(jong)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From de943ad22362a1a79963577b52320edf1679b78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 03/43] fix: MaxScoreTokenizer reported the default score for
 known words (short eojeols, gaps)

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..25d0e87 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,7 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            return [(token, 0, length, self._scores.get(token, self._ds), length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +208,7 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            adds.append((subtoken, b, e, self._scores.get(subtoken, self._ds), e - b))
         
         return adds
 
-- 
2.43.0


From 54fb186e50620149e99cf54f877714ad47e31e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 04/43] fix: MaxLRScoreTokenizer failed on R words outside L-R
 pairs and repeated or misplaced subwords

---
 soynlp/tokenizer/_tokenizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 25d0e87..819c0b0 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -416,7 +416,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -434,7 +434,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
@@ -451,7 +451,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.base_tokenizer._scores[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 2d2e0c44820ae906e54feae7e86ed2e83a0d2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 05/43] fix: NounMatchTokenizer reported an empty noun and
 carried scores over between compounds

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From bafd74a6c7e563be2d6db8a53416d84ca925234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 06/43] fix: MaxScoreTokenizer stopped selecting words after
 about a hundred in one eojeol

---
 soynlp/tokenizer/_tokenizer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 819c0b0..fe403c4 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -177,7 +177,6 @@ class MaxScoreTokenizer:
 
     def _find(self, scores):
         result = []
-        num_iter = 0
         
         while scores:
             word, b, e, score, r = scores.pop(0)
@@ -194,9 +193,6 @@ class MaxScoreTokenizer:
             for i in reversed(removals):
                 del scores[i]
 
-            num_iter += 1
-            if num_iter > 100: break
-
         return sorted(result, key=lambda x:x[1])
     
     def _add_inter_subtokens(self, token, result):
-- 
2.43.0


From c64c8c633f332d9f149d0e4c569f158d3924960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 07/43] fix: LR part-of-speech tagging lost or duplicated text
 (words ordered by their r part, eojeols without candidates dropped)

---
 soynlp/postagger/_evaluator.py | 4 ++--
 soynlp/postagger/_tagger.py    | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From 1308dce47cb9f15ba5d31a20ab9af908ede3e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 08/43] fix: Dictionary shared word sets with its caller and
 failed on lists and empty collections

---
 soynlp/postagger/_dictionary.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..974cddb 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -10,12 +10,10 @@ import os
 class Dictionary:
     def __init__(self, pos_dict):
         if isinstance(pos_dict, dict):
-            for key in pos_dict:
-                if sys.version_info.major == 2:
-                    pos_dict[key] = set(map(unicode, pos_dict[key]))
-                else:
-                    pos_dict[key] = set(pos_dict[key])
-            self.pos_dict = pos_dict
+            if sys.version_info.major == 2:
+                self.pos_dict = {tag:set(map(unicode, words)) for tag, words in pos_dict.items()}
+            else:
+                self.pos_dict = {tag:set(words) for tag, words in pos_dict.items()}
             self.max_length = self._check_max_length(self.pos_dict)
         elif isinstance(pos_dict, str):
             if os.path.exists(pos_dict):
@@ -24,7 +22,7 @@ class Dictionary:
                 raise ValueError('dictionary file does not exist')
 
     def _check_max_length(self, pos_dict):
-        return max((len(word) for words in pos_dict.values() for word in words))
+        return max([len(word) for words in pos_dict.values() for word in words] + [0])
 
     def get_pos(self, word):
         tags = []
@@ -43,7 +41,7 @@ class Dictionary:
             message = 'Check your tag or use add_words(tag, words, force=True)'.format(tag)
             raise ValueError(message)
 
-        max_length = max((len(word) for word in words))
+        max_length = max([len(word) for word in words] + [0])
         if self.max_length < max_length:
             self.max_length = max_length
 
@@ -68,8 +66,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 2d9edb56deb9fd4553f50f833517c1e78ea17014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 09/43] fix: LRGraph counted each split once per character of
 its left part

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..cc47c99 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -347,7 +347,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From caa4d9bf149a2e1d7ed6e9f0f934feee934b8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 10/43] fix: LRGraph.add_lr_pair and add_eojeol failed on pairs
 the graph does not hold yet

---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index cc47c99..cfa5acb 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -383,9 +383,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From 48333e4aafe26df02f42b13a9ba8f04fdfc721aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 11/43] fix: LRGraph could not be reset, copied or loaded when
 the original graph is empty

---
 soynlp/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index cfa5acb..5397a1e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -358,7 +358,7 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
-        nested_dict_type = type(list(lrgraph.values())[0])
+        nested_dict_type = type(list(lrgraph.values())[0]) if lrgraph else dict
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         elif not (nested_dict_type == dict):
@@ -374,7 +374,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if not self._lr_origin:
+        if self._lr_origin is None:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
-- 
2.43.0


From 35c33a34958390499a3fe548e15faa457170ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 12/43] fix: EojeolCounter.to_lrgraph ignored
 ignore_one_syllable

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 5397a1e..bca5e7e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -281,7 +281,7 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From ed5a43583a0382032a77a083e46ae1cf4c602162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 13/43] fix: EojeolCounter.remove_covered_eojeols divided by
 zero on an empty counter

---
 soynlp/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index bca5e7e..33dc570 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -272,7 +272,8 @@ class EojeolCounter:
 
     def remove_covered_eojeols(self, eojeols):
         self._counter = {k:v for k,v in self._counter.items() if not (k in eojeols)}
-        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum
+        if self._count_sum > 0:
+            self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum
 
     def get_eojeol_count(self, eojeol):
         return self._counter.get(eojeol, 0)
-- 
2.43.0


From 570ea31376ff7d681a9c120e3f6b03dbdb1b44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 14/43] fix: DoublespaceLineCorpus reported no length for a
 file without documents

---
 soynlp/utils/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 33dc570..2ae385b 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -131,6 +131,7 @@ class DoublespaceLineCorpus:
             return 0, 0
 
         # check length
+        doc_idx = -1
         for doc_idx, doc in enumerate(f):
             if (num_doc > 0) and (doc_idx >= num_doc):
                 return doc_idx, num_sent_
-- 
2.43.0


From 080144870ee2394a28ab03c3f18bbabd1ca7987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 15/43] fix: DoublespaceLineCorpus ignored num_doc when the
 requested documents hold no sentence

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 2ae385b..78c41b0 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -162,7 +162,7 @@ class DoublespaceLineCorpus:
         # iteration
         num_sent, stop = 0, False
         for doc_idx, doc in enumerate(f):
-            if stop:
+            if stop or ((self.num_doc > 0) and (doc_idx >= self.num_doc)):
                 break
 
             # yield doc
-- 
2.43.0


From 9c6d7f09600a621c40a39050b51cb3c144ef52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 16/43] fix: all_branching_entropy and all_accessor_variety
 left out words of the maximum length

---
 soynlp/word/_word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..c13e0d1 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -190,7 +190,7 @@ class WordExtractor:
         def get_entropy_table(parse, sorted_by_length, sorted_by_length_a, max_length, counter, counter_a):
             num_sum = sum((len(words) for length, words in sorted_by_length.items()))
             be = {}
-            for word_len in range(2, max_length):
+            for word_len in range(2, max_length + 1):
                 words = sorted_by_length.get(word_len, [])
                 extensions = defaultdict(lambda: [])
                 for word in words:
-- 
2.43.0


From e728af3ede0b67419acd9d9d6a0286ac66bf22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 17/43] fix: BaseVectorizer took the document frequency for the
 term frequency

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From e7747b7853c5889532b9d0372f56e763013bbad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 18/43] fix: word-context matrix was smaller than the
 vocabulary, or failed, when words have no contexts

---
 soynlp/vectorizer/_word_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..22df154 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -113,7 +113,8 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    n_vocabs = len(vocab2idx)
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From 187a27cef578709146275793aa3393a1f01a7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 19/43] fix: pmi_memory_friendly failed on every matrix of more
 than one column

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..22b9bb0 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
-- 
2.43.0


From 43d7be00003b6c6e205efcec6bba88b0c8ea0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 20/43] fix: pmi_memory_friendly dropped values equal to the
 minimum

---
 soynlp/word/_pmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 22b9bb0..bdc874f 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -147,7 +147,7 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)
 
     # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    indices = np.where(exp_pmi.data > min_exp_pmi)[0]
+    indices = np.where(exp_pmi.data >= min_exp_pmi)[0]
 
     pmi_dok = dok_matrix(exp_pmi.shape)
 
-- 
2.43.0


From 5ecc6fa5a7249d17ab14a275745a432a223dd3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 21/43] fix: Bigram scored with the number of distinct bigrams
 of a word instead of its count

---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..edcb6b1 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -64,7 +64,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From ff505de994b691b33910b51c03be5f56f88fb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 22/43] fix: Bigram.extract ignored topk

---
 soynlp/word/_phrase.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index edcb6b1..dae949c 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -79,6 +79,11 @@ class Bigram:
             return self._extract_by_mikolov(topk, threshold)
         raise NotImplemented
 
+    def _select_topk(self, bigrams, topk):
+        if topk > 0:
+            bigrams = dict(sorted(bigrams.items(), key=lambda x:-x[1].score)[:topk])
+        return bigrams
+
     def _extract_by_pmi(self, topk=-1, threshold=0):
 
         def score(bigram, freq, N):
@@ -94,14 +99,12 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
-        return bigrams
+        return self._select_topk(bigrams, topk)
 
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
-        if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
-        return bigrams
+        return self._select_topk(bigrams, topk)
 
     def _extract_by_mikolov(self, topk=-1, threshold=0):
 
@@ -118,4 +121,4 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
-        return bigrams
\ No newline at end of file
+        return self._select_topk(bigrams, topk)
\ No newline at end of file
-- 
2.43.0


From 70bda9293a44574f9b478bff7823febfd88f1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 23/43] =?UTF-8?q?fix:=20conjugate=20lost=20the=20final=20c?=
 =?UTF-8?q?onsonant=20of=20the=20ending=20after=20=ED=91=B8=20(=ED=91=B8?=
 =?UTF-8?q?=20+=20=EC=97=88=EB=8B=A4=20->=20=ED=8E=90=EB=8B=A4)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e021f53..6549699 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -161,7 +161,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ' and r_first[0] == 'ㅇ' and r_first[1] == 'ㅓ':
         if l_last_ == '푸':
-            l = stem[:-1] + '퍼'
+            l = stem[:-1] + compose(l_last[0], 'ㅓ', r_first[2])
         else:
             l = stem[:-1] + compose(l_last[0], 'ㅝ', r_first[2])
         r = ending[1:]
-- 
2.43.0


From f53c33e5a9ad0135cf868934eb3fab91e745a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 24/43] =?UTF-8?q?fix:=20conjugate=20contracted=20=E3=85=8E?=
 =?UTF-8?q?=20with=20endings=20that=20do=20not=20begin=20with=20a=20vowel?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 6549699..ac506ac 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -259,7 +259,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # ㅎ (축약) 불규칙 할용
     # 파랗 + 았다 -> 파랬다 / 시퍼렇 + 었다 -> 시퍼렜다
     if ( (l_last[2] == 'ㅎ' and l_last_ != '좋') and
-         (r_first[0] == 'ㅇ' and r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ') ):
+         (r_first[0] == 'ㅇ' and (r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ')) ):
         l = stem[:-1] + compose(l_last[0], 'ㅐ' if r_first[1] == 'ㅏ' else 'ㅔ', r_first[2])
         r = ending[1:]
         surface = l + r
-- 
2.43.0


From 420e3fd023579aa457e6c345442ef344907dccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 25/43] fix: vowel harmony changed the vowel of endings that
 begin with a consonant

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index ac506ac..8aa5699 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -63,7 +63,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
              (r_first[0] == 'ㅇ' and r_first[1] in positive_moum) ):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
-        if (l_last[1] in neuter_moum) and (r_first[1] in positive_moum):
+        if (l_last[1] in neuter_moum) and (r_first[0] == 'ㅇ' and r_first[1] in positive_moum):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
 
-- 
2.43.0


From 410ecde7bb1113354489987ea8bcf97c3fab13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 26/43] =?UTF-8?q?fix:=20conjugate=20took=20the=20bare=20co?=
 =?UTF-8?q?nsonant=20ending=20=E3=85=87=20for=20one=20that=20begins=20with?=
 =?UTF-8?q?=20a=20vowel?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 8aa5699..1d683fb 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -51,6 +51,8 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     l_last = list(decompose(stem[-1]))
     l_last_ = stem[-1]
     r_first = list(decompose(ending[0]))
+    if ending[0] == 'ㅇ': # 모음 없이 자음만 있는 어미는 모음으로 시작하는 어미가 아님
+        r_first[0] = ' '
 
     # check moum is positive or negative
     # ㅂ 불규칙 활용은 모음조화가 이뤄지지 않는 경우가 있음
-- 
2.43.0


From 060d8d904e76a4268e1a3b594e5236b3415bb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 27/43] fix: Lemmatizer.candidates raised AttributeError

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From 69f0203c9d80bb2f5218cef2f7a76d96d269ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 28/43] fix: PredicatorExtractor left out predicates of exactly
 the minimum frequency

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..c341bef 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -329,7 +329,7 @@ class PredicatorExtractor:
         if (eojeol_counter is None) or (not eojeol_counter):
             eojeol_counter = {
                 eojeol:count for eojeol, count in self.eojeol_counter.items()
-                if (count > min_frequency) and all_character_are_complete_korean(eojeol)
+                if (count >= min_frequency) and all_character_are_complete_korean(eojeol)
             }
 
         lemmas = self._as_lemma_candidates(eojeol_counter)
-- 
2.43.0


From 7a596e1b1af8231976fd47ec736bd50250029b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 29/43] fix: PredicatorExtractor.train ignored
 min_eojeol_frequency for sentences

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index c341bef..5e87471 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -213,7 +213,7 @@ class PredicatorExtractor:
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         eojeol_counter._counter = {
-- 
2.43.0


From 4257cf6b206b8c8b2f9358a68dadd5872639e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 30/43] fix: PredicatorExtractor.extract divided by zero
 without eojeols

---
 soynlp/predicator/_predicator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 5e87471..0ce4e2e 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -389,7 +389,6 @@ class PredicatorExtractor:
 
         lemmas = self._remove_wrong_eomis(lemmas, eomi_to_word_count)
         if self.verbose:
-            perc = '%.3f' % (100 * self._count_of_covered_eojeols / self._count_of_eojeols)
             message = 'lemma candidating was done'
             self._print(message, replace=True, newline=True)
 
-- 
2.43.0


From 7d4f88d00d31e755107e498d5ec59d17b083e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 31/43] fix: StemExtractor took the score of a surface for its
 frequency and the reverse

---
 soynlp/predicator/_stem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..da1775e 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,14 +250,14 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, _) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
                         if eomi in self.eomis:
                             continue
                         stems[stem] = merge_score(
-                            freq0, score0, *stems.get(stem, (0, 0)))
+                            count, score0, *stems.get(stem, (0, 0)))
                 except:
                     continue
 
-- 
2.43.0


From 2090213559f1fe740a83076a7b2b84b63652d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 32/43] fix: StemExtractor took stems from unknown endings and
 skipped known ones

---
 soynlp/predicator/_stem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index da1775e..b81d2ab 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -254,7 +254,7 @@ class StemExtractor:
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-                        if eomi in self.eomis:
+                        if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
                             count, score0, *stems.get(stem, (0, 0)))
-- 
2.43.0


From d59b36ab4e1800129e84aa8dc061eab5e7595617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 33/43] fix: LRNounExtractor.extract never scored compounds, it
 passed the nouns for the minimum score

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..9fc7ad6 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -150,7 +150,7 @@ class LRNounExtractor:
             if len(word) <= 1:
                 continue
 
-            score = self.predict(word, nouns)
+            score = self.predict(word, min_noun_score, nouns)
 
             if score[0] < min_noun_score:
                 continue
-- 
2.43.0


From da6896c35f0093965ce77e28a3b795275dd39277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:55 +0000
Subject: [PATCH 34/43] fix: LRNounExtractor.extract ignored min_noun_frequency

---
 soynlp/noun/_noun_ver1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 9fc7ad6..ace7325 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -266,7 +266,8 @@ class LRNounExtractor:
                 if is_Noun_Josa(l, r):
                     removals.add(word)
                     break
-        nouns_ = {word:score for word, score in nouns.items() if (word in removals) == False}
+        nouns_ = {word:score for word, score in nouns.items() if (word in removals) == False
+                  and self._substring_counter.get(word, 0) >= min_noun_frequency}
         return nouns_
 
     def _to_NounScore(self, nouns):
-- 
2.43.0


From 9e28d114cd1fabea40afdf7590c98fc41bf6e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 35/43] fix: LRNounExtractor_v2 reported the scores of
 compounds as frequencies and the reverse

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..1d0edb0 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From 3fa26974826be006c5b03ccc7fabcd02ea3b1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 36/43] fix: LRNounExtractor_v2 failed when postprocessing was
 given

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 1d0edb0..83ad671 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From ade185f333abf115fe2620eada23e976a250dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 37/43] fix: LRNounExtractor_v2 normalized sentences only when
 they were normalized already

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 83ad671..75980d6 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -157,7 +157,7 @@ class LRNounExtractor_v2:
         if self.verbose:
             print('[Noun Extractor] counting eojeols')
 
-        if not self.ensure_normalized:
+        if self.ensure_normalized:
             preprocess = lambda x:x
         else:
             preprocess = normalize_sent_for_lrgraph
-- 
2.43.0


From 29ddfcf73987bab15f11ffe87a43f2bc160470f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 38/43] fix: LRNounExtractor_v2.extract divided by zero without
 eojeols

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 75980d6..6910fb4 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -630,5 +630,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
-- 
2.43.0


From b75ffc494042d61fb72176e30ff7d9e4ee74549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 39/43] fix: extract_domain_pos_features compared noun
 frequencies with the minimum score and the reverse

---
 soynlp/noun/_josa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..730c349 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[0] >= min_noun_frequency)
+                 and (score[1] >= min_noun_score))}
 
     if ignore_features is None:
         ignore_features = {}
-- 
2.43.0


From 95f0a7573d4fccfb722ddecd4f8b4a792034bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:37 +0000
Subject: [PATCH 40/43] fix: ChatPOSExtractor dropped every new stem of
 predicate compounds

---
 soynlp/pos/_chat_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_chat_pos.py b/soynlp/pos/_chat_pos.py
index fdeda3d..44de49d 100644
--- a/soynlp/pos/_chat_pos.py
+++ b/soynlp/pos/_chat_pos.py
@@ -137,7 +137,7 @@ class ChatPOSExtractor(NewsPOSExtractor):
         wrong_stems = find_wrong_stem(predicator_compounds)
         predicator_compounds = delete_predicators_having_wrong_stem(
             predicator_compounds, wrong_stems)
-        stems = {stem for stem in wrong_stems if not (stem in wrong_stems)}
+        stems = {stem for stem in stems if not (stem in wrong_stems)}
         counter = {word:count for word, count in counter.items() if word in predicator_compounds}
         return predicator_compounds, stems, counter
 
-- 
2.43.0


From 1a921effeff63bd805d50a8d8dbe6578fbe929fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:37 +0000
Subject: [PATCH 41/43] fix: most_similar returned topk + 1 items when the
 query was not among the nearest

---
 soynlp/utils/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 78c41b0..a30f7d9 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -72,10 +72,10 @@ def most_similar(query, vector, item_to_idx, idx_to_item, topk=10):
         return []
     qvec = vector[q].reshape(1,-1)
     dist = pairwise_distances(qvec, vector, metric='cosine')[0]
-    sim_idxs = dist.argsort()
+    sim_idxs = [idx for idx in dist.argsort() if idx != q]
     if topk > 0:
-        sim_idxs = sim_idxs[:topk+1]
-    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs if idx != q]
+        sim_idxs = sim_idxs[:topk]
+    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs]
     return similars
 
 def check_corpus(corpus):
-- 
2.43.0


From c8bb97e6a52990ea23466acef6191fad99a2361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:37 +0000
Subject: [PATCH 42/43] fix: check_dirs did not make the directory

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index a30f7d9..e12423c 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -24,7 +24,7 @@ def get_process_memory():
 
 def check_dirs(filepath):
     dirname = os.path.dirname(filepath)
-    if dirname and dirname == '.' and not os.path.exists(dirname):
+    if dirname and dirname != '.' and not os.path.exists(dirname):
         os.makedirs(dirname)
         print('created {}'.format(dirname))
 
-- 
2.43.0


From 0e758c3874291c905d9a7056f48537707565a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:37 +0000
Subject: [PATCH 43/43] fix: from soynlp.utils import * raised AttributeError
 for a missing comma in __all__

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0

