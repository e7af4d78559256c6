From ec739c6fc735e84c2db9348b9a5b5408aaac4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 01/37] fix: ByteScheme.decode mangled bytes below 0x10

Pieces of such bytes have a single hex digit, so joining pieces before bytes.fromhex()
paired up the wrong digits or failed.
---
 nlcodec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..c84d33c 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -583,7 +583,8 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        # each piece is one byte in hex, with a single digit for bytes < 0x10
+        byte_arr = bytes(int(piece, 16) for piece in pieces)
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
-- 
2.43.0


From 70951119b5c287a7aff881533bcd8e61d88ec2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 02/37] fix: vocabulary size limits below the number of
 reserved types kept corpus types

---
 nlcodec/codec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index c84d33c..d460764 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -266,8 +266,10 @@ class EncoderScheme(abc.ABC):
 
         if vocab_size > 0 and len(vocab) + len(term_freqs) > vocab_size:
             log.info(f"Truncating vocab at size={vocab_size}")
-            unk_count += sum(f for t, f in term_freqs[vocab_size - len(vocab):])
-            term_freqs = term_freqs[:vocab_size - len(vocab)]
+            # reserved types always stay, even if they alone exceed the limit
+            n_keep = max(0, vocab_size - len(vocab))
+            unk_count += sum(f for t, f in term_freqs[n_keep:])
+            term_freqs = term_freqs[:n_keep]
 
         # update reserved types with corpus freqs
         for idx, t in enumerate(vocab):
-- 
2.43.0


From 1438df140fb3fab6c140bf1789b779b26398f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 03/37] fix: unknown line count was added to frequencies of
 begin, end and class types

---
 nlcodec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index d460764..801f7c2 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -278,7 +278,8 @@ class EncoderScheme(abc.ABC):
                 freq = res_stats.pop(t.name)
             if idx == Reseved.UNK_IDX:
                 freq += unk_count
-            if idx in {Reseved.BOS_IDX, Reseved.EOS_IDX, Reseved.CLS_IDX} and line_count:
+            if idx in {Reseved.BOS_IDX, Reseved.EOS_IDX, Reseved.CLS_IDX} \
+                    and line_count and line_count > 0:  # negative => unknown
                 freq += line_count
             if freq:
                 log.warning(f"Update frequency for reserved type {t} with {freq}")
-- 
2.43.0


From e74b81a36acd1a3432992ac29e93d5c09276fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 04/37] fix: class names with tabs or carriage returns made
 saved vocabularies unreadable

---
 nlcodec/codec.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 801f7c2..fb26ab9 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -88,7 +88,9 @@ class Type:  # Type as in word type vs token
 
     @classmethod
     def parse(cls, line: str, vocab: List['Type'], delim='\t'):
-        cols = line.strip().split(delim)
+        cols = line.rstrip('\r\n').split(delim)
+        if len(cols) > 5:  # the name (of a class, for instance) has the delimiter in it
+            cols = [cols[0], delim.join(cols[1:-3])] + cols[-3:]
         idx, name, level, freq = cols[:4]
         idx, level, freq = int(idx), int(level), int(freq)
         kids = None
@@ -132,11 +134,12 @@ class Type:  # Type as in word type vs token
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
 
         if isinstance(inp, Path) or isinstance(inp, str):
-            rdr = open(inp, 'r', encoding='utf8', errors='ignore')
+            # names may have line breaks other than \n
+            rdr = open(inp, 'r', encoding='utf8', errors='ignore', newline='\n')
         else:
             rdr = inp
 
-        lines = list(l.strip() for l in rdr)
+        lines = list(l.rstrip('\r\n') for l in rdr)
         meta = None
         if lines[0].startswith("#{"):
             # metadata such as version; not used as of now
-- 
2.43.0


From 81915e201b0e79978dee988bf5c0952158093a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 05/37] fix: BPE learning raised IndexError when no pair was
 left to merge

---
 nlcodec/bpe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..04deedd 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -131,7 +131,7 @@ class BPELearn:
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
-            max_pair, pair_freq = heap.pop()
+            max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
                 freq_update = heap_dirty.pop(max_pair)
                 assert freq_update < 0  # only decrements are valid. increments make this wrong
@@ -139,7 +139,11 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
+
+            if max_pair is None:
+                log.warning(f"Early stop; no pairs left to merge after {i} merges")
+                break
 
             # here the  actual loop begins
             if pair_freq < min_co_evidence:
-- 
2.43.0


From 825a2406934b14b1517f9101dc15bbe6db8f225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:58 +0000
Subject: [PATCH 06/37] fix: BPE models depended on memory addresses where
 occurrences of a pair overlap

---
 nlcodec/bpe.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index 04deedd..bc97075 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -6,7 +6,7 @@
 import collections as coll
 import copy
 import time
-from typing import List, Dict, Tuple, Union, Iterator, Set
+from typing import List, Dict, Tuple, Union, Iterator
 
 from nlcodec import log, DEF_MIN_CO_EV
 from nlcodec.codec import Type, Level, Reseved
@@ -38,8 +38,9 @@ class BPELearn:
         self.uni: Dict[int, int] = coll.defaultdict(int)  # term freq ; unigrams
         self.bi: Dict[Bigram, int] = coll.defaultdict(int)  # bigram frequencies
 
-        # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # Bigram to sequence references. dicts are used as sets which keep the corpus order:
+        # the order of updates matters where occurrences overlap, eg. in 'a a a'
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
 
         self.create_index(seqs)
         self.validate_index()
@@ -68,7 +69,7 @@ class BPELearn:
                     bigm = (seq[i], seq[i + 1])
                     self.bi[bigm] += freq
                     assert nodes[i] not in self.bi_ixs[bigm]
-                    self.bi_ixs[bigm].add(nodes[i])  # bigm found at node i
+                    self.bi_ixs[bigm][nodes[i]] = None  # bigm found at node i
                     self.uni[seq[i]] += freq
                 self.uni[seq[-1]] += freq  # the last unigram count; not covered in the above loop
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
@@ -204,21 +205,21 @@ class BPELearn:
                     heap_deltas[(x_node.val, a)] -= x_node.freq
                     if bi_ixs.get((x_node.val, a)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(x_node.val, a)].remove(x_node)
+                        del bi_ixs[(x_node.val, a)][x_node]
 
                     # add (x_node_val, R) to bi and bi_ixs
                     heap_deltas[(x_node.val, new_type_idx)] += x_node.freq
-                    bi_ixs[(x_node.val, new_type_idx)].add(x_node)
+                    bi_ixs[(x_node.val, new_type_idx)][x_node] = None
                 if y_node:
                     # remove (b, y_node.val) from bi and bi_ixs
                     heap_deltas[(b, y_node.val)] -= b_node.freq
                     if bi_ixs.get((b, y_node.val)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(b, y_node.val)].remove(b_node)
+                        del bi_ixs[(b, y_node.val)][b_node]
 
                     # add (R, y_node.val) to bi and bi_ixs
                     heap_deltas[(new_type_idx, y_node.val)] += b_node.freq
-                    bi_ixs[(new_type_idx, y_node.val)].add(new_node)
+                    bi_ixs[(new_type_idx, y_node.val)][new_node] = None
 
             # however; the counts shouldn't go negative
             assert uni[a] >= 0
-- 
2.43.0


From addb012ec84a1d90390c23d73e43390f7d21fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 07/37] fix: BPE learning merged the unknown symbol into pieces

---
 nlcodec/bpe.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index bc97075..8a377da 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -250,10 +250,18 @@ class BPELearn:
         unk_idx = voc_idx[cls.unk_tok]
         for word, freq in term_freqs.items():
             if word in voc_idx:
-                res = [voc_idx[word]]
-            else:
-                res = [voc_idx.get(ch, unk_idx) for ch in word]
-            yield res, freq
+                yield [voc_idx[word]], freq
+                continue
+            res = []
+            for ch in word:  # unknown characters split the word; they can't be a part of a merge
+                idx = voc_idx.get(ch, unk_idx)
+                if idx != unk_idx:
+                    res.append(idx)
+                elif res:
+                    yield res, freq
+                    res = []
+            if res:
+                yield res, freq
 
     @classmethod
     def _learn_codes(cls, term_freqs: Dict[str, int], vocab: List[Type], vocab_size: int,
-- 
2.43.0


From de5bbec1bb9e898c448f3e7b5a5d1d9791c869b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 08/37] fix: shrunk vocabularies were saved without the kind of
 codec

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index fb26ab9..2ffb16d 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -348,7 +348,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From fe37ebf7c79b8acf8d3521e3746d41fa83c0ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 09/37] fix: shrinking a vocabulary to files without tokens
 raised ValueError

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 2ffb16d..00bceca 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -314,7 +314,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From 4a7eef719df433bdd681e5ecb41580643c71fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 10/37] fix: databases stored large integers as floating point
 numbers

---
 nlcodec/db/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..ad88ef3 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,9 +88,12 @@ class SeqField:
 
         def shrink(self):
             if self.buffer:
-                dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
+                mn, mx = min(self.buffer), max(self.buffer)
+                if len(self.frozen):    # one integer type for all; numpy may promote to float
+                    mn, mx = min(mn, int(self.frozen.min())), max(mx, int(self.frozen.max()))
+                dtype = best_dtype(mn=mn, mx=mx)
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                self.frozen = np.concatenate((self.frozen.astype(dtype), data))
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From de3903f378163f9cb3925f7fc7b2f2798333e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 11/37] fix: a database without records could not be created

---
 nlcodec/db/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index ad88ef3..dc88fa4 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -101,7 +101,7 @@ class SeqField:
             assert not self.buffer
             refs_type = best_dtype(mn=0, mx=max(len(self.frozen), self.max_len))
             return SeqField(name=self.name, ids=self.ids,
-                            refs=np.array(self.refs, dtype=refs_type), data=self.frozen)
+                            refs=np.array(self.refs, dtype=refs_type).reshape(-1, 2), data=self.frozen)
 
     def __init__(self, name: str, ids: Dict[Any, int], refs: Array, data: Array):
         self.name = name
@@ -110,7 +110,7 @@ class SeqField:
         self.data = data
         assert len(data.shape) == 1
         assert refs.shape == (len(ids), 2)
-        assert refs[-1][0] <= len(data)
+        assert len(refs) == 0 or refs[-1][0] <= len(data)
 
     def __len__(self):
         return len(self.ids)
-- 
2.43.0


From 2153a3d5078743533bb8935319b3b780175b02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:53 +0000
Subject: [PATCH 12/37] fix: multi-part databases with missing parts were
 loaded as if complete

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index dc88fa4..f661a10 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -318,7 +318,7 @@ class MultipartDb:
         rec_counts = []
         for part_name, stats in meta['parts'].items():
             part_file = path / part_name
-            part_file.exists()
+            assert part_file.exists(), f'Missing part: {part_file}'
             part_files.append(part_file)
             rec_counts.append(stats['count'])
         field_names = meta['field_names']
-- 
2.43.0


From 039c60865d9acbd82cda137614f7650f2a31ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 13/37] fix: random batches held one record more than the
 sentence budget

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index f661a10..a3d6cf9 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -251,7 +251,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From 91d6038fdc654ab80a236f7decf98ce543673eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 14/37] fix: parts without usable records broke random batches
 of the whole database

---
 nlcodec/db/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index a3d6cf9..261b65b 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -240,6 +240,8 @@ class Db:
                 rows.append((_id, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
+        if not rows:
+            return []
         rows = np.array(rows)  # id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
@@ -265,10 +267,10 @@ class Db:
             batches.append(np.array(batch))
         return batches
 
-    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf')):
+    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
 
         batches = self._make_eq_len_batch_ids(max_toks=max_toks, max_sents=max_sents)
-        if not batches:
+        if not batches and not allow_empty:
             raise Exception(f'Found no data. Please check config data paths')
         log.info(f"length sorted random batches = {len(batches)}. Shuffling🔀...")
         # every pass introduce some randomness
@@ -358,10 +360,16 @@ class MultipartDb:
         buff = list(zip(self.part_paths, self.mem))
         random.shuffle(buff)
 
+        n_batches = 0
         for path, part in buff:
             if part is None:
                 part = Db.load(path, rec_type=self.rec_type)
-            yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents)
+            for batch in part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents,
+                                                      allow_empty=True):
+                n_batches += 1
+                yield batch
+        if n_batches == 0:
+            raise Exception(f'Found no data. Please check config data paths')
 
     class Writer:
 
-- 
2.43.0


From 76ad0ed742a9b80ddc3cacd477ba0dad5673a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 15/37] fix: databases iterated in hash order of ids, and
 raised TypeError when shuffled

---
 nlcodec/db/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 261b65b..5c38ab9 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -162,11 +162,11 @@ class Db:
         self._rec_type = rec_type
         self.fields = {f.name: f for f in fields}
         self._len = len(fields[0])
-        self.ids = set(fields[0].ids.keys())
+        self.ids = list(fields[0].ids.keys())  # in the order of records
         self.shuffle = shuffle
         for fn, fd in self.fields.items():
             assert self._len == len(fd)  # all have same num of recs
-            assert self.ids == set(fd.ids.keys())  # and same IDs
+            assert set(self.ids) == set(fd.ids.keys())  # and same IDs
 
     # noinspection PyPep8Naming
     def RecType(self):
@@ -223,7 +223,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From 9f79693bd5d3428836a744ab5129765df4a4ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 16/37] fix: parts of a multi-part database came in the order
 of the directory listing

---
 nlcodec/db/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 5c38ab9..e9559a9 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -400,8 +400,9 @@ class MultipartDb:
 
         def close(self):
             parts = {}
-            for meta_path in self.path.glob("part-*.meta"):
-                part_name = meta_path.name.rstrip('.meta')
+            meta_paths = self.path.glob("part-*.meta")
+            for meta_path in sorted(meta_paths, key=lambda p: int(p.stem[len('part-'):])):
+                part_name = meta_path.stem
                 parts[part_name] = json.loads(meta_path.read_text())
             meta = dict(parts=parts, field_names=self.field_names)
             flag_file = self.path / '_SUCCESS'
-- 
2.43.0


From 8817063d9f3c54a1f701fee958bbbb553d5d442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 17/37] fix: MapReduce raised TypeError when called without
 pools

---
 nlcodec/para/mapred.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/para/mapred.py b/nlcodec/para/mapred.py
index 7a5ac46..b0c088d 100644
--- a/nlcodec/para/mapred.py
+++ b/nlcodec/para/mapred.py
@@ -80,7 +80,7 @@ class MapReduce:
     reducer: Callable
     default: Any  # default for reducer, to pair the odd item
 
-    def __call__(self, input, map_pool=None, reduce_pool=None):
+    def __call__(self, input, map_pool=map, reduce_pool=map):
         mapped = map_pool(self.mapper, input)
         reduced = ireduce(reduce_func=self.reducer, default=self.default, data=mapped,
                           pool=reduce_pool)
-- 
2.43.0


From 423657bee8939a9fc6d731297d2ac76d249e67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:52 +0000
Subject: [PATCH 18/37] fix: sequences of exactly the maximum length were
 dropped when not truncating

---
 nlcodec/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 1f7cb03..6834ac4 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -107,7 +107,7 @@ def read_raw_bitext_tok(spark, src_path: Union[str, Path], tgt_path: Union[str,
     if truncate:
         tok_rdd = tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))
     else:
-        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) < src_len and len(r[2]) < tgt_len)
+        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) <= src_len and len(r[2]) <= tgt_len)
 
     # dataframes doesnt support numpy arrays, so we cast them to python list
     a_row = tok_rdd.take(1)[0]
-- 
2.43.0


From 7fd7894a71b6b21a5338029f187d12a12d116a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 19/37] fix: term counting failed without lines and on text
 containing its line marker

---
 nlcodec/term_freq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index b51b6fe..5ef5682 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -39,7 +39,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         if dedup:
             log.info("Dropping duplicates")
             df = df.drop_duplicates()
-        SENT_TAG = '<!S!>'
+        SENT_TAG = '<!S!> '  # has a space so that no word of a line is mistaken for it
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
@@ -47,7 +47,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
             .map(lambda word: (word, 1)) \
             .reduceByKey(lambda v1, v2: v1 + v2) \
             .collectAsMap()
-        line_count = word_freqs.pop(SENT_TAG)
+        line_count = word_freqs.pop(SENT_TAG, 0)
         # word_freqs = list(sorted(word_freqs.items(), key=lambda x: x[1], reverse=True))
 
         # char freqs
-- 
2.43.0


From c6ef13e1219af71456da3c57d7bba222ddc23727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:33 +0000
Subject: [PATCH 20/37] fix: merge tracking miscounted types where occurrences
 of a pair overlap

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..69c4e75 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -168,7 +168,7 @@ class BpeTracker:
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From 9af428f7ffb676dd23f2c871e8f93129d8eb88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:22 +0000
Subject: [PATCH 21/37] fix: merge tracking depended on memory addresses where
 occurrences of a pair overlap

---
 nlcodec/eval/bpe_len.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 69c4e75..2a9ac82 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -7,7 +7,7 @@ import argparse
 import collections as coll
 import sys
 from pathlib import Path
-from typing import Iterator, Dict, Set, Optional, Union
+from typing import Iterator, Dict, Optional, Union
 
 import numpy as np
 from tqdm import tqdm
@@ -72,7 +72,8 @@ class BpeTracker:
         self.uni: NDArray = np.zeros(bpe.total_types(), dtype=np.long) # term freq ; unigrams
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # dict as an ordered set: overlaps such as A A A have to be visited left to right
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         self.seq_lens: Optional[NDArray] = None
         self.create_index(data)
 
@@ -99,7 +100,7 @@ class BpeTracker:
         log.info("Encoding and creating index")
         enc_data  = self.bpe.encode_parallel(data)
         uni: Dict[int, int] = coll.defaultdict(int)
-        bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         seq_lens = []
         with tqdm(enumerate(enc_data)) as data_bar:
             for idx, seq in data_bar:
@@ -108,7 +109,7 @@ class BpeTracker:
                 for node in seq:
                     uni[node.val] += 1
                 for node in seq[:-1]:
-                    bi_ixs[(node.val, node.right.val)].add(node)
+                    bi_ixs[(node.val, node.right.val)][node] = None
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
                 data_bar.set_postfix_str(bar_msg, refresh=False)
 
@@ -181,12 +182,12 @@ class BpeTracker:
 
                     if u.left:
                         if  bi_ixs.get((u.left.val, a)):
-                            bi_ixs[(u.left.val, a)].remove(u.left)
-                        bi_ixs[(u.left.val, u.val)].add(u.left)
+                            del bi_ixs[(u.left.val, a)][u.left]
+                        bi_ixs[(u.left.val, u.val)][u.left] = None
                     if u.right:
                         if bi_ixs.get((b, u.right.val)):
-                            bi_ixs[(b, u.right.val)].remove(b_node)
-                        bi_ixs[(u.val, u.right.val)].add(u)
+                            del bi_ixs[(b, u.right.val)][b_node]
+                        bi_ixs[(u.val, u.right.val)][u] = None
         k = len(self.bpe)
         emd = self.earth_mov_dist(self.uni[:k])
         mu_len = self.mean_seq_len()
-- 
2.43.0


From 3c07a104608516b9f671c0730a05e8b557289332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:17 +0000
Subject: [PATCH 22/37] fix: n-gram order was ignored when measuring precision
 and recall

---
 nlcodec/eval/pr_measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 232a3d2..f9f9e29 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -58,7 +58,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
 
     cands = list(codec.encode_parallel(cands))
     refs = list(codec.encode_parallel(refs))
-    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs)
+    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
         freqs = [json.loads(l.strip()) for l in freqs]
-- 
2.43.0


From 8f4126ae815c5f31d23fded9261263181306f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:35 +0000
Subject: [PATCH 23/37] fix: distances between distributions raised
 AttributeError with current numpy

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..171fc92 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert distr.dtype == float
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From 109b6f552f6c522fffb1ff6fb1f96ebeb68219df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 24/37] fix: quality estimates failed for byte codecs and
 counted the last class as unknown

---
 nlcodec/qestim.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 171fc92..47d2d44 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -88,26 +88,29 @@ class QualityEstimator:
 
     def _estimate(self, seqs: Iterator[List[int]]) -> CodecQuality:
         stats = [0] * self.codec.vocab_size
+        # byte codecs have no unknowns; class codecs have an unknown index but no type for it
+        unk_idx = getattr(self.codec, 'unk_idx', None)
+        unk_count = 0
         # lengths = coll.defaultdict(int)
-        n_seqs = 0
+        n_seqs = n_toks = 0
         for seq in tqdm(seqs):
             n_seqs += 1
             for tok in seq:
-                stats[tok] += 1
+                n_toks += 1
+                if tok == unk_idx:
+                    unk_count += 1
+                if tok >= 0:
+                    stats[tok] += 1
 
-        n_toks = sum(stats)
         mean_len = n_toks / n_seqs
         n_types = self.codec.vocab_size
 
-        unk_count = stats[self.codec.unk_idx]
-
         # exclude the reserved types which dont surface in prediction
         #excludes = [typ for typ in self.codec.table if typ.is_reserved and stats[typ.idx] == 0]
         #n_types -= len(excludes)  # exclude reserved
         #for typ in reversed(excludes):  # delete from right
         #    log.info(f'Remove type from balance check: {typ}')
         #    del stats[typ.idx]
-        n_toks = sum(stats)
         imb_measure = self.EMD_simple(stats=stats)
         return CodecQuality(n_types=n_types, imbalance=imb_measure, n_tokens=n_toks,
                             mean_seq_len=mean_len, unk_count=unk_count)
-- 
2.43.0


From c159009225379910658a2423d4320aa4687f2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:03 +0000
Subject: [PATCH 25/37] fix: byte codecs encoded the line break, decoded output
 had extra lines

---
 nlcodec/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 00bceca..ee3f65b 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -688,6 +688,7 @@ def load_scheme(path: Union[str, Path, TextIO]) -> EncoderScheme:
 def encode(inp: Iterator[str], scheme: EncoderScheme, indices=False) \
         -> Iterator[Union[List[str], List[int]]]:
     for line in inp:
+        line = line.rstrip('\n')  # the line break is not part of the line
         if indices:
             yield scheme.encode(line)
         else:
-- 
2.43.0


From 00f9be81afb47055cc982b84c931378c78de892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:58 +0000
Subject: [PATCH 26/37] fix: learning with existing statistics raised TypeError

---
 nlcodec/learn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..1044cf3 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,12 +72,12 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        paths = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
-                words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
+                words, chars, line_count = word_counts(paths=paths, dedup=dedup, spark=session)
             with utils.IO.writer(words_file) as out:
                 write_stats(words, out, line_count=line_count)
             with utils.IO.writer(chars_file) as out:
-- 
2.43.0


From 5f754c5ea145e9596ad58c79e3467da81ee7c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:53 +0000
Subject: [PATCH 27/37] fix: an interrupted write left an incomplete vocabulary
 that could be loaded

---
 nlcodec/codec.py | 10 ++++------
 nlcodec/utils.py | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index ee3f65b..1f588ed 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -13,7 +13,7 @@ from typing import List, TextIO, Dict, Tuple, Union, Iterator, Optional
 import multiprocessing as mp
 from nlcodec import __version__, log
 from nlcodec.dstruct import TrNode
-from nlcodec.utils import filter_types_coverage, IO
+from nlcodec.utils import filter_types_coverage, IO, replacing
 import os
 import sys
 import random
@@ -112,10 +112,10 @@ class Type:  # Type as in word type vs token
     def write_out(cls, table: List['Type'], out: Union[Path, str, TextIO], **meta):
 
         if isinstance(out, Path) or isinstance(out, str):
-            wrtr = open(out, 'w', encoding='utf8', errors='ignore')
-        else:
-            wrtr = out
+            with replacing(out) as tmp, open(tmp, 'w', encoding='utf8', errors='ignore') as wrtr:
+                return cls.write_out(table, wrtr, **meta)
 
+        wrtr = out
         levels = dict(coll.Counter(v.level for v in table))
         max_level = max(levels.keys())
         header = dict(total=len(table), version=__version__, levels=levels, max_level=max_level,
@@ -126,8 +126,6 @@ class Type:  # Type as in word type vs token
         for i, item in enumerate(table):
             assert i == item.idx, f'{item} expected index {i}'
             wrtr.write(item.format() + '\n')
-        if wrtr is not out:
-            wrtr.close()
         log.info(f"Wrote {len(table)} to {wrtr.name}")
 
     @classmethod
diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..dd5ecb3 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -59,6 +59,23 @@ def as_path(path: Union[str, Path]) -> Path:
     return path
 
 
+@contextmanager
+def replacing(path: Union[str, Path]):
+    """
+    Gives a temporary path for writing, which takes the place of the given path when the block is completed;
+    so an interrupted write never leaves an incomplete file at that path
+    :param path: path to be (over)written
+    """
+    path = as_path(path)
+    if path.exists() and not path.is_file():  # device, pipe
+        yield path
+        return
+    path = path.resolve()  # keep links
+    tmp = path.with_name(f'.tmp-{path.name}')  # keep suffix
+    yield tmp
+    tmp.replace(path)
+
+
 def max_RSS(who=resource.RUSAGE_SELF) -> Tuple[int, str]:
     """Gets memory usage of current process, maximum so far.
     Maximum so far, since the system call API doesnt provide "current"
-- 
2.43.0


From ff9f78a36c67d2058b80f8b2e1f56415be672dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:53 +0000
Subject: [PATCH 28/37] fix: incomplete statistics of an interrupted run were
 reused for learning

---
 nlcodec/learn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index 1044cf3..290db87 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -78,9 +78,10 @@ def main():
         else:
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=paths, dedup=dedup, spark=session)
-            with utils.IO.writer(words_file) as out:
+            # moved into place when complete: only complete stats may be reused
+            with utils.replacing(words_file) as tmp, utils.IO.writer(tmp) as out:
                 write_stats(words, out, line_count=line_count)
-            with utils.IO.writer(chars_file) as out:
+            with utils.replacing(chars_file) as tmp, utils.IO.writer(tmp) as out:
                 write_stats(chars, out, line_count=line_count)
 
     assert stats_file.exists()
-- 
2.43.0


From cb6656b95c385df4f12479662c47cd971e7eb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:57 +0000
Subject: [PATCH 29/37] fix: length-sorted batches of records with ids that are
 not integers

---
 nlcodec/db/core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index e9559a9..e096c01 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -232,23 +232,24 @@ class Db:
         fields = list(self.fields.values())
         rows = []
         skip_counter = defaultdict(int)
-        for _id in self.ids:
+        for idx, _id in enumerate(self.ids):
             lens = tuple(field.get_len(_id) for field in fields)
             if min(lens) < min_len:
                 skip_counter[f'len < {min_len}'] += 1
             else:
-                rows.append((_id, max(lens)))
+                rows.append((idx, int(max(lens))))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
         if not rows:
             return []
-        rows = np.array(rows)  # id, len
+        rows = np.array(rows)  # index of id, len; ids can be of any type
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
         batches = []
         batch = []
         max_len = 0
-        for _id, _len in rows:
+        for idx, _len in rows:
+            _id = self.ids[idx]
             if _len < 1:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
@@ -257,14 +258,14 @@ class Db:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-                batches.append(np.array(batch))
+                batches.append(batch)
                 batch = []  # new batch
                 max_len = 0
 
             batch.append(_id)  # this one can go in
             max_len = max(max_len, _len)
         if batch:
-            batches.append(np.array(batch))
+            batches.append(batch)
         return batches
 
     def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
-- 
2.43.0


From f4ad757d445c5819a2f68c5322869bb861aba5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 30/37] fix: column names given to nlcodec-db were ignored

---
 nlcodec/bitextdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/bitextdb.py b/nlcodec/bitextdb.py
index 777a7f5..274be07 100644
--- a/nlcodec/bitextdb.py
+++ b/nlcodec/bitextdb.py
@@ -27,7 +27,7 @@ def main(args=None):
             src_len=args.src_len, tgt_len=args.tgt_len,
             src_tokenizer=src_codec.encode, tgt_tokenizer=tgt_codec.encode)
         rdd = df.rdd.map(lambda r: (r.id, (r.x, r.y)))
-        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=('x', 'y'),
+        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=[args.src_col, args.tgt_col],
                                   repartition=args.num_parts)
         log.info(f"stored {len(db)} recs at {args.db_path}")
 
-- 
2.43.0


From 64184393326b27be0a65289a05c840bcfa6bb9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:09 +0000
Subject: [PATCH 31/37] fix: compressed files in binary mode, carriage returns
 in compressed text

---
 nlcodec/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index dd5ecb3..91fdf61 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -107,7 +107,11 @@ class IO:
     def __enter__(self):
 
         if self.path.name.endswith(".gz"):  # gzip mode
-            self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+            if 'b' in self.mode:
+                self.fd = gzip.open(self.path, self.mode)
+            else:
+                self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors,
+                                    newline='\n')
         else:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = self.path.open(self.mode)
-- 
2.43.0


From 36f009de1a1122073fea1ed25a1ff644be9bf925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:22 +0000
Subject: [PATCH 32/37] fix: attention masks failed for every batch

---
 nlcodec/db/batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 1c9c092..a96bb0d 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -168,8 +168,8 @@ class Batch:
     @staticmethod
     def make_autogres_mask_(seqs, pad_val: int):
         "Create a mask to hide padding and future words."
-        tgt_mask = (seqs != pad_val).unsqueeze(1)
-        tgt_mask = tgt_mask & subsequent_mask(seqs.size(-1)).type_as(tgt_mask.data)
+        tgt_mask = np.expand_dims(seqs != pad_val, 1)
+        tgt_mask = tgt_mask & subsequent_mask(seqs.shape[-1])
         return tgt_mask
 
 
@@ -184,7 +184,7 @@ def subsequent_mask(size):
     triu = np.triu(ones, k=1)
     # invert it
     mask = triu == 0
-    mask = mask.unsqueeze(0)
+    mask = np.expand_dims(mask, 0)
     return mask
 
 
-- 
2.43.0


From 1e1ac9a07944f6a1d1e2e9bdcd6aee97c1de0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 33/37] fix: prefix trees of long names exceeded the recursion
 limit

---
 nlcodec/dstruct.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nlcodec/dstruct.py b/nlcodec/dstruct.py
index 459cab4..917dca4 100644
--- a/nlcodec/dstruct.py
+++ b/nlcodec/dstruct.py
@@ -90,11 +90,20 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
         self.kids = dict() if kids is None else kids
 
     def get_node(self, idxs, create_missing: bool = True) -> 'TrNode[T, D]':
-        if not idxs:
-            return self
-        if create_missing and idxs[0] not in self.kids:  # make one
-            self.kids[idxs[0]] = TrNode(idx=idxs[0], parent=self)
-        return self.kids[idxs[0]].get_node(idxs=idxs[1:], create_missing=create_missing)
+        node = self
+        for idx in idxs:  # not recursive: names can be longer than the recursion limit
+            if create_missing and idx not in node.kids:  # make one
+                node.kids[idx] = TrNode(idx=idx, parent=node)
+            node = node.kids[idx]
+        return node
+
+    def _nodes(self):
+        """This node and all the nodes below"""
+        stack = [self]
+        while stack:
+            node = stack.pop()
+            yield node
+            stack.extend(node.kids.values())
 
     @property
     def n_kids(self):
@@ -108,11 +117,11 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
     @property
     def size(self):
         """Number of nodes in the tree at this node. Counts self and all the kids"""
-        return 1 + sum(k.size for k in self.kids.values())
+        return sum(1 for _ in self._nodes())
 
     @property
     def data_node_count(self):
-        return (1 if self.has_data else 0) + sum(k.data_node_count for k in self.kids.values())
+        return sum(1 for node in self._nodes() if node.has_data)
 
 
 class MaxHeap:
-- 
2.43.0


From f8ebd8f93d5eca195990767604b52b0a2ec352b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:55 +0000
Subject: [PATCH 34/37] fix: a failed write left its temporary file behind

---
 nlcodec/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 91fdf61..4b2f9c7 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -72,8 +72,12 @@ def replacing(path: Union[str, Path]):
         return
     path = path.resolve()  # keep links
     tmp = path.with_name(f'.tmp-{path.name}')  # keep suffix
-    yield tmp
-    tmp.replace(path)
+    try:
+        yield tmp
+        tmp.replace(path)
+    finally:
+        if tmp.exists():  # not completed
+            tmp.unlink()
 
 
 def max_RSS(who=resource.RUSAGE_SELF) -> Tuple[int, str]:
-- 
2.43.0


From 48fef8a4d6b383ca0ea54f0c14b2d6dd26d18a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:35 +0000
Subject: [PATCH 35/37] fix: commands split lines at carriage returns

---
 nlcodec/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nlcodec/__main__.py b/nlcodec/__main__.py
index 1db932b..c099a9e 100644
--- a/nlcodec/__main__.py
+++ b/nlcodec/__main__.py
@@ -74,6 +74,9 @@ def parse_args() -> Dict[str, Any]:
                                  ' Valid when --task=learn and --level=bpe')
 
     args = vars(p.parse_args())
+    for stream in (args['inp'], args['out']):
+        if hasattr(stream, 'reconfigure'):  # lines end at line feeds only, carriage returns are text
+            stream.reconfigure(newline='\n')
     return args
 
 
-- 
2.43.0


From 61e252198db9f521c98a6c4848a3e63c3876d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:50 +0000
Subject: [PATCH 36/37] fix: measuring programs split lines at carriage returns

---
 nlcodec/__main__.py        | 5 ++---
 nlcodec/eval/bpe_len.py    | 6 ++++--
 nlcodec/eval/pr_measure.py | 3 ++-
 nlcodec/eval/termfreq.py   | 3 ++-
 nlcodec/qestim.py          | 5 ++++-
 nlcodec/utils.py           | 7 +++++++
 6 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/nlcodec/__main__.py b/nlcodec/__main__.py
index c099a9e..8addcfa 100644
--- a/nlcodec/__main__.py
+++ b/nlcodec/__main__.py
@@ -9,6 +9,7 @@ from pathlib import Path
 
 from nlcodec import learn_vocab, load_scheme, encode, decode, log
 from nlcodec import __version__, __description__, __epilog__
+from nlcodec.utils import line_feeds
 from nlcodec import DEF_WORD_MIN_FREQ, DEF_CHAR_MIN_FREQ, DEF_CHAR_COVERAGE, DEF_MIN_CO_EV
 
 
@@ -74,9 +75,7 @@ def parse_args() -> Dict[str, Any]:
                                  ' Valid when --task=learn and --level=bpe')
 
     args = vars(p.parse_args())
-    for stream in (args['inp'], args['out']):
-        if hasattr(stream, 'reconfigure'):  # lines end at line feeds only, carriage returns are text
-            stream.reconfigure(newline='\n')
+    line_feeds(args['inp'], args['out'])
     return args
 
 
diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 2a9ac82..ab8bbce 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -14,7 +14,7 @@ from tqdm import tqdm
 
 from nlcodec import log, BPEScheme, Type, Level
 from nlcodec.bpe import Bigram, LnNode
-from nlcodec.utils import max_RSS
+from nlcodec.utils import max_RSS, line_feeds
 
 NDArray = np.ndarray
 
@@ -207,7 +207,9 @@ def parse_args():
                    required=True, help='Path to codec vocabulary')
     p.add_argument('-d', '--data', type=argparse.FileType('r'), default=sys.stdin,
                    help='Input data file path')
-    return vars(p.parse_args())
+    args = vars(p.parse_args())
+    line_feeds(args['data'])
+    return args
 
 
 def main():
diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index f9f9e29..32057f7 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -8,7 +8,7 @@ import sys
 import logging as log
 import io
 import collections as coll
-from nlcodec.utils import make_n_grams, make_n_grams_all
+from nlcodec.utils import make_n_grams, make_n_grams_all, line_feeds
 from nlcodec import load_scheme, EncoderScheme
 from pathlib import Path
 import json
@@ -125,6 +125,7 @@ def parse_args():
     args = vars(p.parse_args())
     assert not (args['cands'] == args['refs'] == stdin), \
         'Only one of --refs and --cands can be read from STDIN'
+    line_feeds(args['cands'], args['refs'], args['freqs'])
     return args
 
 
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 34dd60d..181f7a8 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -9,7 +9,7 @@ import logging as log
 from pathlib import Path
 from nlcodec import load_scheme, EncoderScheme
 from typing import Iterator
-from nlcodec.utils import make_n_grams_all
+from nlcodec.utils import make_n_grams_all, line_feeds
 import json
 from tqdm import tqdm
 
@@ -55,4 +55,5 @@ if __name__ == '__main__':
                    help="model aka vocabulary file")
     p.add_argument('-n', '--n', type=int, default=1, help='maximum n as in n-gram.')
     args = vars(p.parse_args())
+    line_feeds(args['inp'])
     main(**args)
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 47d2d44..ecc88f2 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -14,6 +14,7 @@ import numpy as np
 from tqdm import tqdm
 
 from nlcodec import EncoderScheme, log, load_scheme
+from nlcodec.utils import line_feeds
 
 NDArray = np.ndarray
 
@@ -129,7 +130,9 @@ def parse_args():
                    required=True, help='Path to codec vocabulary')
     p.add_argument('-d', '--data', type=argparse.FileType('r'), default=sys.stdin,
                    help='Input data file path')
-    return vars(p.parse_args())
+    args = vars(p.parse_args())
+    line_feeds(args['data'])
+    return args
 
 
 def main():
diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 4b2f9c7..8117c83 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -148,6 +148,13 @@ class IO:
                 yield from stream
 
 
+def line_feeds(*streams):
+    """makes lines of opened text streams end at line feeds only: carriage returns are text"""
+    for stream in streams:
+        if hasattr(stream, 'reconfigure'):
+            stream.reconfigure(newline='\n')
+
+
 @contextmanager
 def log_resources(name=""):
     """
-- 
2.43.0


From 44b9134d799e957c9d01581a5a2ce9f03afc3eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:07 +0000
Subject: [PATCH 37/37] fix: measuring programs counted line breaks as tokens
 of byte codecs

---
 nlcodec/eval/pr_measure.py | 4 ++--
 nlcodec/eval/termfreq.py   | 2 +-
 nlcodec/qestim.py          | 5 ++---
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 32057f7..eda79a0 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -56,8 +56,8 @@ def main(model_path, cands, refs, n, out, freqs=None):
     cands, refs = list(cands), list(refs)
     assert len(cands) == len(refs), f'cands: {len(cands)} but refs: {len(refs)} lines'
 
-    cands = list(codec.encode_parallel(cands))
-    refs = list(codec.encode_parallel(refs))
+    cands = list(codec.encode_parallel(line.rstrip('\n') for line in cands))
+    refs = list(codec.encode_parallel(line.rstrip('\n') for line in refs))
     gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 181f7a8..8f945b2 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -34,7 +34,7 @@ def encode_all(inp : Iterator[str], scheme: EncoderScheme, index=True):
 
 def main(inp, out, n, model_path):
     scheme = load_scheme(model_path)
-    seqs = scheme.encode_parallel(inp)
+    seqs = scheme.encode_parallel(line.rstrip('\n') for line in inp)
     freqs = make_n_grams_all(seqs, n)
     freqs = sorted(freqs.items(), key=lambda x:x[1], reverse=True)
     for gram, freq in freqs:
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index ecc88f2..8a7e1d0 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -13,7 +13,7 @@ from typing import Iterator, List, Any
 import numpy as np
 from tqdm import tqdm
 
-from nlcodec import EncoderScheme, log, load_scheme
+from nlcodec import EncoderScheme, log, load_scheme, encode
 from nlcodec.utils import line_feeds
 
 NDArray = np.ndarray
@@ -34,8 +34,7 @@ class QualityEstimator:
         self.codec = codec
 
     def estimate(self, lines: Iterator[str]) -> CodecQuality:
-        seqs = (self.codec.encode(line) for line in lines)
-        return self._estimate(seqs)
+        return self._estimate(encode(lines, self.codec, indices=True))
 
     @staticmethod
     def validate_distribution(distr):
-- 
2.43.0

