From 9bfafce7babde3b0ab86fd2bb25d17a5af9220a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 01/40] fix: return no empty neighbors when fewer than k words
 match

The guard kept scanning after the first empty slot and so cut the result
at the last one, leaving empty entries in front of it.
---
 pkg/search/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..0dd49dc 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -129,6 +129,7 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	for i := 0; i < len(neighbors); i++ {
 		if neighbors[i].Word == "" {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From db10d01f0b4cdc93a4b1b06681ab72baa73565bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 02/40] fix: do not panic when searching for zero or fewer
 neighbors

---
 pkg/search/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 0dd49dc..9015013 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,9 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	if k <= 0 {
+		return Neighbors{}, nil
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
-- 
2.43.0


From f416e88f1fb621a543004c5bdca1b2c7bbd5ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 03/40] fix: report a query vector of another dimension as an
 error

A longer query made the search panic, a shorter one was silently compared
with a prefix of the stored vectors.
---
 pkg/search/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 9015013..6211e2b 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -112,6 +112,10 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 			continue
 		}
 
+		if len(query.Vector) != len(item.Vector) {
+			return nil, errors.Errorf("dimension of query must be the same as the one of %s: %d but got %d", item.Word, len(item.Vector), len(query.Vector))
+		}
+
 		score := searchutil.Cosine(query.Vector, item.Vector, query.Norm, item.Norm)
 		// ignore current word if it's similarity is below the lowest score.
 		if score > low {
-- 
2.43.0


From 2b81653d2e30757dca5e2d9b3ad9622458323b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 04/40] fix: report write errors when saving word vectors

Save returned nil although the destination had rejected the data.
---
 pkg/model/modelutil/vector/vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..1475cc0 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -61,6 +60,10 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		})
 	}
 	writer.WriteString(fmt.Sprintf("%v", buf.String()))
+	// reports the first error of all writes.
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-- 
2.43.0


From 8a135c42817c216223b10144bfcab7798d72ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 05/40] fix: load vectors whose line exceeds 64KB

Saved vectors of some thousands of dimensions could not be loaded again
(bufio.Scanner: token too long).
---
 pkg/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..492bf54 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,8 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	// vectors of any dimension are on a single line.
+	s.Buffer(nil, math.MaxInt)
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From 692b09b145766ff27f50495c27c5371abf14f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 06/40] fix: report a corpus source that cannot be rewound

The ignored error made the following pass read nothing and succeed.
---
 pkg/corpus/cpsutil/cpsutil.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..28c8a23 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -28,7 +28,9 @@ func scanner(r io.Reader) *bufio.Scanner {
 }
 
 func ReadWord(r io.ReadSeeker, fn func(string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	for scanner.Scan() {
 		if err := fn(scanner.Text()); err != nil {
@@ -44,7 +46,9 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	var (
 		axis string
-- 
2.43.0


From fa93e44b9e5d4b3457234acce0e3b23fce711234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 07/40] fix: read every forward context at the end of the text

For windows of 3 and more the pairs of the last words were skipped, texts
shorter than the window were padded with empty words (counted as the word
with id 0), and a single word or a zero window panicked.
---
 pkg/corpus/cpsutil/cpsutil.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 28c8a23..cded274 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -65,16 +65,21 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 	for {
 		if axis == "" {
 			if !scanner.Scan() {
+				ws = nil
 				break
 			}
 			axis = scanner.Text()
 			for i := 0; i < n; i++ {
 				if !scanner.Scan() {
+					ws = ws[:i]
 					break
 				}
 				ws[i] = scanner.Text()
 			}
 		} else {
+			if len(ws) == 0 {
+				break
+			}
 			axis = ws[0]
 			ws = ws[1:]
 			if !scanner.Scan() {
@@ -89,6 +94,13 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 	if err := postFn(); err != nil {
 		return err
 	}
+	// no word is left to read, the window shrinks to the end of the text.
+	for len(ws) > 0 {
+		axis, ws = ws[0], ws[1:]
+		if err := postFn(); err != nil {
+			return err
+		}
+	}
 
 	if err := scanner.Err(); err != nil && err != io.EOF {
 		return err
-- 
2.43.0


From b240f7d334f3c665bd8e0f47a1f8879e781223ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 08/40] fix: lower-case words also when counting co-occurrence
 from the file

Upper-case words were looked up as they are, not found, and counted as
the word with id 0.
---
 pkg/corpus/fs/fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..c17f809 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From 7b06df3f85d51c7cf897950897de1033684ef0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 09/40] fix: weight proximity co-occurrence by the distance on
 the text

The difference of the word ids was taken for the distance: the counts
depended on the order in which words first appear and training failed as
soon as a word occurred twice within the window.
---
 pkg/corpus/cooccurrence/cooccurrence.go | 11 +++++++++++
 pkg/corpus/cpsutil/cpsutil.go           | 11 +++++++++--
 pkg/corpus/fs/fs.go                     |  4 ++--
 pkg/corpus/memory/memory.go             |  2 +-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkg/corpus/cooccurrence/cooccurrence.go b/pkg/corpus/cooccurrence/cooccurrence.go
index 6cd2449..bb5cc15 100644
--- a/pkg/corpus/cooccurrence/cooccurrence.go
+++ b/pkg/corpus/cooccurrence/cooccurrence.go
@@ -73,3 +73,14 @@ func (c *Cooccurrence) Add(left, right int) error {
 	c.ma[enc] += val
 	return nil
 }
+
+// AddWithDistance counts two words which are distance words apart on the text.
+func (c *Cooccurrence) AddWithDistance(left, right, distance int) error {
+	if c.typ != Proximity {
+		return c.Add(left, right)
+	} else if distance == 0 {
+		return errors.Errorf("Divide by zero on counting co-occurrence")
+	}
+	c.ma[encode.EncodeBigram(uint64(left), uint64(right))] += 1. / math.Abs(float64(distance))
+	return nil
+}
diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index cded274..2c75101 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,6 +46,13 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
+	return ReadWordWithForwardDistance(r, n, func(w1, w2 string, _ int) error {
+		return fn(w1, w2)
+	})
+}
+
+// ReadWordWithForwardDistance also tells how many words both words are apart.
+func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
 	if _, err := r.Seek(0, 0); err != nil {
 		return err
 	}
@@ -55,8 +62,8 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 		ws   []string = make([]string, n)
 	)
 	postFn := func() error {
-		for _, w := range ws {
-			if err := fn(axis, w); err != nil {
+		for i, w := range ws {
+			if err := fn(axis, w, i+1); err != nil {
 				return err
 			}
 		}
diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c17f809..9595a48 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -130,13 +130,13 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			return err
 		}
 
-		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+		if err = cpsutil.ReadWordWithForwardDistance(c.doc, with.Window, func(w1, w2 string, distance int) error {
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
-			if err := c.cooc.Add(id1, id2); err != nil {
+			if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {
 				return err
 			}
 			cursor++
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 41c5f2e..5ff5845 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -118,7 +118,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
-				if err = c.cooc.Add(c.idoc[i], c.idoc[j]); err != nil {
+				if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
 				cursor++
-- 
2.43.0


From 0145d9df7cf2da95c937c05e26aa06b3fe465983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 10/40] fix: apply the frequency limits to co-occurrence as
 well

The limits given by min-count and max-count had no effect on GloVe.
---
 pkg/corpus/fs/fs.go         | 3 +++
 pkg/corpus/memory/memory.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 9595a48..70acb5e 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -136,6 +136,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
+			if c.filters.Any(id1, c.dic) || c.filters.Any(id2, c.dic) {
+				return nil
+			}
 			if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {
 				return err
 			}
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 5ff5845..43bb63d 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -118,6 +118,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
+				if c.filters.Any(c.idoc[i], c.dic) || c.filters.Any(c.idoc[j], c.dic) {
+					continue
+				}
 				if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
-- 
2.43.0


From 98cc2d6429fdf634777fe50aef0d3ca5b4e40dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 11/40] fix: fail instead of hang when the corpus cannot be
 read while training

After a read error the channel of batches was never closed and training
waited forever; the error itself was dropped.
---
 pkg/corpus/fs/fs.go            | 3 ++-
 pkg/model/lexvec/lexvec.go     | 8 +++++++-
 pkg/model/word2vec/word2vec.go | 8 +++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 70acb5e..e9af68a 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,8 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	// the consumer must not wait for further batches in case of errors.
+	defer close(ch)
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +82,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..24fbbba 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -158,7 +158,10 @@ func (l *lexvec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, l.opts.Goroutines)
-		go l.corpus.BatchWords(in, l.opts.BatchSize)
+		read := make(chan error, 1)
+		go func() {
+			read <- l.corpus.BatchWords(in, l.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
@@ -166,6 +169,9 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-read; err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..41b8384 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -167,7 +167,10 @@ func (w *word2vec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, w.opts.Goroutines)
-		go w.corpus.BatchWords(in, w.opts.BatchSize)
+		read := make(chan error, 1)
+		go func() {
+			read <- w.corpus.BatchWords(in, w.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
@@ -175,6 +178,9 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-read; err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 45a4c84584618b8cf2129c3fdcabceb5cf7e151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 12/40] fix: never let the learning rate fall below its minimum

The minimum was compared with the previous rate, so a rate below it (zero at
the end of each iteration) was in use until the next update, and the update
after that left the minimum again.
---
 pkg/model/lexvec/lexvec.go     | 8 ++++----
 pkg/model/word2vec/word2vec.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 24fbbba..2530981 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -242,11 +242,11 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
-			if l.currentlr < l.opts.MinLR {
-				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			if lr < l.opts.MinLR {
+				lr = l.opts.MinLR
 			}
+			l.currentlr = lr
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 41b8384..efcfdfd 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -215,11 +215,11 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
-			if w.currentlr < w.opts.MinLR {
-				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			lr := w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			if lr < w.opts.MinLR {
+				lr = w.opts.MinLR
 			}
+			w.currentlr = lr
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From c550242a1cb96a8834f80c3bc30ae9a881148430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 13/40] fix: update the same context words that CBOW has
 aggregated

The window was drawn twice: the error of a prediction was propagated to words
that had no part in it and not to all of those that had.
---
 pkg/model/word2vec/model.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..631208c 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,21 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	// the words to be updated are the ones which are aggregated.
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
 	pos int,
+	del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From 9505bdd1bd8a4424e65516be29c91059442b993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 14/40] fix: build the cached path of a huffman leaf only once

Workers share the leaves: one could see the path while another was still
building it, and two building it at once left a corrupted path for good.
---
 pkg/corpus/dictionary/node/node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..3b7bb4d 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -14,7 +14,12 @@
 
 package node
 
+import (
+	"sync"
+)
+
 type Node struct {
+	once   sync.Once
 	cache  []*Node
 	Parent *Node
 	Val    int
@@ -24,7 +29,7 @@ type Node struct {
 }
 
 func (n *Node) GetPath(depth int) []*Node {
-	if n.cache == nil {
+	n.once.Do(func() {
 		re := func(nodes []*Node) {
 			for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
 				nodes[i], nodes[j] = nodes[j], nodes[i]
@@ -35,7 +40,7 @@ func (n *Node) GetPath(depth int) []*Node {
 			n.cache = append(n.cache, p)
 		}
 		re(n.cache)
-	}
+	})
 	if depth > len(n.cache) {
 		depth = len(n.cache)
 	}
-- 
2.43.0


From 1b4d870773c83e42c4b83b01041fb49527da0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 15/40] fix: track the full huffman path for max-depth=0

That is what the flag documents, but the path was empty and nothing was
trained.
---
 pkg/corpus/dictionary/node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 3b7bb4d..95b3ce1 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -41,7 +41,7 @@ func (n *Node) GetPath(depth int) []*Node {
 		}
 		re(n.cache)
 	})
-	if depth > len(n.cache) {
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
 	return n.cache[:depth]
-- 
2.43.0


From 15f56e501e725c17dfd4b6eb80dfb5b5b7c06f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 16/40] fix: keep sigmoid within its table

For the largest values below max_exp the index was rounded up to the table
size, which crashed training.
---
 pkg/model/word2vec/sigmoid_table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..65b9eb3 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -41,5 +41,12 @@ func newSigmoidTable() *sigmoidTable {
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
 // If you set x to over |max_exp|, it raises index out of range error.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	// x next to max_exp is rounded up, and NaN has no index.
+	if i >= s.expTableSize {
+		i = s.expTableSize - 1
+	} else if i < 0 {
+		i = 0
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From 3935a00e683bbbbad86c86b700d4634b8e6dcd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 17/40] fix: export single and aggregated vectors of GloVe and
 LexVec as named

They were swapped: agg was the word vector alone and single was the sum of
word and context vector.
---
 pkg/model/glove/glove.go   | 2 +-
 pkg/model/lexvec/lexvec.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..77bebc7 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -181,7 +181,7 @@ func (g *glove) Save(f io.Writer, typ vector.Type) error {
 func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := g.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 2530981..90781e5 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -266,7 +266,7 @@ func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
 func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := l.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-- 
2.43.0


From 208e05c9f412f0e9834be160550b3ef014a5d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 18/40] fix: reject an unknown vector type on saving

---
 pkg/model/glove/glove.go       | 3 +++
 pkg/model/lexvec/lexvec.go     | 3 +++
 pkg/model/word2vec/word2vec.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 77bebc7..1bf3043 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -175,6 +175,9 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 90781e5..cf3c6c5 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -260,6 +260,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index efcfdfd..87b19b2 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -233,6 +233,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if typ != vector.Single && typ != vector.Agg {
+		return vector.InvalidTypeError(typ)
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
-- 
2.43.0


From b7bb58a699fe80c5e9eb821288e95d5f6700c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 19/40] fix: discard frequent words on subsampling, not rare
 ones

The probability to discard was used as the probability to train, and the
absolute count was compared with the threshold on the relative frequency.
---
 pkg/model/modelutil/subsample/subsample.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/model/modelutil/subsample/subsample.go b/pkg/model/modelutil/subsample/subsample.go
index 9510cbd..814e71e 100644
--- a/pkg/model/modelutil/subsample/subsample.go
+++ b/pkg/model/modelutil/subsample/subsample.go
@@ -29,10 +29,15 @@ func New(
 	dic *dictionary.Dictionary,
 	threshold float64,
 ) *Subsampler {
+	var total int
+	for i := 0; i < dic.Len(); i++ {
+		total += dic.IDFreq(i)
+	}
 	samples := make([]float64, dic.Len())
 	for i := 0; i < dic.Len(); i++ {
-		z := 1. - math.Sqrt(threshold/float64(dic.IDFreq(i)))
-		if z < 0 {
+		// probability to discard, subsampling is disabled for threshold=0.
+		z := 1. - math.Sqrt(threshold*float64(total)/float64(dic.IDFreq(i)))
+		if z < 0 || threshold <= 0 {
 			z = 0
 		}
 		samples[i] = z
@@ -45,7 +50,7 @@ func New(
 func (s *Subsampler) Trial(id int) bool {
 	bernoulliTrial := rand.Float64()
 	var ok bool
-	if s.samples[id] > bernoulliTrial {
+	if s.samples[id] <= bernoulliTrial {
 		ok = true
 	}
 	return ok
-- 
2.43.0


From e426b219ebed31a0e1f26a9388aacc506d3ecb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 20/40] fix: fit LexVec to the context vector of co-occurring
 words

Negative samples were already trained on context vectors, the co-occurring
words were trained on their word vectors instead.
---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index cf3c6c5..043854f 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -214,7 +214,7 @@ func (l *lexvec) trainOne(doc []int, pos int, items map[uint64]float64) {
 			continue
 		}
 		enc := encode.EncodeBigram(uint64(doc[pos]), uint64(doc[c]))
-		l.update(doc[pos], doc[c], items[enc])
+		l.update(doc[pos], doc[c]+dic.Len(), items[enc])
 		for n := 0; n < l.opts.NegativeSampleSize; n++ {
 			sample := modelutil.NextRandom(dic.Len())
 			enc := encode.EncodeBigram(uint64(doc[pos]), uint64(sample))
-- 
2.43.0


From 17c58e28c62cdd100064b1ee980b5eacb40f0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 21/40] fix: leave the console at the end of input

It kept printing the error forever.
---
 pkg/search/console/console.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..c3f6824 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -19,6 +19,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -65,6 +66,9 @@ func (c *Console) Run() error {
 	defer c.Close()
 	for {
 		l, err := c.Prompt(">> ")
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			fmt.Println("error: ", err)
 		}
-- 
2.43.0


From 529bdb9c08efeddc2b9172a985a8f7bfa868cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 22/40] fix: report an invalid right-hand side in the console

The error was dropped and an empty result printed.
---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index c3f6824..a49a63d 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -140,7 +140,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From 80167751c30ab9ad95531a67c1b36e259a2b0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 23/40] fix: start training again with the initial learning
 rate

A second training of the same model began with the rate left by the first.
---
 pkg/model/lexvec/lexvec.go     | 1 +
 pkg/model/word2vec/word2vec.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 043854f..8b8f4a2 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -71,6 +71,7 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (l *lexvec) Train(r io.ReadSeeker) error {
+	l.currentlr = l.opts.Initlr
 	if l.opts.DocInMemory {
 		l.corpus = memory.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
 	} else {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 87b19b2..6907a15 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -72,6 +72,7 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (w *word2vec) Train(r io.ReadSeeker) error {
+	w.currentlr = w.opts.Initlr
 	if w.opts.DocInMemory {
 		w.corpus = memory.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
 	} else {
-- 
2.43.0


From 013ab9c65dd02c341b97aeb9bb44bbeb1a96e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 24/40] fix: wait for the observer at the end of each iteration

It could still update the learning rate in the following iteration or
training, and its last report could get lost.
---
 pkg/model/glove/glove.go       |  7 ++++++-
 pkg/model/lexvec/lexvec.go     | 14 ++++++++++++--
 pkg/model/word2vec/word2vec.go | 14 ++++++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 1bf3043..6e13797 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -117,7 +117,11 @@ func (g *glove) train() error {
 
 	for i := 0; i < g.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go g.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			g.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(g.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -130,6 +134,7 @@ func (g *glove) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 8b8f4a2..3f13bb2 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -128,7 +128,11 @@ func (l *lexvec) train() error {
 
 	for i := 1; i <= l.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			l.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -141,6 +145,7 @@ func (l *lexvec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -153,7 +158,11 @@ func (l *lexvec) batchTrain() error {
 
 	for i := 1; i <= l.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			l.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -170,6 +179,7 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-read; err != nil {
 			return err
 		}
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 6907a15..923aa80 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -142,7 +142,11 @@ func (w *word2vec) train() error {
 
 	for i := 1; i <= w.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			w.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -155,6 +159,7 @@ func (w *word2vec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -162,7 +167,11 @@ func (w *word2vec) train() error {
 func (w *word2vec) batchTrain() error {
 	for i := 1; i <= w.opts.Iter; i++ {
 		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		observed := make(chan struct{})
+		go func() {
+			w.observe(trained, clk)
+			close(observed)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -179,6 +188,7 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-read; err != nil {
 			return err
 		}
-- 
2.43.0


From ac11a1f601ddd77a1ce732e046162a4208a232eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 25/40] fix: leave no output file behind when a command fails

An empty file was left, because of which the next attempt refused to run.
---
 cmd/model/glove/glove.go       | 16 +++++++++++++++-
 cmd/model/lexvec/lexvec.go     | 16 +++++++++++++++-
 cmd/model/word2vec/word2vec.go | 16 +++++++++++++++-
 3 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index fb73414..2e6294b 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -79,6 +79,13 @@ func execute(opts glove.Options) error {
 	if err != nil {
 		return err
 	}
+	saved := false
+	defer func() {
+		output.Close()
+		if !saved {
+			os.Remove(outputFile)
+		}
+	}()
 	input, err := os.Open(inputFile)
 	if err != nil {
 		return err
@@ -91,5 +98,12 @@ func execute(opts glove.Options) error {
 	if err := mod.Train(input); err != nil {
 		return err
 	}
-	return mod.Save(output, vectorType)
+	if err := mod.Save(output, vectorType); err != nil {
+		return err
+	}
+	if err := output.Close(); err != nil {
+		return err
+	}
+	saved = true
+	return nil
 }
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index 97f369c..c01df5a 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -79,6 +79,13 @@ func execute(opts lexvec.Options) error {
 	if err != nil {
 		return err
 	}
+	saved := false
+	defer func() {
+		output.Close()
+		if !saved {
+			os.Remove(outputFile)
+		}
+	}()
 	input, err := os.Open(inputFile)
 	if err != nil {
 		return err
@@ -91,5 +98,12 @@ func execute(opts lexvec.Options) error {
 	if err := mod.Train(input); err != nil {
 		return err
 	}
-	return mod.Save(output, vectorType)
+	if err := mod.Save(output, vectorType); err != nil {
+		return err
+	}
+	if err := output.Close(); err != nil {
+		return err
+	}
+	saved = true
+	return nil
 }
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index d6c6ae6..94b4ef2 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -79,6 +79,13 @@ func execute(opts word2vec.Options) error {
 	if err != nil {
 		return err
 	}
+	saved := false
+	defer func() {
+		output.Close()
+		if !saved {
+			os.Remove(outputFile)
+		}
+	}()
 	input, err := os.Open(inputFile)
 	if err != nil {
 		return err
@@ -91,5 +98,12 @@ func execute(opts word2vec.Options) error {
 	if err := mod.Train(input); err != nil {
 		return err
 	}
-	return mod.Save(output, vectorType)
+	if err := mod.Save(output, vectorType); err != nil {
+		return err
+	}
+	if err := output.Close(); err != nil {
+		return err
+	}
+	saved = true
+	return nil
 }
-- 
2.43.0


From bab4a3ae76e35f7554fd99a6da9b2bb723003b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 26/40] fix: log every log-batch words while LexVec loads the
 corpus

The batch size for training was used, which need not be set in memory.
---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 3f13bb2..8125a0b 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -83,7 +83,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 			CountType: co.Increment,
 			Window:    l.opts.Window,
 		},
-		l.verbose, l.opts.BatchSize,
+		l.verbose, l.opts.LogBatch,
 	); err != nil {
 		return err
 	}
-- 
2.43.0


From 6ebcb60b4ec6738f454cde0e9da0181f001e72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 27/40] fix: reject options out of range instead of crashing or
 hanging

A zero window, batch size or update interval, a zero or negative number of
goroutines or a negative dimension panicked in the midst of training or
blocked it forever.
---
 pkg/model/glove/glove.go       |  4 +++-
 pkg/model/glove/options.go     | 14 ++++++++++++++
 pkg/model/lexvec/lexvec.go     |  4 +++-
 pkg/model/lexvec/options.go    | 18 ++++++++++++++++++
 pkg/model/word2vec/options.go  | 18 ++++++++++++++++++
 pkg/model/word2vec/word2vec.go |  4 +++-
 6 files changed, 59 insertions(+), 3 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 6e13797..86bf2ba 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -56,7 +56,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &glove{
 		opts: opts,
diff --git a/pkg/model/glove/options.go b/pkg/model/glove/options.go
index a39aa90..ec092ed 100644
--- a/pkg/model/glove/options.go
+++ b/pkg/model/glove/options.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 )
@@ -90,6 +91,19 @@ func DefaultOptions() Options {
 	}
 }
 
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("dim must be over 0, got %d", opts.Dim)
+	} else if opts.Goroutines < 1 {
+		return errors.Errorf("goroutines must be over 0, got %d", opts.Goroutines)
+	} else if opts.Window < 1 {
+		return errors.Errorf("window must be over 0, got %d", opts.Window)
+	} else if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("log-batch must be over 0, got %d", opts.LogBatch)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().Float64Var(&opts.Alpha, "alpha", defaultAlpha, "exponent of weighting function")
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 8125a0b..b9de6b0 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -59,7 +59,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &lexvec{
 		opts: opts,
diff --git a/pkg/model/lexvec/options.go b/pkg/model/lexvec/options.go
index 3e0cf7d..e8e1168 100644
--- a/pkg/model/lexvec/options.go
+++ b/pkg/model/lexvec/options.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -94,6 +95,23 @@ func DefaultOptions() Options {
 		Window:             defaultWindow,
 	}
 }
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("dim must be over 0, got %d", opts.Dim)
+	} else if opts.Goroutines < 1 {
+		return errors.Errorf("goroutines must be over 0, got %d", opts.Goroutines)
+	} else if opts.Window < 1 {
+		return errors.Errorf("window must be over 0, got %d", opts.Window)
+	} else if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("log-batch must be over 0, got %d", opts.LogBatch)
+	} else if opts.UpdateLRBatch < 1 {
+		return errors.Errorf("update-lr-batch must be over 0, got %d", opts.UpdateLRBatch)
+	} else if !opts.DocInMemory && opts.BatchSize < 1 {
+		return errors.Errorf("batch must be over 0, got %d", opts.BatchSize)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/options.go b/pkg/model/word2vec/options.go
index 34e1583..fddc2ed 100644
--- a/pkg/model/word2vec/options.go
+++ b/pkg/model/word2vec/options.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -103,6 +104,23 @@ func DefaultOptions() Options {
 	}
 }
 
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("dim must be over 0, got %d", opts.Dim)
+	} else if opts.Goroutines < 1 {
+		return errors.Errorf("goroutines must be over 0, got %d", opts.Goroutines)
+	} else if opts.Window < 1 {
+		return errors.Errorf("window must be over 0, got %d", opts.Window)
+	} else if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("log-batch must be over 0, got %d", opts.LogBatch)
+	} else if opts.UpdateLRBatch < 1 {
+		return errors.Errorf("update-lr-batch must be over 0, got %d", opts.UpdateLRBatch)
+	} else if !opts.DocInMemory && opts.BatchSize < 1 {
+		return errors.Errorf("batch must be over 0, got %d", opts.BatchSize)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 923aa80..ab481c4 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -60,7 +60,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &word2vec{
 		opts: opts,
-- 
2.43.0


From b8e8a9d2427b5fb2e972d5f02ecf56f4f6a351ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 28/40] fix: report negative ids as absent from the dictionary

---
 pkg/corpus/dictionary/dictionary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/dictionary.go b/pkg/corpus/dictionary/dictionary.go
index f91ad5a..a741ed8 100644
--- a/pkg/corpus/dictionary/dictionary.go
+++ b/pkg/corpus/dictionary/dictionary.go
@@ -54,14 +54,14 @@ func (d *Dictionary) WordFreq(word string) int {
 }
 
 func (d *Dictionary) Word(id int) (string, bool) {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return "", false
 	}
 	return d.id2word[id], true
 }
 
 func (d *Dictionary) IDFreq(id int) int {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return 0
 	}
 	return d.cfs[id]
-- 
2.43.0


From 2b5670563c1903f007473feae3d664da5047729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 29/40] fix: read words longer than 64KB from the corpus

---
 pkg/corpus/cpsutil/cpsutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 2c75101..ab5db71 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -17,6 +17,7 @@ package cpsutil
 import (
 	"bufio"
 	"io"
+	"math"
 
 	"github.com/ynqa/wego/pkg/corpus/dictionary"
 )
@@ -24,6 +25,8 @@ import (
 func scanner(r io.Reader) *bufio.Scanner {
 	s := bufio.NewScanner(r)
 	s.Split(bufio.ScanWords)
+	// a word is not limited to 64KB.
+	s.Buffer(nil, math.MaxInt)
 	return s
 }
 
-- 
2.43.0


From ee1f6b978829e00db372867427348201d24e5ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 30/40] fix: reject an unknown relation type for LexVec also
 without any co-occurrence

---
 pkg/model/lexvec/options.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/options.go b/pkg/model/lexvec/options.go
index e8e1168..21a0c65 100644
--- a/pkg/model/lexvec/options.go
+++ b/pkg/model/lexvec/options.go
@@ -109,7 +109,12 @@ func (opts Options) validate() error {
 	} else if !opts.DocInMemory && opts.BatchSize < 1 {
 		return errors.Errorf("batch must be over 0, got %d", opts.BatchSize)
 	}
-	return nil
+	switch opts.RelationType {
+	case PPMI, PMI, Collocation, LogCollocation:
+		return nil
+	default:
+		return errors.Errorf("invalid relation type: %s not in %s|%s|%s|%s", opts.RelationType, PPMI, PMI, Collocation, LogCollocation)
+	}
 }
 
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
-- 
2.43.0


From 268f6d2170d1c8fb4e9d50b50e56618e4e1dfe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 31/40] fix: create the output file only if it does not exist
 yet

Two commands with the same output that started at the same time both passed the check for an existing file; one of them then truncated or removed what the other had saved and reported as a success.
---
 cmd/model/glove/glove.go       | 2 +-
 cmd/model/lexvec/lexvec.go     | 2 +-
 cmd/model/word2vec/word2vec.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index 2e6294b..6ef2e84 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -75,7 +75,7 @@ func execute(opts glove.Options) error {
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
+	output, err := os.OpenFile(outputFile, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index c01df5a..c6498ec 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -75,7 +75,7 @@ func execute(opts lexvec.Options) error {
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
+	output, err := os.OpenFile(outputFile, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index 94b4ef2..9d30034 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -75,7 +75,7 @@ func execute(opts word2vec.Options) error {
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
+	output, err := os.OpenFile(outputFile, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From be37e1c139b7546f0cf441ca033b4cb14f7adf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 32/40] fix: end the console when its input cannot be read

---
 pkg/search/console/console.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index a49a63d..3de4e9c 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -70,7 +70,8 @@ func (c *Console) Run() error {
 			return nil
 		}
 		if err != nil {
-			fmt.Println("error: ", err)
+			// reading fails the same way again, there is no further line.
+			return err
 		}
 		switch l {
 		case "exit":
-- 
2.43.0


From 66d4877adfa1edc4f79882f4ce310a97dbdcd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:52 +0000
Subject: [PATCH 33/40] fix: searching for more neighbors than any slice can
 hold does not panic

---
 pkg/search/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 6211e2b..69be4a1 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -95,6 +95,10 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	if k <= 0 {
 		return Neighbors{}, nil
 	}
+	// there are no more neighbors than items.
+	if k > len(s.Items) {
+		k = len(s.Items)
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
-- 
2.43.0


From 3cb4a69f6b2d5f4705c2e9880912e1e2bde77ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 34/40] fix: count co-occurrences for windows of any size

---
 pkg/corpus/cpsutil/cpsutil.go | 5 ++---
 pkg/corpus/memory/memory.go   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index ab5db71..56f174d 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -62,7 +62,7 @@ func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string,
 	scanner := scanner(r)
 	var (
 		axis string
-		ws   []string = make([]string, n)
+		ws   []string
 	)
 	postFn := func() error {
 		for i, w := range ws {
@@ -81,10 +81,9 @@ func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string,
 			axis = scanner.Text()
 			for i := 0; i < n; i++ {
 				if !scanner.Scan() {
-					ws = ws[:i]
 					break
 				}
-				ws[i] = scanner.Text()
+				ws = append(ws, scanner.Text())
 			}
 		} else {
 			if len(ws) == 0 {
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 43bb63d..931dc8e 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -117,7 +117,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		for i := 0; i < len(c.idoc); i++ {
-			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
+			for j := i + 1; j < len(c.idoc) && j-i <= with.Window; j++ {
 				if c.filters.Any(c.idoc[i], c.dic) || c.filters.Any(c.idoc[j], c.dic) {
 					continue
 				}
-- 
2.43.0


From af21e954ddba56d8140104179e6bb033b44c0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:53 +0000
Subject: [PATCH 35/40] fix: stream batches of any size

---
 pkg/corpus/fs/fs.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index e9af68a..bf90ae4 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -58,7 +58,8 @@ func (c *Corpus) IndexedDoc() []int {
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 	// the consumer must not wait for further batches in case of errors.
 	defer close(ch)
-	cursor, ids := 0, make([]int, batchSize)
+	// the batch may be larger than the text.
+	var ids []int
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
 			word = strings.ToLower(word)
@@ -69,11 +70,10 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 			return nil
 		}
 
-		ids[cursor] = id
-		cursor++
-		if cursor == batchSize {
+		ids = append(ids, id)
+		if len(ids) == batchSize {
 			ch <- ids
-			cursor, ids = 0, make([]int, batchSize)
+			ids = nil
 		}
 		return nil
 	}); err != nil {
@@ -81,7 +81,7 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 	}
 
 	// send left words
-	ch <- ids[:cursor]
+	ch <- ids
 	return nil
 }
 
-- 
2.43.0


From 8729ffaff3da3088a997231e7cb9ac49e63a5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 36/40] fix: train with windows of any size

---
 pkg/model/lexvec/lexvec.go  | 13 +++++++------
 pkg/model/word2vec/model.go | 26 ++++++++++++++------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index b9de6b0..4cb6d37 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -218,12 +218,13 @@ func (l *lexvec) trainPerThread(
 func (l *lexvec) trainOne(doc []int, pos int, items map[uint64]float64) {
 	dic := l.corpus.Dictionary()
 	del := modelutil.NextRandom(l.opts.Window)
-	for a := del; a < l.opts.Window*2+1-del; a++ {
-		if a == l.opts.Window {
-			continue
-		}
-		c := pos - l.opts.Window + a
-		if c < 0 || c >= len(doc) {
+	// only the part of the window within the doc is looked at.
+	c := pos - (l.opts.Window - del)
+	if c < 0 {
+		c = 0
+	}
+	for ; c < len(doc) && c-pos <= l.opts.Window-del; c++ {
+		if c == pos {
 			continue
 		}
 		enc := encode.EncodeBigram(uint64(doc[pos]), uint64(doc[c]))
diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 631208c..d6323f7 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -57,12 +57,13 @@ func (mod *skipGram) trainOne(
 		mod.ch <- tmp
 	}()
 	del := modelutil.NextRandom(mod.window)
-	for a := del; a < mod.window*2+1-del; a++ {
-		if a == mod.window {
-			continue
-		}
-		c := pos - mod.window + a
-		if c < 0 || c >= len(doc) {
+	// only the part of the window within the doc is looked at.
+	c := pos - (mod.window - del)
+	if c < 0 {
+		c = 0
+	}
+	for ; c < len(doc) && c-pos <= mod.window-del; c++ {
+		if c == pos {
 			continue
 		}
 		for i := 0; i < len(tmp); i++ {
@@ -132,12 +133,13 @@ func (mod *cbow) dowith(
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	for a := del; a < mod.window*2+1-del; a++ {
-		if a == mod.window {
-			continue
-		}
-		c := pos - mod.window + a
-		if c < 0 || c >= len(doc) {
+	// only the part of the window within the doc is looked at.
+	c := pos - (mod.window - del)
+	if c < 0 {
+		c = 0
+	}
+	for ; c < len(doc) && c-pos <= mod.window-del; c++ {
+		if c == pos {
 			continue
 		}
 		ctxID := doc[c]
-- 
2.43.0


From de4a2e3f4378746dd2a22acc6e31e200f8d03aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 37/40] fix: divide any amount of work evenly

---
 pkg/model/modelutil/modelutil.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/model/modelutil/modelutil.go b/pkg/model/modelutil/modelutil.go
index d0207db..e556d2e 100644
--- a/pkg/model/modelutil/modelutil.go
+++ b/pkg/model/modelutil/modelutil.go
@@ -14,10 +14,6 @@
 
 package modelutil
 
-import (
-	"math"
-)
-
 var (
 	next uint64 = 1
 )
@@ -35,7 +31,7 @@ func IndexPerThread(threadSize, dataSize int) []int {
 	indexPerThread[threadSize] = dataSize
 	for i := 1; i < threadSize; i++ {
 		indexPerThread[i] = indexPerThread[i-1] +
-			int(math.Trunc(float64((dataSize+i)/threadSize)))
+			dataSize/threadSize + (dataSize%threadSize+i)/threadSize
 	}
 	return indexPerThread
 }
-- 
2.43.0


From 035f64f015c90871967eb97134c37df2ca3ca995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 38/40] fix: read the text no faster than it is trained

---
 pkg/model/lexvec/lexvec.go     | 11 +++++++----
 pkg/model/word2vec/word2vec.go | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 4cb6d37..dab226b 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -140,6 +140,9 @@ func (l *lexvec) train() error {
 		wg := &sync.WaitGroup{}
 
 		for i := 0; i < l.opts.Goroutines; i++ {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			s, e := indexPerThread[i], indexPerThread[i+1]
 			go l.trainPerThread(doc[s:e], items, trained, sem, wg)
@@ -175,6 +178,10 @@ func (l *lexvec) batchTrain() error {
 			read <- l.corpus.BatchWords(in, l.opts.BatchSize)
 		}()
 		for doc := range in {
+			// the text is not read faster than it is trained.
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
 		}
@@ -201,10 +208,6 @@ func (l *lexvec) trainPerThread(
 		sem.Release(1)
 	}()
 
-	if err := sem.Acquire(context.Background(), 1); err != nil {
-		return err
-	}
-
 	for pos, id := range doc {
 		if l.subsampler.Trial(id) {
 			l.trainOne(doc, pos, items)
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index ab481c4..91287fd 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -154,6 +154,9 @@ func (w *word2vec) train() error {
 		wg := &sync.WaitGroup{}
 
 		for i := 0; i < w.opts.Goroutines; i++ {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			s, e := indexPerThread[i], indexPerThread[i+1]
 			go w.trainPerThread(doc[s:e], trained, sem, wg)
@@ -184,6 +187,10 @@ func (w *word2vec) batchTrain() error {
 			read <- w.corpus.BatchWords(in, w.opts.BatchSize)
 		}()
 		for doc := range in {
+			// the text is not read faster than it is trained.
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
 		}
@@ -209,10 +216,6 @@ func (w *word2vec) trainPerThread(
 		sem.Release(1)
 	}()
 
-	if err := sem.Acquire(context.Background(), 1); err != nil {
-		return err
-	}
-
 	for pos, id := range doc {
 		if w.subsampler.Trial(id) {
 			w.mod.trainOne(doc, pos, w.currentlr, w.param, w.optimizer)
-- 
2.43.0


From ce76c4b72e98d8b8f3302b38f259f3bc2183d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 39/40] fix: read redirected console lines of any length

---
 pkg/search/console/console.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 3de4e9c..538fbf3 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -15,11 +15,14 @@
 package console
 
 import (
+	"bufio"
 	"fmt"
 	"go/ast"
 	"go/parser"
 	"go/token"
 	"io"
+	"os"
+	"strings"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -43,12 +46,19 @@ type Console struct {
 	searcher *search.Searcher
 	cursor   *searchcursor
 	params   *searchparams
+
+	// input is read instead of the terminal if it is redirected.
+	input *bufio.Reader
 }
 
 func New(searcher *search.Searcher, k int) (*Console, error) {
 	if searcher.Items.Empty() {
 		return nil, errors.New("Number of items for searcher must be over 0")
 	}
+	var input *bufio.Reader
+	if _, err := liner.TerminalMode(); err != nil {
+		input = bufio.NewReader(os.Stdin)
+	}
 	return &Console{
 		State:    liner.NewLiner(),
 		searcher: searcher,
@@ -59,13 +69,30 @@ func New(searcher *search.Searcher, k int) (*Console, error) {
 			dim: searcher.Items[0].Dim,
 			k:   k,
 		},
+		input: input,
 	}, nil
 }
 
+// readLine reads a whole line, liner splits long lines of redirected input.
+func (c *Console) readLine(prompt string) (string, error) {
+	if c.input == nil {
+		return c.Prompt(prompt)
+	}
+	fmt.Print(prompt)
+	l, err := c.input.ReadString('\n')
+	if l == "" {
+		return "", err
+	}
+	if strings.HasSuffix(l, "\n") {
+		l = strings.TrimSuffix(l[:len(l)-1], "\r")
+	}
+	return l, nil
+}
+
 func (c *Console) Run() error {
 	defer c.Close()
 	for {
-		l, err := c.Prompt(">> ")
+		l, err := c.readLine(">> ")
 		if err == io.EOF {
 			return nil
 		}
-- 
2.43.0


From 9f1868391d6d0edd40d1e9ef50fb2d66fdf3b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:59 +0000
Subject: [PATCH 40/40] fix: do not replace the input or the output by the
 profile

---
 cmd/model/cmdutil/cmdutil.go   | 19 +++++++++++++++++++
 cmd/model/glove/glove.go       | 17 ++++++++---------
 cmd/model/lexvec/lexvec.go     | 17 ++++++++---------
 cmd/model/word2vec/word2vec.go | 17 ++++++++---------
 4 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/cmd/model/cmdutil/cmdutil.go b/cmd/model/cmdutil/cmdutil.go
index 83f3f68..19ee7df 100644
--- a/cmd/model/cmdutil/cmdutil.go
+++ b/cmd/model/cmdutil/cmdutil.go
@@ -16,7 +16,9 @@ package cmdutil
 
 import (
 	"fmt"
+	"os"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 
 	"github.com/ynqa/wego/pkg/model/modelutil/vector"
@@ -26,6 +28,7 @@ const (
 	defaultInputFile  = "example/input.txt"
 	defaultOutputFile = "example/word_vectors.txt"
 	defaultProf       = false
+	profFile          = "cpu.prof"
 	defaultVectorType = vector.Single
 )
 
@@ -41,6 +44,22 @@ func AddProfFlags(cmd *cobra.Command, prof *bool) {
 	cmd.Flags().BoolVar(prof, "prof", defaultProf, "profiling mode to check the performances")
 }
 
+// CreateProf creates the file for the profile, which must not replace one of the given files.
+func CreateProf(files ...*os.File) (*os.File, error) {
+	if prof, err := os.Stat(profFile); err == nil {
+		for _, f := range files {
+			info, err := f.Stat()
+			if err != nil {
+				return nil, err
+			}
+			if os.SameFile(prof, info) {
+				return nil, errors.Errorf("%s is used for the profile", f.Name())
+			}
+		}
+	}
+	return os.Create(profFile)
+}
+
 func AddVectorTypeFlags(cmd *cobra.Command, typ *vector.Type) {
 	cmd.Flags().StringVar(typ, "vec-type", defaultVectorType, fmt.Sprintf("word vector type. One of: %s|%s", vector.Single, vector.Agg))
 }
diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index 6ef2e84..e795006 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -58,15 +58,6 @@ func fileExists(path string) bool {
 }
 
 func execute(opts glove.Options) error {
-	if prof {
-		f, err := os.Create("cpu.prof")
-		if err != nil {
-			return err
-		}
-		pprof.StartCPUProfile(f)
-		defer pprof.StopCPUProfile()
-	}
-
 	if fileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
 	} else if !fileExists(inputFile) {
@@ -91,6 +82,14 @@ func execute(opts glove.Options) error {
 		return err
 	}
 	defer input.Close()
+	if prof {
+		f, err := cmdutil.CreateProf(input, output)
+		if err != nil {
+			return err
+		}
+		pprof.StartCPUProfile(f)
+		defer pprof.StopCPUProfile()
+	}
 	mod, err := glove.NewForOptions(opts)
 	if err != nil {
 		return err
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index c6498ec..8c19160 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -58,15 +58,6 @@ func fileExists(path string) bool {
 }
 
 func execute(opts lexvec.Options) error {
-	if prof {
-		f, err := os.Create("cpu.prof")
-		if err != nil {
-			return err
-		}
-		pprof.StartCPUProfile(f)
-		defer pprof.StopCPUProfile()
-	}
-
 	if fileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
 	} else if !fileExists(inputFile) {
@@ -91,6 +82,14 @@ func execute(opts lexvec.Options) error {
 		return err
 	}
 	defer input.Close()
+	if prof {
+		f, err := cmdutil.CreateProf(input, output)
+		if err != nil {
+			return err
+		}
+		pprof.StartCPUProfile(f)
+		defer pprof.StopCPUProfile()
+	}
 	mod, err := lexvec.NewForOptions(opts)
 	if err != nil {
 		return err
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index 9d30034..9cba49f 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -58,15 +58,6 @@ func fileExists(path string) bool {
 }
 
 func execute(opts word2vec.Options) error {
-	if prof {
-		f, err := os.Create("cpu.prof")
-		if err != nil {
-			return err
-		}
-		pprof.StartCPUProfile(f)
-		defer pprof.StopCPUProfile()
-	}
-
 	if fileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
 	} else if !fileExists(inputFile) {
@@ -91,6 +82,14 @@ func execute(opts word2vec.Options) error {
 		return err
 	}
 	defer input.Close()
+	if prof {
+		f, err := cmdutil.CreateProf(input, output)
+		if err != nil {
+			return err
+		}
+		pprof.StartCPUProfile(f)
+		defer pprof.StopCPUProfile()
+	}
 	mod, err := word2vec.NewForOptions(opts)
 	if err != nil {
 		return err
-- 
2.43.0

