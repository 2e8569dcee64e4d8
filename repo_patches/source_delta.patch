From 206bdc5780aa05417e9e4759a4c6c1863c76ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 01/34] fix: keep stored samples in timestamp order when one
 arrives late

The insertion point search used the inverse of the required predicate, so a
sample older than the newest one of its series was slotted in at an arbitrary
position and the series stopped being sorted by time.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..6550582 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From bc8af420d6b06b5c82a7daad21c0b3d55f1f2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:30 +0000
Subject: [PATCH 02/34] fix: make a fully expired series visible again once it
 is re-scraped

Clean dropped the postings of a series without any remaining sample but kept
the series itself registered, so samples loaded for it later were appended to
a block that no selector could reach any more.
---
 promq/prom/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 6550582..776e6da 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,13 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	// forget the cleaned series entirely, so that they get fresh postings if
+	// they ever show up again
+	for ref := range postingsToClean {
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From 35abae490edd837ba06f0111d0b9a62ff4a42d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 03/34] fix: do not deadlock on matchers that accept an empty
 label value

IterValues holds the postings lock while it runs its callback, and the callback
took the same lock again, so any selector with a matcher such as a!="x" on a
known label never returned.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 776e6da..4d07d42 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -207,7 +207,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From c6c99a9e4da4ffbb862c80d8376b6c922060a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 04/34] fix: do not report the internal all-series key as a
 label name

---
 promq/prom/query.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 4d07d42..58e6826 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -234,7 +234,12 @@ func (q *memQuerier) LabelValues(name string, matchers ...*labels.Matcher) ([]st
 
 func (q *memQuerier) LabelNames(matchers ...*labels.Matcher) ([]string, storage.Warnings, error) {
 	var res []string
+	allName, _ := AllPostingsKey()
 	q.storage.postings.IterNames(func(name string) {
+		if name == allName {
+			// not a label, just the list of all series
+			return
+		}
 		for _, matcher := range matchers {
 			if !matcher.Matches(name) {
 				return
-- 
2.43.0


From 12b1bacdb7ccf8dc2b9451b921b0588e83e2d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 05/34] fix: never move a sample iterator backwards on Seek

---
 promq/prom/query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 58e6826..e4cc1d7 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -303,6 +303,10 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
+	if s.ind >= 0 && s.ind < len(s.block.data) && s.block.data[s.ind].timestamp >= targetTime {
+		// already there, seeking never moves backwards
+		return true
+	}
 	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
 		return s.block.data[ind].timestamp >= targetTime
 	})
-- 
2.43.0


From 01fa5a45c15cbb165f2b6a0fa610b272a0611248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 06/34] fix: hand out a copy of the indexed label values

The index returned its own set, which the next scrape modifies while the
completer iterates over it (a fatal concurrent map iteration and write).
---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..1234773 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// copy, since the stored set keeps changing under our lock
+	return sets.NewString().Union(values)
 }
-- 
2.43.0


From a408326db6e8c9cf3ee7b05d2d19911f046d13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 07/34] fix: read the query under its lock when executing it

SetQuery may run concurrently with a scrape's query execution.
---
 promq/prom/multi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..9aedea9 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -102,10 +102,14 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	q.queryMu.RLock()
+	queryString := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, queryString, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,7 +117,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, queryString, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From 9113303f00cc6fc14f421cec72173ea090f460a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 08/34] fix: return the original items from case-insensitive
 filtering

The lower-cased copies used for the comparison were returned instead, so the
result was not a subset of the given set.
---
 promq/autocomplete/filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/filter.go b/promq/autocomplete/filter.go
index c44bcc7..9e0b105 100644
--- a/promq/autocomplete/filter.go
+++ b/promq/autocomplete/filter.go
@@ -56,10 +56,11 @@ func filterSet(autocompletions sets.String, sub string, ignoreCase bool, inclusi
 	}
 	ret := sets.NewString()
 	for _, item := range autocompletions.List() {
+		candidate := item
 		if ignoreCase {
-			item = strings.ToLower(item)
+			candidate = strings.ToLower(item)
 		}
-		if inclusionFunc(item, sub) {
+		if inclusionFunc(candidate, sub) {
 			ret.Insert(item)
 		}
 	}
-- 
2.43.0


From ab78d5b8daffc0bb087341c66b4d3833fb53de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 09/34] fix: forget the previous query when parsing from the
 beginning

The tokens of the new query were appended to those of the previous one, so
later incremental parses compared against a query nobody typed and suggestions
depended on what had been completed before.
---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..2c8630d 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -141,6 +141,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
 	p.chart.resetChartBeforeIndex(0)
+	p.words = nil
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
 	return p.chart
-- 
2.43.0


From 954024aa708beac48a8cedc429c6f10d91aec8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:20 +0000
Subject: [PATCH 10/34] fix: continue parsing when the new tokens extend the
 previous ones

Compare shadowed its index and reported a strict extension as equality.
---
 promq/autocomplete/earley/luthor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..8347ada 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,7 +63,6 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
@@ -72,7 +71,7 @@ func (ws Tokens) Compare(tks2 Tokens) int {
 	}
 	// return negative i if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From 36ca40c71bbd5adcb709d874f1518f1a05cf4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 11/34] fix: do not panic completing queries with multi-byte
 characters

A byte index was used to index the runes of the query.
---
 promq/autocomplete/earley/completer.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..a07d99f 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,7 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
-- 
2.43.0


From 679fa336424bd62dde7fb3091467606afcf80c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 12/34] fix: suggest nothing when the query cannot be tokenized
 to its end

Without an EOF token the last token position is off by one, so suggestions were
made for the position before the last token, and a query without any token at
all (e.g. "$ ") panicked.
---
 promq/autocomplete/earley/earley.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 2c8630d..dbad4ef 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -186,8 +186,10 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
 	lastTokenPos := len(tokens) - 1
-	if lastTokenPos < 0 {
-		lastTokenPos = 0
+	if lastTokenPos < 0 || !tokens[lastTokenPos].isEof() {
+		// the input could not be tokenized up to its end (e.g. an unterminated
+		// string), so there is no position to suggest anything for
+		return nil
 	}
 
 	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
-- 
2.43.0


From 0a2dd544b34ad1380652855cfb46649670b28920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 13/34] fix: shift the content down when scrolling up past the
 first row

The loop condition was inverted: with more than two rows nothing was shifted,
and with fewer the loop practically never ended.
---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..d3865ce 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -191,7 +191,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From ec78468d0a25e176dbb783178d3ebcb35943d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 14/34] fix: keep the text cursor inside the text area

After shrinking the area, or writing a wide character to a one-column area, the
cursor was beyond the last column and the next newline or erase panicked.
---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6598273 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index d3865ce..579229c 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,18 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+
+	// keep the cursor within the new size (the column right after the last one
+	// is where it ends up after writing up to the end of a line)
+	if t.cursorCol > cols {
+		t.cursorCol = cols
+	}
+	if t.cursorRow >= rows {
+		t.cursorRow = rows-1
+	}
+	if t.cursorRow < 0 {
+		t.cursorRow = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -123,6 +135,10 @@ func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
 	}
 	t.buf.SetContent(t.cursorCol, t.cursorRow, runes[0], runes[1:], sty)
 	t.cursorCol += width
+	if t.cursorCol > t.cols {
+		// a wide character in a single-column area
+		t.cursorCol = t.cols
+	}
 }
 
 func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
-- 
2.43.0


From 0b3f8eda035fff07e0907ff122afe738f22027b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 15/34] fix: read the prompt's position under its lock when
 showing the cursor

---
 promq/term/prompt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6598273..5dbc253 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,11 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	w.textMu.Lock()
+	cursorCol, cursorRow := w.text.CursorPosition()
+	startCol, startRow := w.startCol, w.startRow
+	w.textMu.Unlock()
+	w.screen.ShowCursor(startCol+cursorCol, startRow+cursorRow)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From 4bb75245776166936357f6a5db06ec1873618407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 16/34] fix: do not scrape in the background for a one-shot
 query

The background scrape shared the callback of the one-shot query, so a scrape
taking longer than the period could print the result a second time (or run an
unset callback), and the goroutine outlived the command.
---
 cmd/metrics/metrics.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..89f02bc 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -178,11 +178,11 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
+		// asyncronously trigger scrape
+		go c.scrape(ctx, runner)
+
 		// it's valid, let's try drawing
 		if err := c.runInteractiveChart(ctx, runner, query); err != nil {
 			return err
-- 
2.43.0


From cf4ec949d8db8e61062d0548ea3c0b11e26b1201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 17/34] fix: wait for the prompt's setup before displaying it

Flushing the prompt before Run has created its writer dereferences nil.
---
 cmd/metrics/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 89f02bc..d6da971 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -425,8 +425,13 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 		return nil
 	}
 
+	// the prompt can only be displayed once it's set up
+	promptReady := make(chan struct{})
+	promptView.OnSetup = func() { close(promptReady) }
+
 	ctx, stopScreen := context.WithCancel(ctx)
 	go promptView.Run(ctx, &qs, stopScreen)
+	<-promptReady
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
 		return err
-- 
2.43.0


From 2b1374dbb299ff409ccf83addd648e953c75934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 18/34] fix: treat a non-200 response from a target as a scrape
 failure

---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index d6da971..06035db 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,10 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From c738ffb386e79433e4b25d7a8f1b6bfe3a2d7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 19/34] fix: complete at the byte position of the cursor

The display column was used as a byte index into the query, which differs from
it as soon as the query contains a non-ASCII character.
---
 cmd/metrics/autocompleter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..903f645 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -40,7 +40,7 @@ func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
 	if d.TextBeforeCursor() == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(d.Text, len(d.TextBeforeCursor()))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
-- 
2.43.0


From 95932706b815b1e44bdc27711cad547551e04c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 20/34] fix: split words the same way for accepting and
 computing completions

The prompt did not treat arithmetic and comparison operators as separators, so
accepting the completion of "b" in "a+b" deleted "a+" as well.
---
 cmd/metrics/autocompleter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index 903f645..22d19fa 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -20,12 +20,13 @@ import (
     "github.com/c-bata/go-prompt"
 
 	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
+	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
 )
 
 const (
 	// spaces can't individually demarcate individual lexical units
 	// in promql.
-	PromQLTokenSeparators = " []{}()=!~,"
+	PromQLTokenSeparators = earley.PromQLTokenSeparators
 )
 
 type Completer struct {
-- 
2.43.0


From e06b3a9947907d82351198177b1ccf5b14403a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 21/34] fix: keep the typed number when accepting a time unit
 completion

---
 cmd/metrics/autocompleter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index 22d19fa..3b0c280 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -44,7 +44,12 @@ func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
 	ret := c.promCompleter.GenerateSuggestions(d.Text, len(d.TextBeforeCursor()))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
-		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
+		text := s.GetValue()
+		if s.GetKind() == "time-unit" {
+			// units follow the number typed so far, instead of replacing it
+			text = d.GetWordBeforeCursorUntilSeparator(PromQLTokenSeparators) + text
+		}
+		suggests[i] = prompt.Suggest{Text: text, Description: s.GetDetail()}
 	}
 	return suggests
 }
-- 
2.43.0


From a482cf3abb325d45e467c494d34431eafc7f9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 22/34] fix: do not panic plotting a series without points

---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..90a7a6e 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -185,7 +185,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From d7cbae47a9012d7fea49ce21c88b22b55ba2630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 23/34] fix: leave NaN and infinite values out of the plot

NaN mapped to an arbitrary row, which panicked when rendering, and an infinite
bound of the range made the tick computation loop forever.
---
 promq/term/plot/plot.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 90a7a6e..2938523 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -82,6 +82,11 @@ type PlatonicGraph struct {
 	Series SeriesSet
 }
 
+// isFinite checks that the given value is neither NaN nor an infinity.
+func isFinite(val float64) bool {
+	return !math.IsNaN(val) && !math.IsInf(val, 0)
+}
+
 func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGraph {
 	res := &PlatonicGraph{
 		Series: seriesSet,
@@ -103,6 +108,9 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !isFinite(val) {
+					continue
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -162,6 +170,10 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !isFinite(inY) {
+				// there's no place on the screen for these
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
-- 
2.43.0


From 3d149444e95405f96dd14d0b4b0d1ec08e41b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 24/34] fix: always terminate computing the ticks of the range
 axis

A flat line at a negative value produced a negative increment, and a range much
smaller than its values an increment without effect: both looped (and
allocated) forever.
---
 promq/term/plot/axes.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..e3fe102 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -117,10 +117,16 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 		if platRngInc == 0 {
 			platRngInc = graph.RangeMax // just two ticks
 		}
-		if platRngInc == 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
+		if platRngInc <= 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
 			platRngInc = 1
 		}
-		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
+		// compute each tick from the minimum (rather than from the previous tick), so that
+		// we terminate even if the increment vanishes compared to the minimum
+		for i := 0; i <= int(rngTicksBase); i++ {
+			x := graph.RangeMin + platRngInc*float64(i)
+			if x > graph.RangeMax {
+				break
+			}
 			platRngTicks = append(platRngTicks, x)
 		}
 		// always put a tick @ max
-- 
2.43.0


From 2744fd03a5e9ddd15a8ea642861a3371631906b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 25/34] fix: keep the ticks of the domain axis within the
 domain

With a domain smaller than the number of ticks, the ticks were spaced by the
maximum of the domain, and drawn far outside of the graph.
---
 promq/term/plot/axes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index e3fe102..f8fec0c 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,7 +92,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			numTicks = 1 // just two ticks, with the one @ max
 		}
 		platDomTicks = make([]int64, numTicks)
 		for i := range platDomTicks {
-- 
2.43.0


From fa53e2bbd58f1a832354ccafc2f9be7dc512e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:09 +0000
Subject: [PATCH 26/34] fix: scale values rather than differences when placing
 them on the screen

Only the identity scale is used today, but with any other one the scaled values
did not match the scaled bounds of the range.
---
 promq/term/plot/plot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 2938523..345208d 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -145,7 +145,7 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		return Row(math.Round(float64(scale(y)-scale(g.RangeMin))*rangeScaleFactor))
 	}
 
 	return domain, rng
-- 
2.43.0


From 49c513617b38a162de1142cc0c200b2af18f7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 27/34] fix: keep exhausted sample iterators exhausted on Seek

---
 promq/prom/query.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index e4cc1d7..771ed4f 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -303,12 +303,16 @@ func (s *blockSeries) Next() bool {
 	return s.ind < len(s.block.data)
 }
 func (s *blockSeries) Seek(targetTime int64) bool {
-	if s.ind >= 0 && s.ind < len(s.block.data) && s.block.data[s.ind].timestamp >= targetTime {
-		// already there, seeking never moves backwards
-		return true
+	// seeking never moves backwards, not even once everything has been read
+	start := s.ind
+	if start < 0 {
+		start = 0
 	}
-	s.ind = sort.Search(len(s.block.data), func(ind int) bool {
-		return s.block.data[ind].timestamp >= targetTime
+	if start >= len(s.block.data) {
+		return false
+	}
+	s.ind = start + sort.Search(len(s.block.data)-start, func(ind int) bool {
+		return s.block.data[start+ind].timestamp >= targetTime
 	})
 	return s.ind < len(s.block.data)
 }
-- 
2.43.0


From 6ca7b01ddc662ed3818865a9f8e82da3298d31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 28/34] fix: suggest nothing after a right parenthesis that was
 never opened

---
 promq/autocomplete/earley/luthor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 8347ada..9234670 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -173,6 +173,7 @@ func extractWords(query string) Tokens {
 func extractTokensWithOffset(query string, offset int) (words Tokens) {
 	l := parser.Lex(query)
 	i := 0
+	lastEnd := parser.Pos(0)
 	for {
 		currItem := parser.Item{}
 		l.NextItem(&currItem)
@@ -191,6 +192,11 @@ func extractTokensWithOffset(query string, offset int) (words Tokens) {
 			if i == 0 {
 				break
 			}
+			// the lexer steps over a right parenthesis that was never opened before
+			// rejecting it, so what follows doesn't continue the words so far
+			if strings.Contains(query[lastEnd:currItem.Pos], ")") {
+				break
+			}
 			subWords := extractTokensWithOffset(substring, int(currItem.Pos))
 			if len(subWords) > 0 {
 				words = append(words, subWords...)
@@ -198,6 +204,7 @@ func extractTokensWithOffset(query string, offset int) (words Tokens) {
 			return
 		}
 		words = append(words, createTokenFromItem(currItem, offset))
+		lastEnd = currItem.PositionRange().End
 		i++
 	}
 	return
-- 
2.43.0


From 860147d431139782123c3d290ef9945e7cc2d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 29/34] fix: keep the text cursor inside the area when moved
 past its edges

---
 promq/term/wrapper.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 579229c..adf3aa4 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -258,6 +258,11 @@ func (t *textWrapper) EraseLine() {
 // CursorForward moves the cursor forward n columns, stopping at
 // the 0th column of the wrapper.
 func (t *textWrapper) CursorForward(n int) {
+	if n < 0 {
+		// go-prompt moves by negative amounts to go the other way
+		t.CursorBackward(-n)
+		return
+	}
 	t.cursorCol += n
 	if t.cursorCol >= t.cols {
 		t.cursorCol = t.cols-1
@@ -267,6 +272,10 @@ func (t *textWrapper) CursorForward(n int) {
 // CursorForward moves the cursor forward n columns, stopping at
 // the last column of the wrapper.
 func (t *textWrapper) CursorBackward(n int) {
+	if n < 0 {
+		t.CursorForward(-n)
+		return
+	}
 	t.cursorCol -= n
 	if t.cursorCol < 0 {
 		t.cursorCol = 0
@@ -280,12 +289,28 @@ func (t *textWrapper) CursorPosition() (col, row int) {
 
 // CursorGoTo moves the cursor to the given row and column.
 func (t *textWrapper) CursorGoTo(row, col int) {
+	if row >= t.rows {
+		row = t.rows-1
+	}
+	if row < 0 {
+		row = 0
+	}
+	if col >= t.cols {
+		col = t.cols-1
+	}
+	if col < 0 {
+		col = 0
+	}
 	t.cursorRow = row
 	t.cursorCol = col
 }
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
 func (t *textWrapper) CursorDown(n int) {
+	if n < 0 {
+		t.CursorUp(-n)
+		return
+	}
 	t.cursorRow += n
 	if t.cursorRow >= t.rows {
 		t.cursorRow = t.rows-1
@@ -293,6 +318,10 @@ func (t *textWrapper) CursorDown(n int) {
 }
 // CursorUp moves the cursor up n rows, stopping at the top of wrapper.
 func (t *textWrapper) CursorUp(n int) {
+	if n < 0 {
+		t.CursorDown(-n)
+		return
+	}
 	t.cursorRow -= n
 	if t.cursorRow < 0 {
 		t.cursorRow = 0
-- 
2.43.0


From 6bf68b6619c21d4921791acf6fb57e6ee36a7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 30/34] fix: send F17 to F20 as codes that mean those keys to
 the prompt

---
 promq/term/keytobytes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/term/keytobytes.go b/promq/term/keytobytes.go
index bd9e5f0..93fc631 100644
--- a/promq/term/keytobytes.go
+++ b/promq/term/keytobytes.go
@@ -125,7 +125,8 @@ func nonRuneKeyToBytes(evt *tcell.EventKey) []byte {
 	// this is hillariously inefficient since go-prompt immediately reverses
 	// it, but it's what we're stuck with
 	for _, seq := range prompt.ASCIISequences {
-		if seq.Key == key {
+		// (some codes are listed for several keys, and only mean the first of them)
+		if seq.Key == key && prompt.GetKey(seq.ASCIICode) == key {
 			return seq.ASCIICode
 		}
 	}
-- 
2.43.0


From 49077cba8d7db607dc04722583dea71d72296d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 31/34] fix: do not draw wide characters over the right edge of
 a text area

---
 promq/term/wrapper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index adf3aa4..103f568 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -147,7 +147,11 @@ func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
 			if !t.buf.Dirty(col, row) {
 				continue
 			}
-			mainRune, combRunes, style, _ := t.buf.GetContent(col, row)
+			mainRune, combRunes, style, width := t.buf.GetContent(col, row)
+			if col+width > t.cols {
+				// half of a wide character would end up outside of our area
+				mainRune, combRunes = ' ', nil
+			}
 			screen.SetContent(startCol+col, startRow+row, mainRune, combRunes, style)
 		}
 	}
-- 
2.43.0


From f3a30b3522c08d3d294b4d9fdf82fe6f12b7008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 32/34] fix: bring the cursor back when a text area without
 columns gets some

---
 promq/term/wrapper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 103f568..f0ddfbd 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -45,6 +45,9 @@ func (t *textWrapper) Resize(cols, rows int) {
 	if t.cursorCol > cols {
 		t.cursorCol = cols
 	}
+	if t.cursorCol < 0 {
+		t.cursorCol = 0
+	}
 	if t.cursorRow >= rows {
 		t.cursorRow = rows-1
 	}
-- 
2.43.0


From d1e48508b38b297fad51e41b2c9214e7080f81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:17 +0000
Subject: [PATCH 33/34] fix: do not repeat ticks of the range axis

---
 promq/term/plot/axes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index f8fec0c..432a830 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -127,6 +127,10 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 			if x > graph.RangeMax {
 				break
 			}
+			// don't repeat a tick if the increment is too small to tell them apart
+			if len(platRngTicks) > 0 && x <= platRngTicks[len(platRngTicks)-1] {
+				continue
+			}
 			platRngTicks = append(platRngTicks, x)
 		}
 		// always put a tick @ max
-- 
2.43.0


From e0d0084a63d97ae520df6e8614b0279db48a15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 34/34] fix: end the prompt when cancelled while its initial
 input waits

---
 promq/term/prompt.go     | 11 +++++++++--
 promq/term/withprompt.go |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 5dbc253..1a207df 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -17,6 +17,7 @@ limitations under the License.
 package term
 
 import (
+	"context"
 	"sync"
 	"syscall"
 	"fmt"
@@ -234,9 +235,15 @@ func (p *screenParser) AddKey(evt *tcell.EventKey) {
 	p.evts <- evt
 }
 
-func (p *screenParser) AddString(str string) {
+// AddString adds the keys of the given string, waiting for room for them until
+// the context is done.
+func (p *screenParser) AddString(ctx context.Context, str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		select {
+		case p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0):
+		case <-ctx.Done():
+			return
+		}
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..df75d4b 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -129,7 +129,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	// do this after starting the input loop so that we don't block on the channel capacity
 	if initialInput != nil {
 		// populate the initial command
-		v.reader.AddString(*initialInput+"\r")
+		v.reader.AddString(ctx, *initialInput+"\r")
 	}
 
 	<-ctx.Done()
-- 
2.43.0

