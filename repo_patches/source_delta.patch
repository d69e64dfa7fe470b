From cc06db2d17b6f299f967a6002cdbd10af77f0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 01/46] fix: tag: reject over-long lengths when decoding
 instead of panicking

A varint length whose conversion to int is negative passed the bounds
check and made the slice expression panic on untrusted input.
---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From f5627d473531ccd2dde8c5eb1894b7f2fd6325bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:16 +0000
Subject: [PATCH 02/46] fix: tag: Do must not panic when the context carries no
 tag map

---
 tag/profile_19.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..5435c8e 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -24,6 +24,9 @@ import (
 
 func do(ctx context.Context, f func(ctx context.Context)) {
 	m := FromContext(ctx)
+	if m == nil {
+		m = newMap()
+	}
 	keyvals := make([]string, 0, 2*len(m.m))
 	for k, v := range m.m {
 		keyvals = append(keyvals, k.Name(), v.value)
-- 
2.43.0


From 04992ca57c8333c57b03e24a6df7b6a3db7abf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 03/46] fix: resource: decode label values that hold an escaped
 quote before a comma

EncodeLabels quotes values, but DecodeLabels ended a value at the first
quote followed by a comma even when that quote was escaped, so labels
such as a="x\",y" did not survive the round trip.
---
 resource/resource.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..612e915 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,7 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("(?:[^"\\[:^ascii:]]|\\[[:ascii:]]){0,256}")\s*,`)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
-- 
2.43.0


From d45540c0ed69df55d3cef6f909d7aca0f7fb3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 04/46] fix: tracestate: do not share the caller's entry slice

New kept (or appended into the spare capacity of) the slice it was given,
so a tracestate changed when the caller reused that slice.
---
 trace/tracestate/tracestate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..836142e 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,8 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	// Copy: the result must not share memory with the caller's slice.
+	ts.entries = append(append([]Entry{}, entries...), ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From 83000197c3f0f1071baa60facda5bc1a0da6c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 05/46] fix: trace: reading a span's attributes must not change
 which ones are dropped

Reporting active spans read every attribute through the LRU cache in map
order, so which attribute was evicted next became arbitrary.
---
 trace/lrumap.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..4c8fb24 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -21,19 +21,19 @@ import (
 // A simple lru.Cache wrapper that tracks the keys of the current contents and
 // the cumulative number of evicted items.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	values       map[lru.Key]interface{} // what cache holds, readable without touching its order
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		values:       make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
 	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
-		delete(lm.cacheKeys, key)
+		delete(lm.values, key)
 		lm.droppedCount++
 	}
 	return lm
@@ -44,18 +44,21 @@ func (lm lruMap) len() int {
 }
 
 func (lm lruMap) keys() []interface{} {
-	keys := make([]interface{}, 0, len(lm.cacheKeys))
-	for k := range lm.cacheKeys {
+	keys := make([]interface{}, 0, len(lm.values))
+	for k := range lm.values {
 		keys = append(keys, k)
 	}
 	return keys
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.values[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
+// get returns the value of key. Reading does not make a key more recently
+// used: which entries are dropped depends on additions only.
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.values[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From 6446d87aaa1f613e2fd18c133bc825b33ced2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 06/46] fix: metric: label values of 255 bytes or more must not
 collide or panic

---
 metric/common.go | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..575a28e 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -15,11 +15,10 @@
 package metric
 
 import (
+	"encoding/binary"
 	"sync"
 	"time"
 
-	"go.opencensus.io/internal/tagencoding"
-
 	"go.opencensus.io/metric/metricdata"
 )
 
@@ -92,29 +91,37 @@ func (bm *baseMetric) read() *metricdata.Metric {
 	return m
 }
 
+// encodeLabelVals returns a string that identifies the label values. Each value
+// is encoded as 0 if it is not present, otherwise as its length plus one
+// followed by its bytes.
 func (bm *baseMetric) encodeLabelVals(labelVals []metricdata.LabelValue) string {
-	vb := &tagencoding.Values{}
+	var b []byte
+	var length [binary.MaxVarintLen64]byte
 	for _, v := range labelVals {
-		b := make([]byte, 1, len(v.Value)+1)
-		if v.Present {
-			b[0] = 1
-			b = append(b, []byte(v.Value)...)
+		if !v.Present {
+			b = append(b, 0)
+			continue
 		}
-		vb.WriteValue(b)
+		n := binary.PutUvarint(length[:], uint64(len(v.Value))+1)
+		b = append(b, length[:n]...)
+		b = append(b, v.Value...)
 	}
-	return string(vb.Bytes())
+	return string(b)
 }
 
+// decodeLabelVals is the inverse of encodeLabelVals.
 func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	vals := make([]metricdata.LabelValue, 0, len(bm.keys))
-	vb := &tagencoding.Values{Buffer: []byte(s)}
+	b := []byte(s)
 	for range bm.keys {
-		v := vb.ReadValue()
-		if v[0] == 0 {
+		length, n := binary.Uvarint(b)
+		b = b[n:]
+		if length == 0 {
 			vals = append(vals, metricdata.LabelValue{})
-		} else {
-			vals = append(vals, metricdata.NewLabelValue(string(v[1:])))
+			continue
 		}
+		vals = append(vals, metricdata.NewLabelValue(string(b[:length-1])))
+		b = b[length-1:]
 	}
 	return vals
 }
-- 
2.43.0


From 32b3ea11b100ce1ac36eae048e6afc4d66228420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 07/46] fix: metric: replacing a derived entry must not make it
 disappear from concurrent reads

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index 575a28e..bd08348 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -145,7 +145,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From 1fe7fd6a045d6298928015095b044bafb19763c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 08/46] fix: metric: concurrent lookups must not share the
 constant label values' backing array

---
 metric/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index bd08348..3fa1e04 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -126,8 +126,16 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	return vals
 }
 
+// allLabelVals returns the constant label values followed by labelVals. It does
+// not touch the spare capacity of constLabelValues, which callers share.
+func (bm *baseMetric) allLabelVals(labelVals []metricdata.LabelValue) []metricdata.LabelValue {
+	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
+	all = append(all, bm.constLabelValues...)
+	return append(all, labelVals...)
+}
+
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -140,7 +148,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From deb0948143711c1d1f8dd598960b3b5a8fc8e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 09/46] fix: stats/view: report the maximum of distributions
 without positive samples

---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From e5abc4d06c0db3fe13a3644c9739fd401efc70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 10/46] fix: stats/view: a meter stopped while starting must
 not stay registered as a producer

---
 stats/view/worker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..02fa51d 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -296,6 +296,7 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
+			prodMgr.DeleteProducer(w)
 			close(w.c)
 			close(w.done)
 			return
@@ -304,8 +305,6 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
-	prodMgr := metricproducer.GlobalManager()
-	prodMgr.DeleteProducer(w)
 	select {
 	case <-w.quit:
 	default:
-- 
2.43.0


From 73a1f08ada7a3badf22df11ad1ef2a7df05423fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 11/46] fix: stats/view: using or stopping a stopped meter must
 not panic

---
 stats/view/worker.go | 65 +++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 02fa51d..dd7aa7a 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -49,6 +50,7 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	stopOnce   sync.Once
 	mu         sync.RWMutex
 	r          *resource.Resource
 
@@ -111,6 +113,8 @@ type Meter interface {
 	RetrieveData(viewName string) ([]*Row, error)
 }
 
+var errStopped = errors.New("the meter is stopped")
+
 var _ Meter = (*worker)(nil)
 
 var defaultWorker *worker
@@ -130,9 +134,13 @@ func (w *worker) Find(name string) (v *View) {
 		name: name,
 		c:    make(chan *getViewByNameResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
+	w.send(req)
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
+	}
 }
 
 // Register begins collecting data for the given views.
@@ -148,8 +156,13 @@ func (w *worker) Register(views ...*View) error {
 		views: views,
 		err:   make(chan error),
 	}
-	w.c <- req
-	return <-req.err
+	w.send(req)
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errStopped
+	}
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -173,8 +186,11 @@ func (w *worker) Unregister(views ...*View) {
 		views: names,
 		done:  make(chan struct{}),
 	}
-	w.c <- req
-	<-req.done
+	w.send(req)
+	select {
+	case <-req.done:
+	case <-w.done:
+	}
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -191,9 +207,13 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 		v:   viewName,
 		c:   make(chan *retrieveDataResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
+	w.send(req)
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errStopped
+	}
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +238,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -251,8 +271,11 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 		d: d,
 		c: make(chan bool),
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
+	w.send(req)
+	select {
+	case <-req.c: // don't return until the timer is set to the new duration.
+	case <-w.done:
+	}
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -280,6 +303,15 @@ func (w *worker) SetResource(r *resource.Resource) {
 	w.r = r
 }
 
+// send hands cmd to the worker. Commands sent once the worker has stopped are
+// dropped.
+func (w *worker) send(cmd command) {
+	select {
+	case w.c <- cmd:
+	case <-w.done:
+	}
+}
+
 func (w *worker) Start() {
 	go w.start()
 }
@@ -297,7 +329,6 @@ func (w *worker) start() {
 		case <-w.quit:
 			w.timer.Stop()
 			prodMgr.DeleteProducer(w)
-			close(w.c)
 			close(w.done)
 			return
 		}
@@ -305,11 +336,7 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
-	select {
-	case <-w.quit:
-	default:
-		close(w.quit)
-	}
+	w.stopOnce.Do(func() { close(w.quit) })
 	<-w.done
 }
 
-- 
2.43.0


From 35a6fe8f8f2ec5f2322ed4acdedd6a9c72f7604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 12/46] fix: stats/view: unregistering a view must not race
 with reading its data

---
 stats/view/worker_commands.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..8684135 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -98,12 +98,13 @@ func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 		w.reportView(vi)
 
 		vi.unsubscribe()
+		// Remove the view before clearing it, a concurrent Read may be using it.
+		w.unregisterView(vi)
 		if !vi.isSubscribed() {
 			// this was the last subscription and view is not collecting anymore.
 			// The collected data can be cleared.
 			vi.clearRows()
 		}
-		w.unregisterView(vi)
 	}
 	cmd.done <- struct{}{}
 }
-- 
2.43.0


From 26aeda39c41c18e8e88c01b97341b08fba7e2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 13/46] fix: stats/view: setting the resource must not race
 with reading metrics

---
 stats/view/worker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index dd7aa7a..8c29da8 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -300,6 +300,8 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	w.r = r
 }
 
-- 
2.43.0


From 391726d6c271633ba252396bf8a26b16bed0400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 14/46] fix: ochttp: count the response bytes written through
 io.ReaderFrom

---
 plugin/ochttp/server.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..3b5d16b 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -223,6 +223,19 @@ func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingReaderFrom accounts for the bytes written through io.ReaderFrom.
+type trackingReaderFrom struct {
+	t  *trackingResponseWriter
+	rf io.ReaderFrom
+}
+
+func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	n, err := r.rf.ReadFrom(src)
+	r.t.respSize += n
+	trace.FromContext(r.t.ctx).AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
+	return n, err
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -237,6 +250,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i4 {
+		rf = &trackingReaderFrom{t: t, rf: rf}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From 01231fa1852c2ebeb9ecdf9402992eb5b25868e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 15/46] fix: ochttp: record the status that was sent, not the
 last one a handler set

---
 plugin/ochttp/server.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 3b5d16b..e5ddabc 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -209,6 +209,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 }
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
+	t.setStatus(http.StatusOK)
 	n, err := t.writer.Write(data)
 	t.respSize += int64(n)
 	// Add message event for request bytes sent.
@@ -219,10 +220,30 @@ func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.setStatus(statusCode)
+}
+
+// setStatus notes the status of the response: the first one that is not
+// informational, net/http ignores later ones.
+func (t *trackingResponseWriter) setStatus(statusCode int) {
+	if t.statusCode != 0 || statusCode < 200 && statusCode != http.StatusSwitchingProtocols {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingFlusher notes that flushing sends the header.
+type trackingFlusher struct {
+	t  *trackingResponseWriter
+	fl http.Flusher
+}
+
+func (f *trackingFlusher) Flush() {
+	f.t.setStatus(http.StatusOK)
+	f.fl.Flush()
+}
+
 // trackingReaderFrom accounts for the bytes written through io.ReaderFrom.
 type trackingReaderFrom struct {
 	t  *trackingResponseWriter
@@ -231,6 +252,9 @@ type trackingReaderFrom struct {
 
 func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
 	n, err := r.rf.ReadFrom(src)
+	if n > 0 {
+		r.t.setStatus(http.StatusOK)
+	}
 	r.t.respSize += n
 	trace.FromContext(r.t.ctx).AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
 	return n, err
@@ -250,6 +274,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i3 {
+		fl = &trackingFlusher{t: t, fl: fl}
+	}
 	if i4 {
 		rf = &trackingReaderFrom{t: t, rf: rf}
 	}
-- 
2.43.0


From ba723076ff4f9e6e31f24bab4d898291e7cb70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 16/46] fix: ochttp: a client request without a body sends 0
 bytes, not -1

---
 plugin/ochttp/client_stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..b3d88bf 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -104,8 +104,12 @@ func (t *tracker) end() {
 		if t.respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
+		sent := t.reqSize
+		if sent < 0 { // no request body
+			sent = 0
+		}
 		m := []stats.Measurement{
-			ClientSentBytes.M(t.reqSize),
+			ClientSentBytes.M(sent),
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-- 
2.43.0


From 97c3d8620feea8f71fe59237001bfc78c0c09424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 17/46] fix: ochttp: one value that cannot be a tag must not
 drop the other tags or the measurements

---
 plugin/ochttp/client_stats.go |  2 +-
 plugin/ochttp/server.go       |  4 ++--
 plugin/ochttp/stats.go        | 16 ++++++++++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index b3d88bf..c98f188 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -33,7 +33,7 @@ type statsTransport struct {
 
 // RoundTrip implements http.RoundTripper, delegating to Base and recording stats for the request.
 func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
-	ctx, _ := tag.New(req.Context(),
+	ctx := withTags(req.Context(),
 		tag.Upsert(KeyClientHost, req.Host),
 		tag.Upsert(Host, req.Host),
 		tag.Upsert(KeyClientPath, req.URL.Path),
diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index e5ddabc..3b52393 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -147,7 +147,7 @@ func (h *Handler) extractSpanContext(r *http.Request) (trace.SpanContext, bool)
 }
 
 func (h *Handler) startStats(w http.ResponseWriter, r *http.Request) (http.ResponseWriter, func(tags *addedTags)) {
-	ctx, _ := tag.New(r.Context(),
+	ctx := withTags(r.Context(),
 		tag.Upsert(Host, r.Host),
 		tag.Upsert(Path, r.URL.Path),
 		tag.Upsert(Method, r.Method))
@@ -200,7 +200,7 @@ func (t *trackingResponseWriter) end(tags *addedTags) {
 		allTags := make([]tag.Mutator, len(tags.t)+1)
 		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
 		copy(allTags[1:], tags.t)
-		stats.RecordWithTags(t.ctx, allTags, m...)
+		stats.Record(withTags(t.ctx, allTags...), m...)
 	})
 }
 
diff --git a/plugin/ochttp/stats.go b/plugin/ochttp/stats.go
index ee37290..cd9d51a 100644
--- a/plugin/ochttp/stats.go
+++ b/plugin/ochttp/stats.go
@@ -15,6 +15,8 @@
 package ochttp
 
 import (
+	"context"
+
 	"go.opencensus.io/stats"
 	"go.opencensus.io/stats/view"
 	"go.opencensus.io/tag"
@@ -114,6 +116,20 @@ var (
 	KeyServerRoute = tag.MustNewKey("http_server_route")
 )
 
+// withTags returns ctx with the mutators applied, except for those whose value
+// (taken from a request, possibly) cannot be a tag value.
+func withTags(ctx context.Context, mutators ...tag.Mutator) context.Context {
+	if tagged, err := tag.New(ctx, mutators...); err == nil {
+		return tagged
+	}
+	for _, m := range mutators {
+		if tagged, err := tag.New(ctx, m); err == nil {
+			ctx = tagged
+		}
+	}
+	return ctx
+}
+
 // Client tag keys.
 var (
 	// KeyClientMethod is the HTTP method, capitalized (i.e. GET, POST, PUT, DELETE, etc.).
-- 
2.43.0


From 801dc5f135cb344a571697d3c814df5c6ae0f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 18/46] fix: ochttp: tag transport errors with the documented
 status "error"

---
 plugin/ochttp/client_stats.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index c98f188..ca184bc 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -57,10 +57,10 @@ func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	resp, err := t.base.RoundTrip(req)
 
 	if err != nil {
-		track.statusCode = http.StatusInternalServerError
+		track.status = "error"
 		track.end()
 	} else {
-		track.statusCode = resp.StatusCode
+		track.status = strconv.Itoa(resp.StatusCode)
 		if req.Method != "HEAD" {
 			track.respContentLength = resp.ContentLength
 		}
@@ -91,7 +91,7 @@ type tracker struct {
 	reqSize           int64
 	start             time.Time
 	body              io.ReadCloser
-	statusCode        int
+	status            string // status code, or "error"
 	endOnce           sync.Once
 }
 
@@ -120,8 +120,8 @@ func (t *tracker) end() {
 		}
 
 		stats.RecordWithTags(t.ctx, []tag.Mutator{
-			tag.Upsert(StatusCode, strconv.Itoa(t.statusCode)),
-			tag.Upsert(KeyClientStatus, strconv.Itoa(t.statusCode)),
+			tag.Upsert(StatusCode, t.status),
+			tag.Upsert(KeyClientStatus, t.status),
 		}, m...)
 	})
 }
-- 
2.43.0


From b45cc2f94f9f115838239f1a1797f0834a77df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 19/46] fix: ochttp: record the status sent by a copy that
 exceeds Content-Length

---
 plugin/ochttp/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 3b52393..8c4c19d 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -252,7 +252,9 @@ type trackingReaderFrom struct {
 
 func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
 	n, err := r.rf.ReadFrom(src)
-	if n > 0 {
+	// A copy of nothing sends no header; one refused because it exceeds the
+	// declared length does, like any other write.
+	if n > 0 || err == http.ErrContentLength {
 		r.t.setStatus(http.StatusOK)
 	}
 	r.t.respSize += n
-- 
2.43.0


From da18ee27a2441c2c407ccd67dabc278ab16b141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 20/46] fix: ocgrpc: ignore the Begin event of an RPC that was
 not tagged, as other events

---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From cf8054fe4ab7b701224ca05942db322ae10c2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 21/46] fix: ocgrpc: tag started server RPCs with the server
 method, not as a client's

---
 plugin/ocgrpc/stats_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index e4ecf71..72609b3 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -112,7 +112,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
-- 
2.43.0


From 850bda501fc1980f305af163e7b968c032d94af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 22/46] fix: ocgrpc: count RPCs whose method name cannot be a
 tag value

---
 plugin/ocgrpc/stats_common.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 72609b3..d2e57fc 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -80,6 +80,16 @@ func methodName(fullname string) string {
 }
 
 // statsHandleRPC processes the RPC events.
+// withMethod returns ctx tagged with the method, or ctx itself if the name of
+// the method cannot be a tag value: the RPC is counted all the same.
+func withMethod(ctx context.Context, k tag.Key, method string) context.Context {
+	tagged, err := tag.New(ctx, tag.Upsert(k, methodName(method)))
+	if err != nil {
+		return ctx
+	}
+	return tagged
+}
+
 func statsHandleRPC(ctx context.Context, s stats.RPCStats) {
 	switch st := s.(type) {
 	case *stats.OutHeader, *stats.InHeader, *stats.InTrailer, *stats.OutTrailer:
@@ -107,12 +117,10 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 	}
 
 	if s.IsClient() {
-		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+		ocstats.RecordWithOptions(withMethod(ctx, KeyClientMethod, d.method),
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
-		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
+		ocstats.RecordWithOptions(withMethod(ctx, KeyServerMethod, d.method),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
@@ -167,9 +175,8 @@ func handleRPCEnd(ctx context.Context, s *stats.End) {
 	latencyMillis := float64(elapsedTime) / float64(time.Millisecond)
 	attachments := getSpanCtxAttachment(ctx)
 	if s.Client {
-		ocstats.RecordWithOptions(ctx,
+		ocstats.RecordWithOptions(withMethod(ctx, KeyClientMethod, d.method),
 			ocstats.WithTags(
-				tag.Upsert(KeyClientMethod, methodName(d.method)),
 				tag.Upsert(KeyClientStatus, st)),
 			ocstats.WithAttachments(attachments),
 			ocstats.WithMeasurements(
-- 
2.43.0


From f74cf88ab04c2179d5b6b00c182079727f146c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 23/46] fix: registering shared views or aggregations with two
 meters is a data race

canonicalize wrote to the aggregation on every registration, while another
meter could be registering or using the same one (Count and Sum always are).
---
 stats/view/view.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..ca04800 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"reflect"
 	"sort"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -73,6 +74,10 @@ func (v *View) same(other *View) bool {
 // Deprecated: this should not be public.
 var ErrNegativeBucketBounds = errors.New("negative bucket bounds not supported")
 
+// canonicalizeMu guards the canonicalization of views, and of the aggregations
+// they share, that are registered with several meters.
+var canonicalizeMu sync.Mutex
+
 // canonicalize canonicalizes v by setting explicit
 // defaults for Name and Description and sorting the TagKeys
 func (v *View) canonicalize() error {
@@ -82,6 +87,8 @@ func (v *View) canonicalize() error {
 	if v.Aggregation == nil {
 		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
 	}
+	canonicalizeMu.Lock()
+	defer canonicalizeMu.Unlock()
 	if v.Name == "" {
 		v.Name = v.Measure.Name()
 	}
@@ -100,8 +107,11 @@ func (v *View) canonicalize() error {
 			return ErrNegativeBucketBounds
 		}
 	}
-	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	// drop 0 bucket silently. A canonical aggregation may be in use by another
+	// meter and is not written to.
+	if b := dropZeroBounds(v.Aggregation.Buckets...); v.Aggregation.Buckets == nil || len(b) != len(v.Aggregation.Buckets) {
+		v.Aggregation.Buckets = b
+	}
 
 	return nil
 }
-- 
2.43.0


From 6110060a3e9cb27bd6865c716c7233d9c49e7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 24/46] fix: tracecontext: a tracestate header of another trace
 must not be sent on

SpanContextToRequest replaced traceparent but left the tracestate header of a
proxied or retried request in place when the span has no tracestate.
---
 plugin/ochttp/propagation/tracecontext/propagation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..eb63ffc 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -196,6 +196,8 @@ func (f *HTTPFormat) SpanContextToHeaders(sc trace.SpanContext) (tp string, ts s
 func (f *HTTPFormat) SpanContextToRequest(sc trace.SpanContext, req *http.Request) {
 	tp, ts := f.SpanContextToHeaders(sc)
 	req.Header.Set(traceparentHeader, tp)
+	// A tracestate that is there already belongs to another traceparent.
+	req.Header.Del(tracestateHeader)
 	if ts != "" {
 		req.Header.Set(tracestateHeader, ts)
 	}
-- 
2.43.0


From 39242e8d32b2787249c2b9d3a639c0338ae922e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 25/46] fix: zpages: show the errors of the requested code only

zsubtype is documented to select one error code, but every list of errors
held all of them.
---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..37e19c3 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -353,7 +353,7 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
 	}
 	return spans
 }
-- 
2.43.0


From d5ffb2ad4b69b08448e59049cf074ded1910d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 26/46] fix: zpages: the last latency bucket starts at one
 minute

As in the span store; the lists of the last two buckets did not hold the
spans between 60 and 100 seconds that the summary counts there.
---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 37e19c3..9982b25 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
-- 
2.43.0


From 1520ed6e212a021f1f0e429cf9e56e2d97ade1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 27/46] fix: zpages: list a span on a bucket boundary in its
 own bucket only

A latency of exactly a boundary was listed in the bucket below too, which
does not count it.
---
 zpages/tracez.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 9982b25..f28a205 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -344,12 +344,14 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 	case 1: // latency
 		var min, max time.Duration
 		n := len(defaultLatencies)
+		// Each bucket ends just below the start of the next one, and max is
+		// inclusive.
 		if spanSubtype == 0 {
-			max = defaultLatencies[0]
+			max = defaultLatencies[0] - 1
 		} else if spanSubtype == n {
 			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
 		} else if 0 < spanSubtype && spanSubtype < n {
-			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
+			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]-1
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-- 
2.43.0


From 4e5520d3ffb7e91ba0ae490e84e6a310196e7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 28/46] fix: zpages: show the input rate of received RPCs

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..c899171 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -304,6 +304,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerReceivedMessagesPerRPCView:
 			s.CountTotal = uint64(count)
 			s.RPCRateTotal = computeRate(0, count)
-- 
2.43.0


From b2c042b001f25540ee9795c8465d6131261a12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 29/46] fix: zpages: drop the heading without values from the
 text RPC page

---
 zpages/rpcz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index c899171..e9fd7d9 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -108,8 +108,8 @@ func WriteTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
-		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
 				s.Method,
-- 
2.43.0


From 3c3363bbb810a8a58d74067afd70c798f8da1196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 30/46] fix: zpages: name the unit the RPC pages show data
 rates in

---
 zpages/internal/resources.go        | 21 ++++++++++++---------
 zpages/internal/templates/rpcz.html |  4 ++--
 zpages/rpcz.go                      |  2 +-
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/zpages/internal/resources.go b/zpages/internal/resources.go
index 5b7fc76..be3b126 100644
--- a/zpages/internal/resources.go
+++ b/zpages/internal/resources.go
@@ -226,15 +226,18 @@ F730zBNdaz3kxKTGnMcAdkJSLkddM9wMNmI4tI+WoaANfx9cTiR/QbvcgxqBYx/q39bqv/qn45lTmHoc
 		size:    2626,
 		modtime: 1519164559,
 		compressed: `
-H4sIAAAAAAAC/+yW3WrbMBTH7/0UwmUjYyxJU3o1W1C6sQ4WNrq+gCwdfzBFMtJx9+Hl3cex3DhNCrOz
-XfbGxFZ+5/8D+Ry5bZ0wBbD5VxT4wdmm9tttlNQ8QZFpYFkhrbYuPQMAyHP2vVJYpufL5QueoGNCV4VJ
-JRgExxNUPMmtQearX5C+XvG2nb+rHEisrNlukwUt8mRB/1ugowuF8GRR8+ggMD7L8/wSIGa5ExtIM/uD
-SdDa10JWpkiX3V0tlKK7FY8ixhgjp6ECAFwqiHm3FJZLCi2DKnnsLzGphfdprM9jJi0lmfSCX9vG4FTo
-6r5gWiAY+ZPNNv7VVP5WILCZq+ViOvvR1A2y2bfsBPZzg6fD752zzndU2Aza47H70r9KGnLka8DSql38
-S5P5+u3x9Vgr1HBVUSJfV2bel3i8cOOefn5ncf6c+Zz5XzKfaADyGLrlYn9UvlnxB52DERlFw4Q2oval
-RRrQDyX3zBVPMhq4oXlo2mZHjXvcyqrXjzv/mAp0A29dmQbht6TfVGscdWMbN5W5syj0I2ik59V98SmM
-2F5240elDlynO5kKwjtspO3tl2sa6r2qEwijYnusM50KBdE9aqRqd4DsySqBYnT2Du6UT0OD+AE7Uj6c
-YKfaD/R0/YH9F/9wiE5uv4BN7L8A/a0BwxxqWzCKPg37b7bdgz8BAAD//6NjPmJCCgAA
+H4sIAAAAAAACA+2WW2+bMBSA3/kVFtWmTNOSNFWfBpbablonrWrV7g8Y21wk
+x7ZssxvLf58vFGhSaSbbY3kgYPOd8yXOOabrFOIVBcsHg8wnJVqpd7skkzAz
+qGAUFBUWTKj8hNqjLMH3hpg6P12vX9knFECsqXiOKTdU2QECs1JwA3Tzi+Zv
+N7Drlh8aRbFpBN/tspWbhNnKPbcyyp1cEvspYbKXMD0py/Kc0hSUCm1pXogf
+AFPGtES44VW+9ncSEeLuNjBJgD2c0xjBKp8TmkI/FaZrl7QOqs5jOgUwQ1rn
+KTtNgQ1hM/H8DF6Jlpu50MW3CjBkKMc/wWKr38zl7y0LFkri1Xz2M5etAYub
+yyPY29YcD39USijtqbAYbo1j16X/KzFaGnhDTS3IkP41L7R8f3g+1AoxVFPV
+NkjDl32IpxPX6vnxr8IsX3K+5PwvOZ8pAOcxVsvZtFW+28BHnb0WmSTd0KE5
+kroWxjXox5ATcwsUruGG4nHdtjgo3MNSJr1+6v1TF8A3PPvNW0N/Y3ftYsVR
+16JVcxn7kyH2BIr0tD32S2ixvexWR2UdOa87mwrCAxZpe3935Zp6r6rsZVTa
+HvOmc6EgOqEiVf0GMpElyKDo3APslY9Dg/geGykfdrBj7Ud6vv7I/ot/2ERn
+l1/AZtZfgP5WgKEPdR3lxL0a9u9sw8AfSwebfkIKAAA=
 `,
 	},
 
diff --git a/zpages/internal/templates/rpcz.html b/zpages/internal/templates/rpcz.html
index a01b30b..114fb66 100644
--- a/zpages/internal/templates/rpcz.html
+++ b/zpages/internal/templates/rpcz.html
@@ -7,8 +7,8 @@
         <th class="l1" colspan=3>Count</th><td></td>
         <th class="l1" colspan=3>Avg latency (ms)</th><td></td>
         <th class="l1" colspan=3>Rate (rpc/s)</th><td></td>
-        <th class="l1" colspan=3>Input (kb/s)</th><td></td>
-        <th class="l1" colspan=3>Output (kb/s)</th><td></td>
+        <th class="l1" colspan=3>Input (MB/s)</th><td></td>
+        <th class="l1" colspan=3>Output (MB/s)</th><td></td>
         <th class="l1" colspan=3>Errors</th>
     </tr>
 
diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index e9fd7d9..8c10538 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -108,7 +108,7 @@ func WriteTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (KiB/s)\t\t\tOut (KiB/s)\t\t\tErrors\t\t\n")
 		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
-- 
2.43.0


From 9300d68806262d0d1af15859ecf12ce36a33d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 31/46] fix: runmetrics: concurrent reads of one producer are a
 data race

---
 plugin/runmetrics/producer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..631e828 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -19,6 +19,9 @@ type (
 		options RunMetricOptions
 		reg     *metric.Registry
 
+		// mu is held while the metrics are set from the runtime and read, as
+		// a producer may have several readers.
+		mu                 sync.Mutex
 		deprecatedMemStats *deprecatedMemStats
 		memStats           *memStats
 		cpuStats           *cpuStats
@@ -165,6 +168,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 90ad5081dfd62bd9d18745f25c53847b17b1de9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 32/46] fix: runmetrics: memory metrics stay 0 without
 UseDerivedCumulative

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 631e828..b657b90 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -171,6 +171,10 @@ func (p *producer) Read() []*metricdata.Metric {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 638cfdbea1db4defde9454ce60accd5b99a5c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 33/46] fix: zpages: serve the style sheet the pages link to

---
 zpages/zpages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/zpages.go b/zpages/zpages.go
index 7ee2c2e..8471c23 100644
--- a/zpages/zpages.go
+++ b/zpages/zpages.go
@@ -57,7 +57,7 @@ func Handle(mux *http.ServeMux, pathPrefix string) {
 	}
 	mux.HandleFunc(path.Join(pathPrefix, "rpcz"), rpczHandler)
 	mux.HandleFunc(path.Join(pathPrefix, "tracez"), tracezHandler)
-	mux.Handle(path.Join(pathPrefix, "public/"), http.FileServer(fs))
+	mux.Handle(path.Join(pathPrefix, "public")+"/", http.StripPrefix(path.Join("/", pathPrefix), http.FileServer(fs)))
 }
 
 var enableOnce sync.Once
-- 
2.43.0


From 9b976c64c90550ef313516f992e05ea10cdf75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 34/46] fix: ocgrpc: forwarded metadata overrides the client's
 own span context

---
 plugin/ocgrpc/trace_common.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..154e9be 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -40,7 +40,14 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSampler(c.StartOptions.Sampler),
 		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
 	traceContextBinary := propagation.Binary(span.SpanContext())
-	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
+	// Replace a span context the caller may have copied from the metadata of
+	// its own incoming call: the server uses the first value only.
+	md, ok := metadata.FromOutgoingContext(ctx)
+	if !ok {
+		md = metadata.MD{}
+	}
+	md.Set(traceContextKey, string(traceContextBinary))
+	return metadata.NewOutgoingContext(ctx, md)
 }
 
 // TagRPC creates a new trace span for the server side of the RPC.
-- 
2.43.0


From af480912b38ca57783185a1ff6a05fcb93c567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 35/46] fix: ocgrpc: forwarded metadata overrides the caller's
 tags

---
 plugin/ocgrpc/client_stats_handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plugin/ocgrpc/client_stats_handler.go b/plugin/ocgrpc/client_stats_handler.go
index b363498..61c207c 100644
--- a/plugin/ocgrpc/client_stats_handler.go
+++ b/plugin/ocgrpc/client_stats_handler.go
@@ -21,9 +21,13 @@ import (
 
 	"go.opencensus.io/tag"
 	"google.golang.org/grpc/grpclog"
+	"google.golang.org/grpc/metadata"
 	"google.golang.org/grpc/stats"
 )
 
+// tagsKey is the metadata key under which gRPC transports the encoded tags.
+const tagsKey = "grpc-tags-bin"
+
 // statsTagRPC gets the tag.Map populated by the application code, serializes
 // its tags into the GRPC metadata in order to be sent to the server.
 func (h *ClientHandler) statsTagRPC(ctx context.Context, info *stats.RPCTagInfo) context.Context {
@@ -43,6 +47,12 @@ func (h *ClientHandler) statsTagRPC(ctx context.Context, info *stats.RPCTagInfo)
 	if ts != nil {
 		encoded := tag.Encode(ts)
 		ctx = stats.SetTags(ctx, encoded)
+		// Tags the caller may have copied from the metadata of its own incoming
+		// call would be sent as well, and take precedence on the server.
+		if md, ok := metadata.FromOutgoingContext(ctx); ok && len(md.Get(tagsKey)) > 0 {
+			delete(md, tagsKey)
+			ctx = metadata.NewOutgoingContext(ctx, md)
+		}
 	}
 
 	return context.WithValue(ctx, rpcDataKey, d)
-- 
2.43.0


From b00a96e0aed9db0236464df1e439fa958a1f53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 36/46] fix: a span keeps its own copy of the attributes of a
 link

---
 trace/trace.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trace/trace.go b/trace/trace.go
index 861df9d..d955321 100644
--- a/trace/trace.go
+++ b/trace/trace.go
@@ -503,6 +503,14 @@ func (s *span) AddLink(l Link) {
 	if !s.IsRecordingEvents() {
 		return
 	}
+	if l.Attributes != nil {
+		// Copy: the caller may reuse its map.
+		attributes := make(map[string]interface{}, len(l.Attributes))
+		for k, v := range l.Attributes {
+			attributes[k] = v
+		}
+		l.Attributes = attributes
+	}
 	s.mu.Lock()
 	s.links.add(l)
 	s.mu.Unlock()
-- 
2.43.0


From 2710d68cb0e10e4910860de4e27d025abe99838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 37/46] fix: record copies the measurements and attachments it
 is given, which are used after it returns

---
 stats/view/worker.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 8c29da8..4c9add1 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -232,9 +232,19 @@ func (w *worker) Record(tags *tag.Map, ms interface{}, attachments map[string]in
 // recordMeasurement records a set of measurements ms associated with the given tags and attachments.
 // This is the same as Record but without an interface{} type to avoid allocations
 func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attachments map[string]interface{}) {
+	if len(attachments) > 0 {
+		// Copy: the caller may reuse its map.
+		copied := make(map[string]interface{}, len(attachments))
+		for k, v := range attachments {
+			copied[k] = v
+		}
+		attachments = copied
+	}
 	req := &recordReq{
-		tm:          tags,
-		ms:          ms,
+		tm: tags,
+		// Copy: the measurements are added to the views later, and the caller
+		// may reuse its slice.
+		ms:          append([]stats.Measurement(nil), ms...),
 		attachments: attachments,
 		t:           time.Now(),
 	}
-- 
2.43.0


From 45e6b624e2f17630c29628c1653d3244fe49b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 38/46] fix: Tracestate.Entries returns a copy of the entries

---
 trace/tracestate/tracestate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 836142e..19df019 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -55,12 +55,12 @@ type Entry struct {
 	Value string
 }
 
-// Entries returns a slice of Entry.
+// Entries returns a slice of Entry. It is a copy, which the caller may change.
 func (ts *Tracestate) Entries() []Entry {
 	if ts == nil {
 		return nil
 	}
-	return ts.entries
+	return append([]Entry(nil), ts.entries...)
 }
 
 func (ts *Tracestate) remove(key string) *Entry {
-- 
2.43.0


From bd19b5cca5f11ee1025645086f6992afe8201e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:59 +0000
Subject: [PATCH 39/46] fix: a distribution keeps its own copy of the bounds it
 is given

---
 stats/view/aggregation.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stats/view/aggregation.go b/stats/view/aggregation.go
index 61f72d2..fe15574 100644
--- a/stats/view/aggregation.go
+++ b/stats/view/aggregation.go
@@ -102,8 +102,10 @@ func Sum() *Aggregation {
 // element is the common boundary of the overflow and underflow buckets.
 func Distribution(bounds ...float64) *Aggregation {
 	agg := &Aggregation{
-		Type:    AggTypeDistribution,
-		Buckets: bounds,
+		Type: AggTypeDistribution,
+		// Copy: registering a view sorts them, and the caller may reuse its
+		// slice.
+		Buckets: append([]float64(nil), bounds...),
 	}
 	agg.newData = func(t time.Time) AggregationData {
 		return newDistributionData(agg, t)
-- 
2.43.0


From adeefc4466debbb63601589dd60852210bccb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:55 +0000
Subject: [PATCH 40/46] fix: a meter may be started again, started after Stop,
 and stopped before it was started

---
 stats/view/worker.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 4c9add1..f0df1d3 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -50,6 +50,7 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	startOnce  sync.Once
 	stopOnce   sync.Once
 	mu         sync.RWMutex
 	r          *resource.Resource
@@ -329,6 +330,11 @@ func (w *worker) Start() {
 }
 
 func (w *worker) start() {
+	first := false
+	w.startOnce.Do(func() { first = true })
+	if !first { // already started, or stopped before
+		return
+	}
 	prodMgr := metricproducer.GlobalManager()
 	prodMgr.AddProducer(w)
 
@@ -348,6 +354,10 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
+	w.startOnce.Do(func() { // never started: there is nothing to wait for
+		w.timer.Stop()
+		close(w.done)
+	})
 	w.stopOnce.Do(func() { close(w.quit) })
 	<-w.done
 }
-- 
2.43.0


From 31eed9864c3f2747ecff7b8bfea3abc5a4ae6e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:33 +0000
Subject: [PATCH 41/46] fix: a route may be set by a handler that outlives the
 response

---
 plugin/ochttp/route.go  | 22 +++++++++++++++++++---
 plugin/ochttp/server.go |  5 +++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/route.go b/plugin/ochttp/route.go
index 5e6a343..cad9c13 100644
--- a/plugin/ochttp/route.go
+++ b/plugin/ochttp/route.go
@@ -17,6 +17,7 @@ package ochttp
 import (
 	"context"
 	"net/http"
+	"sync"
 
 	"go.opencensus.io/tag"
 )
@@ -26,7 +27,7 @@ import (
 // and using WithRouteTag is not an option, but provides a way to hook into the request flow.
 func SetRoute(ctx context.Context, route string) {
 	if a, ok := ctx.Value(addedTagsKey{}).(*addedTags); ok {
-		a.t = append(a.t, tag.Upsert(KeyServerRoute, route))
+		a.add(tag.Upsert(KeyServerRoute, route))
 	}
 }
 
@@ -50,12 +51,27 @@ type taggedHandlerFunc func(w http.ResponseWriter, r *http.Request) []tag.Mutato
 func (h taggedHandlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	tags := h(w, r)
 	if a, ok := r.Context().Value(addedTagsKey{}).(*addedTags); ok {
-		a.t = append(a.t, tags...)
+		a.add(tags...)
 	}
 }
 
 type addedTagsKey struct{}
 
+// addedTags may be added to after the request ended, by a handler that outlives
+// the response (as with http.TimeoutHandler).
 type addedTags struct {
-	t []tag.Mutator
+	mu sync.Mutex
+	t  []tag.Mutator
+}
+
+func (a *addedTags) add(t ...tag.Mutator) {
+	a.mu.Lock()
+	defer a.mu.Unlock()
+	a.t = append(a.t, t...)
+}
+
+func (a *addedTags) all() []tag.Mutator {
+	a.mu.Lock()
+	defer a.mu.Unlock()
+	return append([]tag.Mutator(nil), a.t...)
 }
diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 8c4c19d..24e0f64 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -197,9 +197,10 @@ func (t *trackingResponseWriter) end(tags *addedTags) {
 		if t.reqSize >= 0 {
 			m = append(m, ServerRequestBytes.M(t.reqSize))
 		}
-		allTags := make([]tag.Mutator, len(tags.t)+1)
+		added := tags.all()
+		allTags := make([]tag.Mutator, len(added)+1)
 		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
-		copy(allTags[1:], tags.t)
+		copy(allTags[1:], added)
 		stats.Record(withTags(t.ctx, allTags...), m...)
 	})
 }
-- 
2.43.0


From 714835c497f0608275c63c5732d22d1f765c2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:33 +0000
Subject: [PATCH 42/46] fix: a response body may be closed while it is read

---
 plugin/ochttp/client_stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index ca184bc..e1ef01a 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -20,6 +20,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"go.opencensus.io/stats"
@@ -85,8 +86,8 @@ func (t statsTransport) CancelRequest(req *http.Request) {
 }
 
 type tracker struct {
+	respSize          int64 // accessed atomically: the body may be closed while it is read; first for alignment
 	ctx               context.Context
-	respSize          int64
 	respContentLength int64
 	reqSize           int64
 	start             time.Time
@@ -100,8 +101,9 @@ var _ io.ReadCloser = (*tracker)(nil)
 func (t *tracker) end() {
 	t.endOnce.Do(func() {
 		latencyMs := float64(time.Since(t.start)) / float64(time.Millisecond)
-		respSize := t.respSize
-		if t.respSize == 0 && t.respContentLength > 0 {
+		read := atomic.LoadInt64(&t.respSize)
+		respSize := read
+		if read == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
 		sent := t.reqSize
@@ -113,7 +115,7 @@ func (t *tracker) end() {
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-			ClientResponseBytes.M(t.respSize),
+			ClientResponseBytes.M(read),
 		}
 		if t.reqSize >= 0 {
 			m = append(m, ClientRequestBytes.M(t.reqSize))
@@ -128,7 +130,7 @@ func (t *tracker) end() {
 
 func (t *tracker) Read(b []byte) (int, error) {
 	n, err := t.body.Read(b)
-	t.respSize += int64(n)
+	atomic.AddInt64(&t.respSize, int64(n))
 	switch err {
 	case nil:
 		return n, nil
-- 
2.43.0


From 472e9f7735ddbf7c90ac07cbeffaf09f38337484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:50 +0000
Subject: [PATCH 43/46] fix: a response without a body passes through the HTTP
 client transport

A base transport may answer without a body, which http.Client permits; the
span's wrapper around the missing body panicked when it was read or closed.
---
 plugin/ochttp/trace.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/ochttp/trace.go b/plugin/ochttp/trace.go
index ed3a5db..f519560 100644
--- a/plugin/ochttp/trace.go
+++ b/plugin/ochttp/trace.go
@@ -91,6 +91,11 @@ func (t *traceTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	span.AddAttributes(responseAttrs(resp)...)
 	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))
 
+	if resp.Body == nil { // nothing to read or close
+		span.End()
+		return resp, err
+	}
+
 	// span.End() will be invoked after
 	// a read from resp.Body returns io.EOF or when
 	// resp.Body.Close() is invoked.
-- 
2.43.0


From 7fa88df215b0e65e3931fea74dbb7e188cee5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:50 +0000
Subject: [PATCH 44/46] fix: http.ResponseController reaches the server through
 ochttp.Handler

The wrapped ResponseWriter had no Unwrap method, so setting a deadline failed
in a handler that works without ochttp.
---
 plugin/ochttp/server.go | 77 +++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 24e0f64..28b4e89 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -263,6 +263,17 @@ func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
 	return n, err
 }
 
+// unwrapper is a ResponseWriter that http.ResponseController can see through.
+type unwrapper interface {
+	http.ResponseWriter
+	Unwrap() http.ResponseWriter
+}
+
+// Unwrap returns the original ResponseWriter.
+func (t *trackingResponseWriter) Unwrap() http.ResponseWriter {
+	return t.writer
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -287,95 +298,95 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 		}{t}
 	case !i0 && !i1 && !i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			io.ReaderFrom
 		}{t, rf}
 	case !i0 && !i1 && !i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Flusher
 		}{t, fl}
 	case !i0 && !i1 && !i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Flusher
 			io.ReaderFrom
 		}{t, fl, rf}
 	case !i0 && !i1 && i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Pusher
 		}{t, pu}
 	case !i0 && !i1 && i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Pusher
 			io.ReaderFrom
 		}{t, pu, rf}
 	case !i0 && !i1 && i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Pusher
 			http.Flusher
 		}{t, pu, fl}
 	case !i0 && !i1 && i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Pusher
 			http.Flusher
 			io.ReaderFrom
 		}{t, pu, fl, rf}
 	case !i0 && i1 && !i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 		}{t, cn}
 	case !i0 && i1 && !i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			io.ReaderFrom
 		}{t, cn, rf}
 	case !i0 && i1 && !i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			http.Flusher
 		}{t, cn, fl}
 	case !i0 && i1 && !i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			http.Flusher
 			io.ReaderFrom
 		}{t, cn, fl, rf}
 	case !i0 && i1 && i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			http.Pusher
 		}{t, cn, pu}
 	case !i0 && i1 && i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			http.Pusher
 			io.ReaderFrom
 		}{t, cn, pu, rf}
 	case !i0 && i1 && i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			http.Pusher
 			http.Flusher
 		}{t, cn, pu, fl}
 	case !i0 && i1 && i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.CloseNotifier
 			http.Pusher
 			http.Flusher
@@ -383,51 +394,51 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		}{t, cn, pu, fl, rf}
 	case i0 && !i1 && !i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 		}{t, hj}
 	case i0 && !i1 && !i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			io.ReaderFrom
 		}{t, hj, rf}
 	case i0 && !i1 && !i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.Flusher
 		}{t, hj, fl}
 	case i0 && !i1 && !i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.Flusher
 			io.ReaderFrom
 		}{t, hj, fl, rf}
 	case i0 && !i1 && i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.Pusher
 		}{t, hj, pu}
 	case i0 && !i1 && i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.Pusher
 			io.ReaderFrom
 		}{t, hj, pu, rf}
 	case i0 && !i1 && i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.Pusher
 			http.Flusher
 		}{t, hj, pu, fl}
 	case i0 && !i1 && i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.Pusher
 			http.Flusher
@@ -435,27 +446,27 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		}{t, hj, pu, fl, rf}
 	case i0 && i1 && !i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 		}{t, hj, cn}
 	case i0 && i1 && !i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			io.ReaderFrom
 		}{t, hj, cn, rf}
 	case i0 && i1 && !i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			http.Flusher
 		}{t, hj, cn, fl}
 	case i0 && i1 && !i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			http.Flusher
@@ -463,14 +474,14 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		}{t, hj, cn, fl, rf}
 	case i0 && i1 && i2 && !i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			http.Pusher
 		}{t, hj, cn, pu}
 	case i0 && i1 && i2 && !i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			http.Pusher
@@ -478,7 +489,7 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		}{t, hj, cn, pu, rf}
 	case i0 && i1 && i2 && i3 && !i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			http.Pusher
@@ -486,7 +497,7 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		}{t, hj, cn, pu, fl}
 	case i0 && i1 && i2 && i3 && i4:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 			http.Hijacker
 			http.CloseNotifier
 			http.Pusher
@@ -495,7 +506,7 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		}{t, hj, cn, pu, fl, rf}
 	default:
 		return struct {
-			http.ResponseWriter
+			unwrapper
 		}{t}
 	}
 }
-- 
2.43.0


From 6fe2e14da6246b12d3113a37ad320fc39b346d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:53 +0000
Subject: [PATCH 45/46] fix: write the RPC z-pages without holding the lock of
 their stats

A reader that stalled while /rpcz was written to it held up the export of
view data, and with it the whole view worker; a writer that panicked left
the lock locked for good.
---
 zpages/rpcz.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index 8c10538..0434045 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -87,17 +87,13 @@ func WriteHTMLRpczPage(w io.Writer) {
 //
 // It includes neither a header nor footer, so you can embed this data in other pages.
 func WriteHTMLRpczSummary(w io.Writer) {
-	mu.Lock()
 	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
-	mu.Unlock()
 }
 
 // WriteTextRpczPage writes formatted text to w containing per-method RPC stats.
 func WriteTextRpczPage(w io.Writer) {
-	mu.Lock()
-	defer mu.Unlock()
 	page := getStatsPage()
 
 	for i, sg := range page.StatGroups {
@@ -317,16 +313,21 @@ func (s snapExporter) ExportView(vd *view.Data) {
 	}
 }
 
+// getStatsPage returns a copy of the stats, so that they can be written to a
+// reader that may be slow without holding up the exports.
 func getStatsPage() *statsPage {
 	sentStats := statGroup{Direction: "Sent"}
 	receivedStats := statGroup{Direction: "Received"}
+	mu.Lock()
 	for key, sg := range snaps {
+		c := *sg
 		if key.received {
-			receivedStats.Snapshots = append(receivedStats.Snapshots, sg)
+			receivedStats.Snapshots = append(receivedStats.Snapshots, &c)
 		} else {
-			sentStats.Snapshots = append(sentStats.Snapshots, sg)
+			sentStats.Snapshots = append(sentStats.Snapshots, &c)
 		}
 	}
+	mu.Unlock()
 	sort.Sort(&sentStats)
 	sort.Sort(&receivedStats)
 
-- 
2.43.0


From f82562612bad20ef51cd7557d28083fa36584bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:23 +0000
Subject: [PATCH 46/46] fix: ocgrpc: link the span of a public endpoint to the
 remote span as its parent

---
 plugin/ocgrpc/trace_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 154e9be..e9dd949 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -83,7 +83,7 @@ func (s *ServerHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSpanKind(trace.SpanKindServer),
 		trace.WithSampler(s.StartOptions.Sampler))
 	if haveParent {
-		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeChild})
+		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})
 	}
 	return ctx
 }
-- 
2.43.0

