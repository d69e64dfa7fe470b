PROPS = [
dict(id="S01", title="A sampled span is exported once with exactly what was recorded, within limits",
 statement="Whatever sequence of calls is made on a sampled span, ending it hands every registered exporter, once, data in which name, status, times, attributes, annotations, message events, links and child count are exactly those recorded before the end; each kind keeps at most its configured limit (by default 32, for message events 128) of most recent entries (attributes: most recently written keys) and counts the rest as dropped. Calls after the end, on a nil span or on a non-recording span have no effect; data handed out never changes afterwards, and the caller may reuse the slices and maps it passed.",
 over=["inputs","histories"], quant="every call history on a span, under every limit configuration, with caller slices reused",
 why="Tests record a few items on one span at a time; limits, late calls and aliasing of caller slices are only sampled.",
 files=["trace/trace.go","trace/lrumap.go","trace/evictedqueue.go"], mech=[("bounded containers with drop counts","trace/evictedqueue.go, trace/lrumap.go"),("once-only end and copy","trace/trace.go End, makeSpanData")],
 observe=["SpanData given to a registered exporter","Span methods"],
 tech="stateful property-based testing against a bounded-container model", note="Random call histories on one span, compared field by field with the model and re-read at the end of the case."),
dict(id="S02", title="Children keep their parent's lineage and sampling follows the sampler rules",
 statement="A child span has its parent's trace ID and tracestate, a fresh span ID, the parent's span ID as parent and the right remote flag; a root has a fresh trace ID. A sampler is consulted exactly when one is given for the span, or there is no local parent (then the default is used): with the parent context, the new IDs, the name and the remote flag; its answer becomes the span's sampled bit, otherwise the parent's decision is inherited. A zero remote parent makes a root. The options byte is otherwise preserved and the context carries the new span.",
 over=["inputs","histories"], quant="every tree of local and remote parents with every combination of sampler options",
 why="Tests check single parent/child pairs for fixed samplers.",
 files=["trace/trace.go","trace/config.go","trace/sampling.go"], mech=[("parent and sampler resolution","trace/trace.go startSpanInternal, StartSpan, StartSpanWithRemoteParent")],
 observe=["SpanContext of started spans","parameters seen by a recording sampler","exported SpanData"],
 tech="property-based testing over generated span trees against a reference rule", note="Recording samplers note every consultation."),
dict(id="S03", title="Probability sampling is a pure, monotone function of the trace ID",
 statement="A probability sampler decides by the trace ID alone: the same trace ID always gets the same answer for one fraction, whatever span, name or service asks; a trace sampled at one fraction is sampled at every greater one; fraction 0 or less never and 1 or more always samples; a sampled parent is always followed; and over uniform trace IDs the sampled share is the fraction.",
 over=["inputs"], quant="every trace ID, parent and pair of fractions",
 why="The one existing test draws 1000 IDs and never relates fractions or repeated decisions.",
 files=["trace/sampling.go"], mech=[("threshold on the trace ID's leading 63 bits","trace/sampling.go ProbabilitySampler")],
 observe=["trace.ProbabilitySampler decisions"],
 tech="metamorphic property-based testing", note="Pairs of fractions and IDs concentrated on the threshold, plus a uniform-grid share check."),
dict(id="S04", title="Span and trace identifiers are unique and non-zero under concurrency",
 statement="However many goroutines start spans while the configuration changes, no two spans get the same span ID, no two roots the same trace ID, no identifier is zero, every descendant stays in its root's trace, and there is no data race.",
 over=["schedules","histories"], quant="every interleaving of concurrent span starts and configuration changes",
 why="No test starts spans from more than one goroutine.",
 files=["trace/trace.go","trace/config.go"], mech=[("locked generator state, atomic span ID counter and configuration","trace/trace.go defaultIDGenerator")],
 observe=["SpanContext of started spans","race detector"],
 tech="concurrent property-based testing with an invariant over the history, under the race detector", note="Schedules come from the real scheduler, so they are sampled rather than enumerated."),
dict(id="S05", title="Each registered exporter gets each sampled span once; config changes are exact",
 statement="After any history of exporter registrations and unregistrations, ending a sampled span delivers it once to each exporter registered at that moment (equal exporters count once) and to no other, including when an exporter unregisters itself while exporting. Applying a configuration replaces exactly the fields that are set (a sampler, positive limits) and later spans obey the result.",
 over=["histories"], quant="every history of registrations, configuration changes and spans",
 why="Tests register one exporter and apply three configurations.",
 files=["trace/export.go","trace/config.go"], mech=[("copy-on-write exporter set","trace/export.go RegisterExporter, UnregisterExporter"),("partial configuration update","trace/config.go ApplyConfig")],
 observe=["spans received by exporters"],
 tech="stateful property-based testing against a set model", note="Probe spans are overfilled so that every limit in force shows in the exported data."),
dict(id="S06", title="One span may be used and ended by many goroutines",
 statement="Concurrent calls on one span, including several concurrent ends and reads through the span store, have no data race and lose nothing: every item added before the end is kept or counted as dropped, each goroutine's items stay in its order, nothing is torn, the span is exported once per exporter, and with the span store it leaves the active set and is stored once.",
 over=["schedules","histories"], quant="every interleaving of calls, reads and ends on one span",
 why="No existing test uses a span from two goroutines.",
 files=["trace/trace.go","trace/spanstore.go"], mech=[("per-span mutex and once-only end","trace/trace.go Span.mu, endOnce"),("per-store mutex","trace/spanstore.go spanStore")],
 observe=["SpanData given to exporters","span store reports","race detector"],
 tech="concurrent property-based testing with invariants over the history, under the race detector", note="Real-scheduler interleavings, hundreds per run."),
dict(id="S07", title="The local span store reports exactly the active and sampled finished spans",
 statement="With the span store on, for any history, the active report of a name lists exactly its unended spans; a finished span lands in the bucket of its latency (or its error code when the status is not OK), at most one per second per bucket and at most the configured number per bucket, newest kept; the by-latency and by-error reports and the per-method summary agree with that, and resizing keeps the newest spans. The same holds of spans that many goroutines start, end, resize and report at once.",
 over=["histories","inputs"], quant="every history of starts, ends, statuses, renames, pauses and resizes with latencies at bucket boundaries",
 why="Tests cover a handful of spans with real sleeps and no boundary latencies.",
 files=["trace/spanstore.go","trace/spanbucket.go"], mech=[("latency buckets with sampling period","trace/spanbucket.go add, span, resize"),("store per name","trace/spanstore.go finished, report functions")],
 observe=["internal.Trace span store reports"],
 tech="stateful property-based testing under a fake clock against a bucket model", note="synctest gives exact latencies on either side of each boundary."),
dict(id="S08", title="A tracer or span of the user's own is asked everything, unchanged",
 statement="With another DefaultTracer every package function that starts spans or uses contexts reaches it once, with its arguments and options unchanged, and returns what it returns; every call on a Span reaches the implementation it wraps once and unchanged, except that nil spans take every call without effect and calls that add data reach only spans that record. Below a foreign span, the package's own tracer continues that span's trace: same trace ID and options, its span ID as parent, its sampling unless a sampler is given; nothing else is asked of the foreign span.",
 over=["inputs","histories"], quant="every history of calls on any tracer and spans",
 why="No test replaces the tracer or wraps a span.",
 files=["trace/trace_api.go","trace/trace.go"], mech=[("delegation","trace/trace_api.go Span, StartSpan, FromContext, NewContext"),("foreign parents","trace/trace.go StartSpan")],
 observe=["calls a recording tracer and its spans get","exported SpanData"],
 tech="stateful property-based testing with a recording tracer against a call model", note=""),
dict(id="S09", title="Each span is a task of the execution tracer while that runs",
 statement="A span started while runtime/trace is on, sampled or not, begins one task with its name, below the task of the context it was started in; ending the span ends that task; spans started while it is off make no task, and switching it on or off in between never fails.",
 over=["histories"], quant="every history of spans and switches",
 why="One test checks that a stand-in for the task ends; none reads a trace.",
 files=["trace/trace_go11.go","trace/trace.go"], mech=[("task per span","trace/trace_go11.go startExecutionTracerTask, trace/trace.go End")],
 observe=["execution traces read by go tool trace"],
 tech="stateful property-based testing, execution traces parsed against a task-tree model", note="Whether a second End marks the task again is not judged."),
]
