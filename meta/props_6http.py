PROPS = [
dict(id="H01", title="An HTTP handler wrapped by ochttp behaves as if it were not",
 statement="Serving through ochttp.Handler (and WithRouteTag) changes nothing that the wrapped handler or the client can see: the handler sees the same request and the same results of every call on the writer (also through http.ResponseController) and the body, panics pass through, a hijacked connection is the handler's, and the client gets the same informational responses, status, headers, trailers, body and connection handling, over HTTP/1.1 and HTTP/2.",
 over=["inputs","histories"], quant="every request and every sequence of calls on the response writer",
 why="Tests check one 200 and one 404 response with a fixed body.",
 files=["plugin/ochttp/server.go","plugin/ochttp/route.go","plugin/ochttp/wrapped_body.go"], mech=[("tracking response writer","plugin/ochttp/server.go trackingResponseWriter")],
 observe=["what the handler sees","what the client receives"],
 tech="differential property-based testing: scripted handlers over real sockets with and without ochttp", note="A difference must persist over 13 repetitions, since net/http itself is timing dependent when connections are cut."),
dict(id="H02", title="Server statistics describe each HTTP request exactly once",
 statement="Each request served records one request count and, when the handler returns or panics, one latency (within the exchange), the bytes the handler wrote by any means and the announced size of the request body if there is one, tagged with host, path, method, the status actually sent (the first non-informational one, 200 if implied), the route last set and the tags of the incoming context; a value that cannot be a tag is left out without affecting the rest. The predefined views are of the measures, tags and aggregation they are documented to have.",
 over=["inputs","histories"], quant="every request and every sequence of calls on the response writer",
 why="Tests count requests with one status each and never use repeated or implied statuses, copies or unusual hosts.",
 files=["plugin/ochttp/server.go","plugin/ochttp/stats.go","plugin/ochttp/route.go"], mech=[("stats of one request","plugin/ochttp/server.go startStats, end"),("tags set inside the handler","plugin/ochttp/server.go addedTags, route.go SetRoute")],
 observe=["view.RetrieveData of the predefined and of probe views"],
 tech="property-based testing of scripted exchanges against a measurement model", note="When the handler panics only the single latency is judged."),
dict(id="H03", title="The HTTP client transport is transparent and counts exactly once",
 statement="ochttp.Transport calls its base once with the caller's request (same method, URL, body, host, length, headers and context values, plus the propagation headers), never changes the caller's request, returns the base's response or error, and its body (if there is one) reads, writes, closes and fails exactly as the base's. One completed request records each client measure once, when the body ends or is closed (or at once on a transport error, tagged \"error\"), with the bytes sent and received, method, host, path, status and the context's tags; until then only the request count is recorded. A request to a health-check path goes to the base as it is: neither measured, traced nor given propagation headers. The predefined views are of the measures, tags and aggregation they are documented to have.",
 over=["inputs","histories"], quant="every request, response and sequence of reads and closes of the response body",
 why="Tests read one body to its end; partial reads, early and repeated closes, read errors and odd lengths are not tried.",
 files=["plugin/ochttp/client.go","plugin/ochttp/client_stats.go","plugin/ochttp/trace.go","plugin/ochttp/wrapped_body.go"], mech=[("body tracker","plugin/ochttp/client_stats.go tracker, trace.go bodyTracker"),("request copy with injected headers","plugin/ochttp/trace.go RoundTrip")],
 observe=["calls on the base transport","the response and its body","view.RetrieveData"],
 tech="model-based property-based testing over a scripted base transport, with the unwrapped body as reference", note="A response closed before its first byte may count as nothing or as its announced length."),
dict(id="H04", title="Trace context crosses HTTP hops unchanged, and only where trusted",
 statement="Over any chain of hops, a server using the client's propagation format continues the client's trace: its span's parent is the client span, marked remote, with the sampling decision and, for W3C headers, the tracestate carried over unless its own sampler decides otherwise. A public endpoint, or one that receives no usable context, starts a new trace (or a child of the span its request came with inside the process), the former linking to the client span if a context arrived. The client span is a child of the caller's span and is the one carried.",
 over=["inputs","histories"], quant="every chain of hops over the four formats, public or not, with any samplers",
 why="Tests send one header over one hop per format.",
 files=["plugin/ochttp/server.go","plugin/ochttp/trace.go","plugin/ochttp/propagation/b3/b3.go","plugin/ochttp/propagation/tracecontext/propagation.go","exporter/stackdriver/propagation/http.go"], mech=[("extraction and public endpoints","plugin/ochttp/server.go startTrace, extractSpanContext"),("injection","plugin/ochttp/trace.go RoundTrip")],
 observe=["span contexts in the handlers","exported spans"],
 tech="stateful property-based testing of hop chains against a trace-tree model", note="Requests cross in wire format."),
dict(id="H05", title="A wrapped response writer offers exactly the original's abilities",
 statement="For every combination of Hijacker, CloseNotifier, Pusher, Flusher and ReaderFrom that the server's ResponseWriter implements, the handler's writer implements exactly the same ones, and every call, those of http.ResponseController included, reaches the original once, in order, with its arguments and results unchanged.",
 over=["inputs","histories"], quant="all 32 combinations and every sequence of calls, failing and short ones included",
 why="Tests check interface presence, not what the calls do.",
 files=["plugin/ochttp/server.go"], mech=[("32-case wrapper","plugin/ochttp/server.go wrappedResponseWriter")],
 observe=["type assertions in the handler","calls recorded by the original writer"],
 tech="differential property-based testing over generated writer types", note="All combinations are covered in every run."),
dict(id="H06", title="HTTP spans record what happened in the exchange",
 statement="A sampled request gives one server span and one client span: named by the path or by FormatSpanName, of their kind, with the path, URL, host, method, user agent (if any) and status code, the span status that the table assigns to every HTTP status (UNKNOWN with the error for a failed exchange), message events that add up to the body sizes, times within the exchange, ended once when the exchange is over; none for health checks. Client-trace callbacks become annotations in order with their data.",
 over=["inputs","histories"], quant="every exchange, status code and sequence of client-trace callbacks",
 why="Tests compare a few fixed requests; the status table and partial bodies are sampled.",
 files=["plugin/ochttp/server.go","plugin/ochttp/trace.go","plugin/ochttp/span_annotating_client_trace.go"], mech=[("attributes and status","plugin/ochttp/trace.go requestAttrs, responseAttrs, TraceStatus"),("annotations","plugin/ochttp/span_annotating_client_trace.go")],
 observe=["exported SpanData"],
 tech="property-based testing of scripted exchanges against a span model and an independent status table", note="Sizes of single send events are not judged, only their sum."),
dict(id="H07", title="Concurrent HTTP requests never mix their data",
 statement="When many requests run at once through one Transport and one Handler, every request gets its own response, its measurements carry its own tags and sizes, its client and server spans are in one trace of its own, totals are exact, and there is no data race. That includes work that goes on beside the end of a request: a handler that outlives the answer (as under http.TimeoutHandler) may still set its route, and a response body may be closed while it is read; each request is recorded once all the same, with a route it was given and a size it had reached.",
 over=["schedules","inputs"], quant="every set of concurrent requests",
 why="Tests send requests one after another.",
 files=["plugin/ochttp/server.go","plugin/ochttp/trace.go","plugin/ochttp/client_stats.go","plugin/ochttp/route.go"], mech=[("per-request trackers","plugin/ochttp/server.go trackerPool, client_stats.go tracker")],
 observe=["responses","view.RetrieveData","exported spans","race detector"],
 tech="concurrent property-based testing over sockets under the race detector", note="Real-scheduler interleavings."),
]
