PROPS = [
dict(id="G01", title="Each gRPC call is measured once per side, exactly",
 statement="Every RPC adds, on the client and on the server each, one to started RPCs when it begins and, when it ends, one value each of bytes and messages sent and received (the sums over all its messages, uncompressed) and of latency (within the call), whatever its messages, outcome or other RPCs do; tagged with the method, the status it ended with and the tags of its context (the arriving ones on the server), with an exemplar naming its span if sampled. A method name that cannot be a tag value is left out without losing the rest; events of unknown RPCs are ignored. The predefined views are of the measures, tags, aggregation and buckets they are documented to have.",
 over=["inputs","histories"], quant="every RPC: message sequence, status, cancellation, compression, method name, tags",
 why="Tests replay a few fixed event sequences and compare whole views.",
 files=["plugin/ocgrpc/stats_common.go","plugin/ocgrpc/client_stats_handler.go","plugin/ocgrpc/server_stats_handler.go","plugin/ocgrpc/client_metrics.go","plugin/ocgrpc/server_metrics.go"], mech=[("per-RPC counters","plugin/ocgrpc/stats_common.go rpcData, handleRPCEnd"),("status names","plugin/ocgrpc/stats_common.go statusCodeToString")],
 observe=["view.RetrieveData of the predefined and of probe views"],
 tech="property-based testing of real RPCs and of generated event sequences against a measurement model", note="The model reads the event stream through a tap and is cross-checked with what both applications saw."),
dict(id="G02", title="Tags cross gRPC calls: all that propagate, nothing else",
 statement="A handler's context carries exactly the tags of the caller's context that are marked to propagate, plus its own method, through any chain of calls, also when the caller's metadata repeat the headers it was sent itself; the caller's tags and other metadata are never changed; a missing or undecodable tag header leaves only the method and never fails the call.",
 over=["inputs","histories"], quant="every tag set, chain of calls and damaged header",
 why="Tests send one tag set over one call.",
 files=["plugin/ocgrpc/client_stats_handler.go","plugin/ocgrpc/server_stats_handler.go","tag/map_codec.go"], mech=[("grpc-tags-bin header","plugin/ocgrpc/client_stats_handler.go statsTagRPC, server_stats_handler.go extractPropagatedTags")],
 observe=["tag.FromContext in handlers and after TagRPC"],
 tech="stateful property-based testing of call chains against a tag model", note="What a damaged header decodes to is taken from tag.Decode, which T-properties decide."),
dict(id="G03", title="Trace context crosses gRPC calls, and only where trusted",
 statement="A client span is a child of the caller's span; whatever trace headers the caller's metadata repeat, the server's span continues the client's trace as its remote child, unless the endpoint is public or no usable context arrives, when it starts a new trace, linking to the context that arrived, if any, as its parent. Samplers decide as configured: a handler's own, else the caller's decision on clients and the default sampler on servers. The handler's context carries the server span.",
 over=["inputs","histories"], quant="every chain of calls, public or not, with any samplers and headers",
 why="Tests make one call with one sampler.",
 files=["plugin/ocgrpc/trace_common.go","trace/propagation/propagation.go"], mech=[("grpc-trace-bin header","plugin/ocgrpc/trace_common.go traceTagRPC")],
 observe=["span contexts in handlers","exported SpanData"],
 tech="stateful property-based testing of call chains against a trace-tree model", note="Usability of a damaged header is taken from propagation.FromBinary, decided by P-properties."),
dict(id="G04", title="gRPC spans record what happened in the call",
 statement="Each sampled RPC gives one client and one server span: named by the method with dots for slashes, of their kind, with the client and fail-fast attributes, one message event per message in order with its uncompressed and wire sizes (the latest ones if more than the limit, the rest counted as dropped), the call's status code and message, and times within the call, ended once.",
 over=["inputs","histories"], quant="every RPC: messages, statuses, cancellation",
 why="Tests count spans; contents of two fixed calls are compared.",
 files=["plugin/ocgrpc/trace_common.go"], mech=[("events to span","plugin/ocgrpc/trace_common.go traceHandleRPC")],
 observe=["exported SpanData"],
 tech="property-based testing of real RPCs against a span model", note="Same runs as G01."),
dict(id="G05", title="Concurrent gRPC calls never mix their data",
 statement="When many RPCs run at once over shared connections, each one's measurements, tags, spans and statuses are those of its own messages and caller, totals are exact, and there is no data race.",
 over=["schedules","inputs"], quant="every set of concurrent call chains",
 why="Tests make calls one after another.",
 files=["plugin/ocgrpc/stats_common.go","plugin/ocgrpc/trace_common.go","plugin/ocgrpc/client.go","plugin/ocgrpc/server.go"], mech=[("per-RPC data in the context","plugin/ocgrpc/stats_common.go rpcData")],
 observe=["view.RetrieveData","exported SpanData","race detector"],
 tech="concurrent property-based testing of real RPCs under the race detector", note="Real-scheduler interleavings."),
]
