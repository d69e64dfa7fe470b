PROPS = [
dict(id="E01", title="A request is one trace and one tag set across HTTP and gRPC hops",
 statement="A request that spreads over instrumented services behind HTTP (any of the formats, also through a proxy that only passes headers on, or through redirects) and gRPC, in turn or at once, becomes one tree of spans: each call's client span is a child of the span around the call, each server span a remote child of its client span and the parent of what the service does, all in one trace and sampled as the trace is; only a public endpoint starts another trace, linked to the caller. This holds also where a service copies the headers or metadata it was sent to its own calls. Both ends agree on the call's status. Tags reach every gRPC service to which they propagate and cross no HTTP hop, and each call is counted once at each end, under exactly those tags. Requests at the same time share nothing.",
 over=["inputs","histories","schedules"], quant="every tree of calls, formats, public endpoints, samplers, tags and failures",
 why="Tests make single calls of one protocol; the guarantee is about the composition.",
 files=["plugin/ochttp/trace.go","plugin/ochttp/server.go","plugin/ochttp/client.go","plugin/ocgrpc/trace_common.go","plugin/ocgrpc/stats_common.go","trace/trace.go"], mech=[("HTTP hop","plugin/ochttp/trace.go traceTransport.RoundTrip, plugin/ochttp/server.go startTrace"),("gRPC hop","plugin/ocgrpc/trace_common.go traceTagRPC"),("tags","plugin/ocgrpc/client_stats_handler.go, server_stats_handler.go")],
 observe=["exported SpanData","contexts in handlers","view.RetrieveData","race detector"],
 tech="property-based testing of generated service trees against a trace-tree, tag and count model", note="Real servers on loopback and in-memory connections, under the race detector; spans and rows that come late are waited for."),
]
