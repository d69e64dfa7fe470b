PROPS = [
dict(id="Z01", title="/tracez shows exactly the spans it counts, with all they hold",
 statement="Every count of the tracez summary is the number of local spans of that name that are running, in that latency bucket (boundaries belong to the bucket above), or ended with an error, in the span store; and the page its link leads to lists exactly those spans, each once, with their IDs, start, duration, status, attributes, annotations and messages in the order of time. A list by error code holds the errors of that code only. The text form says the same. Whatever names and values contain is escaped, and odd or malformed query parameters give a page, never a crash.",
 over=["inputs","histories"], quant="every history of spans and every query",
 why="Tests check that one span's name occurs in a page and that handlers answer 200.",
 files=["zpages/tracez.go","zpages/templates.go","zpages/zpages.go","trace/spanstore.go","trace/spanbucket.go"], mech=[("summary and lists","zpages/tracez.go traceSpans, getSummaryPageData, formatTraceTable, traceRows"),("span store","trace/spanstore.go")],
 observe=["HTML of /debug/tracez over the handler","WriteHTML... and WriteText... functions"],
 tech="stateful property-based testing of span histories in virtual time, following every link of the page, against a span-store model", note="Summary and lists are parsed from the pages as rendered."),
dict(id="Z02", title="/rpcz shows each method's RPCs in the right row, column and unit",
 statement="For every method and direction seen in the exported RPC views, both forms of the page have exactly one row, sorted by method, whose totals of calls, errors (status other than OK), average latency and rates of calls and bytes received and sent are those of the exported data over the time since the program started, each under the heading that names it, in that heading's unit. Method names are escaped.",
 over=["inputs","histories"], quant="every set of finished RPCs and every sequence of exports",
 why="The one test reads one counter of one call.",
 files=["zpages/rpcz.go","zpages/templates.go","zpages/internal/resources.go"], mech=[("snapshots from views","zpages/rpcz.go snapExporter.ExportView"),("formats","zpages/templates.go, zpages/rpcz.go WriteTextRpczPage")],
 observe=["HTML of /debug/rpcz","WriteTextRpczPage"],
 tech="property-based testing of recorded RPC histories against a table model", note="A rate determines the time it is over; all rates of one export must agree on it and it must fit the age of the process."),
dict(id="Z03", title="The z-pages can be read while the process works",
 statement="Reading the pages while spans start, change and end, and while RPC views are recorded and exported, never races, deadlocks or shows a torn page: every page parses, shows only what exists, RPC counts never go down nor beyond the calls made, and once work stops the pages are exact. A reader that stalls, fails or gives up in the middle of a page holds up nothing else: spans, calls, exports and other readers get on.",
 over=["schedules","inputs","faults"], quant="every schedule of readers, span users, recorders and exports, and every reader that stops anywhere",
 why="No test reads a page while anything else runs.",
 files=["zpages/tracez.go","zpages/rpcz.go","trace/spanstore.go","trace/trace.go"], mech=[("snapshot locks","zpages/rpcz.go mu"),("store locks","trace/spanstore.go spanStore.mu")],
 observe=["pages read concurrently","race detector"],
 tech="concurrent property-based testing under the race detector", note="Real-scheduler interleavings."),
dict(id="Z04", title="The z-pages work wherever they are put",
 statement="Under every path prefix given to Handle, on a given mux, on the default one and by the deprecated Handler, both pages, the style sheet they link to and every link to a list of spans answer, whatever the span's (non-empty) name contains. Any query or posted form gets the whole page, with the list that its first zspanname, ztype and zsubtype name (what is missing or not a number being 0).",
 over=["inputs"], quant="every prefix, span name and query",
 why="Tests use one prefix and never follow a link.",
 files=["zpages/zpages.go","zpages/internal/templates/summary.html","zpages/internal/templates/header.html","zpages/internal/resources.go"], mech=[("routing","zpages/zpages.go Handle"),("links","zpages/internal/templates/summary.html")],
 observe=["responses of the mux to the pages' own links"],
 tech="property-based testing that crawls the pages under generated prefixes", note=""),
dict(id="X01", title="Runtime metrics report the runtime, as enabled last",
 statement="After any history of Enable and Disable at most one runtime-metrics producer is registered: that of the last Enable, none after Disable. Each reading has exactly the metrics its options ask for, once, under Prefix + process/..., with their unit and kind (cumulative ones as such only with UseDerivedCumulative), and each value is what the Go runtime says at the time of the reading (times in milliseconds). What was read never changes later.",
 over=["inputs","histories"], quant="every history of options, readings, collections and allocations",
 why="Tests check names only; no value is ever compared.",
 files=["plugin/runmetrics/producer.go"], mech=[("producer switching","plugin/runmetrics/producer.go Enable, Disable"),("reading","plugin/runmetrics/producer.go Read, read")],
 observe=["metricproducer.GlobalManager","metricexport.Reader"],
 tech="stateful property-based testing, bracketing each value by runtime.ReadMemStats", note="A value that may go up and down is wrong only if it is out of its bracket in 12 readings in a row."),
dict(id="X02", title="Runtime metrics can be read and switched concurrently",
 statement="Several readers may read the producer while others Enable and Disable: no data race, never two producers at once, cumulative values never go down for any reader, and the last call decides.",
 over=["schedules"], quant="every schedule of readers and switchers",
 why="Tests are sequential.",
 files=["plugin/runmetrics/producer.go","metric/metricproducer/manager.go"], mech=[("enableMutex","plugin/runmetrics/producer.go Enable"),("one reading at a time","plugin/runmetrics/producer.go Read")],
 observe=["race detector","metricproducer.GlobalManager"],
 tech="concurrent property-based testing under the race detector", note="Real-scheduler interleavings."),
]
