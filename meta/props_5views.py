PROPS = [
dict(id="V01", title="A view's rows partition the samples of its measure by tag values",
 statement="For any history of recordings, a registered view holds exactly one row per distinct combination of non-empty values its tag keys had, other tags being ignored; each row aggregates exactly the samples of the view's measure recorded with that combination while the view was registered (several per Record call included), as their count, sum, last value or distribution, since the time of its first sample.",
 over=["inputs","histories"], quant="every history of recordings, tag sets and view definitions",
 why="Tests record a few samples with one or two tags into one view.",
 files=["stats/view/collector.go","stats/view/aggregation_data.go","stats/view/view.go"], mech=[("tag signatures select the row","stats/view/collector.go encodeWithKeys, addSample"),("aggregation","stats/view/aggregation_data.go")],
 observe=["view.RetrieveData","exported view data","metrics"],
 tech="stateful property-based testing against a sample-list model under a fake clock", note="Sums and moments compared within a relative 1e-9; counts, extremes, times exactly."),
dict(id="V02", title="Distributions put each sample in its bucket and keep exact statistics",
 statement="A distribution view's row has one bucket per interval of its sorted positive bounds (lower bound inclusive, zero bounds dropped), each holding the number of samples in it, and count, minimum, maximum, mean, sum and squared deviation equal those of the samples whatever their sign; a bucket's exemplar is its latest sample recorded with attachments. Negative bounds make the registration fail; the caller may reuse the slice of bounds it passed.",
 over=["inputs","histories"], quant="every set of bounds and every sequence of samples",
 why="Tests use a single set of bounds and positive samples; a distribution without positive samples had a wrong maximum.",
 files=["stats/view/aggregation_data.go","stats/view/aggregation.go","stats/view/view.go"], mech=[("bucket search","stats/view/aggregation_data.go addToBucket"),("bounds canonicalization","stats/view/view.go canonicalize, dropZeroBounds")],
 observe=["view.DistributionData","metricdata.Distribution"],
 tech="property-based testing against a direct computation over the samples", note="Bounds and samples drawn to coincide often."),
dict(id="V03", title="A view name stands for one view; registration is all-or-error",
 statement="For any history, registering a view of a free name makes it findable and collecting from then on with its name and description defaulted from the measure; registering an equal one again keeps the collected data; a view of a taken name with another measure or aggregation is refused and changes nothing; a call with an invalid view registers nothing. After Unregister the name is free, lookups find nothing, and a new registration starts empty.",
 over=["histories"], quant="every history of registrations, unregistrations, lookups and recordings",
 why="Tests register one or two views once.",
 files=["stats/view/worker.go","stats/view/worker_commands.go","stats/view/view.go"], mech=[("registry of views","stats/view/worker.go tryRegisterView, unregisterView"),("canonicalization before registration","stats/view/worker_commands.go registerViewReq")],
 observe=["errors of Register","view.Find","view.RetrieveData"],
 tech="stateful property-based testing against a registry model", note="Views that differ only in tag keys, or in separately made aggregations of equal content, are left out: the documentation does not decide them."),
dict(id="V04", title="View data handed out never changes afterwards",
 statement="Rows retrieved, view data exported, and metrics read keep their content whatever is recorded, exported, unregistered or reconfigured later, exemplars included. Nor do changes that a caller makes to the rows it retrieved or the points it read show in what is handed out later.",
 over=["histories"], quant="every history following a retrieval, export or reading",
 why="Tests look at results once, right away.",
 files=["stats/view/collector.go","stats/view/aggregation_data.go","stats/view/view_to_metric.go"], mech=[("clone on collection","stats/view/aggregation_data.go clone, stats/view/collector.go collectedRows")],
 observe=["view.RetrieveData","ExportView","metricproducer.Producer.Read"],
 tech="stateful property-based testing: results are fingerprinted when received and again at the end", note="Fingerprints cover every exported field."),
dict(id="V05", title="Each exporter receives every registered view once per reporting period",
 statement="At each tick of the reporting period (10 s unless set to a positive duration, counted from the change) every exporter registered at that moment receives, once, each registered view, with all the rows it has at that moment, the view's registration time as start and the tick as end; unregistering a view delivers its data one last time; an unregistered exporter receives nothing.",
 over=["histories","schedules"], quant="every history of recordings, exporter and period changes, and elapsed time",
 why="Tests wait for one report of one view on the real clock.",
 files=["stats/view/worker.go","stats/view/worker_commands.go","stats/view/export.go"], mech=[("ticker loop","stats/view/worker.go start, reportUsage, reportView"),("timer replacement","stats/view/worker_commands.go setReportingPeriodReq")],
 observe=["calls to ExportView"],
 tech="stateful property-based testing under a fake clock against a tick model", note="Exports without rows are not judged."),
dict(id="V06", title="Metrics read from a meter mirror its views",
 statement="Reading a meter gives one metric per registered view that has rows, named and described as the view, with the unit of the measure (dimensionless for counts and unknown units), the type fixed by aggregation and measure, the tag keys sorted as label keys, the meter's resource, and one point per row: its label values (absent where the tag was absent), the reading time, the row's start and exactly its value.",
 over=["inputs","histories"], quant="every set of views over both measure kinds and every history",
 why="Tests convert a few hand-built rows.",
 files=["stats/view/view_to_metric.go","stats/view/worker.go"], mech=[("conversion","stats/view/view_to_metric.go viewToMetric, toLabelValues")],
 observe=["metricproducer.Producer.Read"],
 tech="stateful property-based testing against the same model seen as metrics", note="Missing and empty tags are both absent labels."),
dict(id="V07", title="Concurrent recording loses nothing and is never seen in part",
 statement="While goroutines record, register, unregister, look up, retrieve, read, export and reconfigure the same meter, there is no data race, the final counts are exact, counts seen by one observer never go down and no row disappears, one reading shows all or none of each Record call, a view registered meanwhile counts at least the calls made after Register returned and at most those not finished before it was called, ExportView calls never overlap, and neither an unregistered exporter nor an unregistered view is exported.",
 over=["schedules","histories"], quant="every interleaving of recorders, registrars, readers and exports",
 why="Existing tests record from one goroutine.",
 files=["stats/view/worker.go","stats/view/worker_commands.go"], mech=[("single command loop plus reader lock","stats/view/worker.go start, Read")],
 observe=["view.RetrieveData","Read","ExportView","race detector"],
 tech="concurrent property-based testing with bounds from call start and end times, under the race detector", note="Real-scheduler interleavings, report period of 0.1-0.3 ms."),
dict(id="V08", title="Meters are independent, and stopping one is final and safe",
 statement="What is registered, recorded, exported or configured on one meter never shows on another, and meters may be used at once, sharing views and aggregations, without data race. Stop ends collection and export and takes the meter off the global producers, even while it is starting, being stopped by others, or in use, and also when it was never started; starting it again changes nothing; after Stop every call on it (Start included), however often, returns without panic or deadlock, and no export happens.",
 over=["histories","schedules"], quant="every history over several meters, the default one included; every interleaving of uses with Stop",
 why="Tests stop the default worker once and never use it again.",
 files=["stats/view/worker.go"], mech=[("quit/done handshake","stats/view/worker.go Stop, start, send")],
 observe=["results on each meter","metricproducer.GlobalManager().GetAll","panics and deadlocks"],
 tech="stateful and concurrent property-based testing under a fake clock and the race detector", note="synctest reports a blocked call as a deadlock at once."),
dict(id="V09", title="Record applies tags, attachments and recorder exactly to its own call",
 statement="Each measurement passed to Record, RecordWithTags or RecordWithOptions is added, once, to the views of its measure on the chosen recorder only, under the context's tags as changed by the call's mutators in order and with the call's attachments; an invalid mutator gives an error and records nothing; the context's own tags are not changed; measurements of measures without views do not affect the others, and the caller may reuse the slices and maps it passed. Making a measure again under the same name keeps its description and unit, and both handles feed the same views.",
 over=["inputs","histories"], quant="every sequence of record calls, contexts, mutators and measurements",
 why="Tests make one call with one mutator.",
 files=["stats/record.go","stats/measure.go","stats/view/worker_commands.go"], mech=[("options and mutators","stats/record.go RecordWithOptions"),("measure registry","stats/measure.go registerMeasureHandle")],
 observe=["errors of record calls","view.RetrieveData"],
 tech="stateful property-based testing against a tag-mutation and sample model", note="Also runs through the default worker."),
dict(id="V10", title="Rows compare equal exactly when they hold the same",
 statement="Two rows of views are equal exactly when their tags, the kind of their data, its start and its content (count; sum; last value; or count, extremes, mean, variance and bucket counts) are the same, whichever is asked and whatever meter they come from; clearing the start of retrieved data clears only that, in the caller's copy only, after which rows compare by content alone. A row's text shows its tag values.",
 over=["inputs","histories"], quant="every two histories of recordings, in particular those that differ in one value, order, tag or bucket",
 why="Tests use Equal as their own oracle and never check it.",
 files=["stats/view/view.go","stats/view/aggregation_data.go"], mech=[("comparison","stats/view/view.go Row.Equal, stats/view/aggregation_data.go equal"),("ClearStart","stats/view/aggregation_data.go ClearStart")],
 observe=["view.Row.Equal","view.ClearStart","AggregationData.StartTime"],
 tech="metamorphic property-based testing: pairs of histories that differ by up to three edits, or only in their buckets, against exact integer statistics", note="Samples are quarters, so that equality of sums and moments is decided exactly."),
dict(id="V11", title="Measures of one name are one measure",
 statement="However often, with whatever type, description and unit, before or after views exist and from however many goroutines a measure is made, all measures of its name have the first one's description and unit, and a sample recorded with any of them reaches every view over any of them, once, with its value. A view over a measure takes the measure's description if it has none, and is exported with its own measure's number type and the name's unit.",
 over=["inputs","histories","schedules"], quant="every history of making measures, registering views and recording, and every schedule of several goroutines doing so",
 why="Tests make each measure once.",
 files=["stats/measure.go","stats/measure_int64.go","stats/measure_float64.go","stats/view/view_to_metric.go"], mech=[("measures by name","stats/measure.go registerMeasureHandle"),("subscription","stats/measure.go subscribe, stats/record.go Record")],
 observe=["stats.Measure accessors","view.RetrieveData","metricproducer.Producer.Read","race detector"],
 tech="stateful and concurrent property-based testing against a model of measures by name", note="Two views of one name over different measures are V03."),
]
