PROPS = [
dict(id="M01", title="Gauge and cumulative readings equal the history of updates",
 statement="For any history, reading a registry gives one point per series: a gauge's last set value plus later additions (a negative total reads as zero), a cumulative's sum of its positive increments (others are ignored), and for derived metrics what the most recently installed function returns; a series exists from the moment its entry is obtained. Points carry the reading time, cumulatives start at their creation, and metrics already read never change.",
 over=["inputs","histories"], quant="every history of updates over all eight metric kinds",
 why="Tests set one or two values per metric and ignore times.",
 files=["metric/gauge.go","metric/cumulative.go","metric/common.go"], mech=[("atomic entries","metric/gauge.go, metric/cumulative.go"),("one map of entries per metric","metric/common.go read")],
 observe=["metric.Registry.Read"],
 tech="stateful property-based testing against a value model under a fake clock", note="Values are exact binary fractions, so equality is exact."),
dict(id="M02", title="A series is identified by exactly its label values",
 statement="Two label-value vectors share a series exactly when they are equal position by position, an absent value being distinct from every present one including the empty string, whatever bytes and lengths the values have and whatever constant labels exist; reading gives the vectors back unchanged, constant labels first. A wrong number of values is refused and changes nothing.",
 over=["inputs","histories"], quant="every set of label vectors over arbitrary byte strings",
 why="Tests use a dozen short ASCII values; long values and near-collisions are never tried.",
 files=["metric/common.go","metric/registry.go"], mech=[("unambiguous encoding of label values","metric/common.go encodeLabelVals, decodeLabelVals")],
 observe=["metric.Registry.Read time series","GetEntry and UpsertEntry errors"],
 tech="stateful property-based testing against a label-vector model", note="Lengths around every size boundary up to 70000 bytes and strings that imitate the encoding."),
dict(id="M03", title="A registry holds one metric per name, never of two kinds",
 statement="Adding a metric whose name is taken by another kind fails and leaves the registry as it was; adding one of the same kind replaces it with the new descriptor and no series, while handles of the replaced metric no longer affect readings. Every reading lists each name once with the name, description, unit, type, constant label keys (sorted) and label keys given.",
 over=["histories"], quant="every history of additions under repeated names, with stale handles in use",
 why="Tests add one clashing metric once.",
 files=["metric/registry.go"], mech=[("name table","metric/registry.go initBaseMetric")],
 observe=["errors of Add functions","metric.Registry.Read"],
 tech="stateful property-based testing against a name-table model", note="Random re-additions over two names, most pairs nearly equal (case, space, slash, a long common prefix)."),
dict(id="M04", title="Concurrent metric updates are neither lost nor torn",
 statement="When many goroutines obtain entries of the same series and update them while others read, there is no data race, no update is lost, a cumulative or only-incremented gauge never goes down between readings, a series once present never disappears (derived ones included, while being replaced), and none is read twice at once.",
 over=["schedules","histories"], quant="every interleaving of entry creation, updates, upserts and readings",
 why="No existing test updates a metric from two goroutines.",
 files=["metric/common.go","metric/gauge.go","metric/cumulative.go"], mech=[("atomic load-or-store of entries and values","metric/common.go entryForValues, upsertEntry")],
 observe=["metric.Registry.Read","race detector"],
 tech="concurrent property-based testing with invariants, under the race detector", note="Real-scheduler interleavings; some cases with eight goroutines at one value."),
dict(id="M05", title="The producer set is exactly what was added and not deleted",
 statement="After any history of additions and deletions, the global manager lists each present producer once (equal producers count once, nil never), changes to a returned list affect nothing, and concurrent use has no data race and loses no change.",
 over=["histories","schedules"], quant="every history of additions, deletions and listings, sequential or concurrent",
 why="Tests make a handful of fixed calls from one goroutine.",
 files=["metric/metricproducer/manager.go"], mech=[("locked set","metric/metricproducer/manager.go")],
 observe=["metricproducer.GlobalManager().GetAll"],
 tech="stateful property-based testing against a set model, under the race detector", note="Sequential histories followed by a concurrent phase."),
dict(id="M06", title="An interval reader exports at its interval, only while started",
 statement="A started interval reader exports every interval (60 s if unset; below 1 s Start fails), starting twice fails, stopping is idempotent and after Stop returns no export runs or starts until it is restarted; Flush exports only while stopped. Each export hands over all metrics of all producers present, read at that moment, within a root span of the configured name that is ended; exporter errors do not stop later exports; exports of one interval reader never overlap, and what one was given later exports leave unchanged.",
 over=["histories","schedules","fault_sequences"], quant="every history of starts, stops, flushes, interval and producer changes, from one or several goroutines, with failing or slow exporters",
 why="Tests sleep through one or two real intervals from one goroutine.",
 files=["metric/metricexport/reader.go"], mech=[("ticker goroutine with quit/done handshake","metric/metricexport/reader.go Start, Stop, startInternal, Flush")],
 observe=["calls to Exporter.ExportMetrics","errors of Start and NewIntervalReader"],
 tech="stateful property-based testing under a fake clock against a tick model, with a concurrent lifecycle check", note="Exact export times are compared; concurrent phases use invariants."),
dict(id="M07", title="The in-memory test exporter finds exactly the requested series",
 statement="After an export, looking up a metric name and label set gives the latest point of the series with exactly those present labels, and nothing when there is none.",
 over=["inputs"], quant="every set of series and every looked-up label set",
 why="Tests look up three series with unrelated labels.",
 files=["metric/test/exporter.go"], mech=[("label signature","metric/test/exporter.go labelSignature")],
 observe=["test.Exporter.GetPoint"],
 tech="property-based testing against a label-set model", note="One recorded finding: label keys and values that read the same when run together share a slot."),
dict(id="M08", title="Every exported metric is well-formed, whoever produced it",
 statement="Whatever views, registries and runtime metrics there are and whatever is recorded meanwhile, each metric a reader exports comes once, has a known type and unit, as many label values as keys and no two series with the same labels; each series has one point, stamped within the reading and not before its start (cumulative ones have one), whose value calls exactly the visitor method of the metric's type; a distribution has one bucket more than bounds, increasing positive bounds, buckets that add up to its count, and exemplars that lie in their buckets. What was exported stays as it is when more is recorded. When updates are over, exactly the series that were written are exported.",
 over=["inputs","histories","schedules"], quant="every set of metrics of any origin, updates and readings",
 why="Each producer's tests read a metric or two of its own; exporters depend on every metric of every reading.",
 files=["metric/metricexport/reader.go","metric/metricdata/point.go","stats/view/view_to_metric.go","metric/registry.go"], mech=[("collection","metric/metricexport/reader.go ReadAndExport"),("value dispatch","metric/metricdata/point.go ReadValue"),("views as metrics","stats/view/view_to_metric.go viewToMetric")],
 observe=["metricexport.Exporter","metricdata.Point.ReadValue","race detector"],
 tech="concurrent property-based testing of an invariant over every export", note="Values themselves are decided by M01-M04, V01, V02, V06 and X01."),
]
