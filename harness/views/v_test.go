package views

import (
	"testing"

	. "go.opencensus.io/verif/prop"
)

func TestV01(t *testing.T) {
	Check(t, "V01", "rows", Opts{Quick: 3000, Thorough: 50000,
		Rule: "histories of recordings with up to four tags (absent, empty, 255 bytes long) and up to four measurements per call into up to five views sharing aggregations and measures; non-trivial when one view ends with several rows"},
		genE([]string{"rec", "rec", "rec", "rec", "rec", "get", "sleep"}, false, 5, 40, 1),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool { return s["several-rows"] > 0 })
		})
}

func TestV02(t *testing.T) {
	Check(t, "V02", "distribution", Opts{Quick: 3000, Thorough: 50000,
		Rule: "as V01 with distributions only: 0-5 bounds, unsorted, repeated, zero or negative, samples on and around the bounds (negative included), with and without attachments; non-trivial when one row holds several samples"},
		genE([]string{"rec", "rec", "rec", "rec", "get", "read", "reg", "sleep"}, true, 4, 30, 1),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool { return s["several-samples"] > 0 })
		})
}

func TestV03(t *testing.T) {
	Check(t, "V03", "registry", Opts{Quick: 3000, Thorough: 50000,
		Rule: "histories of registrations (several views per call, copies, invalid and clashing ones), unregistrations, lookups and recordings under five names; non-trivial when a registration is refused or repeated, or a view is unregistered"},
		genE([]string{"reg", "reg", "reg", "unreg", "unreg", "find", "get", "rec", "rec"}, false, 6, 30, 1),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool {
				return s["invalid"]+s["conflict"]+s["again"]+s["unregistered"] > 0
			})
		})
}

func TestV04(t *testing.T) {
	Check(t, "V04", "snapshots", Opts{Quick: 2500, Thorough: 40000,
		Rule: "histories that interleave recordings with retrievals, metric reads and exports, every result being read again at the end; non-trivial when something was retrieved, read or exported and samples followed"},
		genE([]string{"rec", "rec", "rec", "get", "read", "sleep", "addexp", "unreg", "reg"}, false, 4, 30, 1),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool {
				return s["samples"] > 1 && s["retrieved"]+s["metrics"]+s["exports"] > 1
			})
		})
}

func TestV05(t *testing.T) {
	Check(t, "V05", "export", Opts{Quick: 3000, Thorough: 50000,
		Rule: "histories of recordings, exporter changes, reporting-period changes, unregistrations and pauses meeting the ticks, under a fake clock; non-trivial when an export with rows is received"},
		genE([]string{"rec", "rec", "rec", "sleep", "sleep", "sleep", "addexp", "addexp", "delexp", "period", "unreg", "reg"}, false, 4, 35, 1),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool { return s["exports"] > 0 })
		})
}

func TestV06(t *testing.T) {
	Check(t, "V06", "metrics", Opts{Quick: 3000, Thorough: 50000,
		Rule: "histories of recordings, registrations, resource changes and metric reads over int and float measures of four units and all aggregations; non-trivial when metrics are read"},
		genE([]string{"rec", "rec", "rec", "read", "read", "reg", "unreg", "res", "sleep"}, false, 5, 30, 1),
		func(cx *Ctx, c ECase) error {
			return runE(cx, c, func(s map[string]int) bool { return s["metrics"] > 0 && s["samples"] > 2 })
		})
}
