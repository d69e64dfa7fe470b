package web

import (
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/verif/obs"
)

const (
	hc = "opencensus.io/http/client/"
	hs = "opencensus.io/http/server/"
)

var serverDocs = []obs.Doc{
	{View: ochttp.ServerRequestCountView, Name: hs + "request_count", Measure: hs + "request_count", Agg: "count"},
	{View: ochttp.ServerRequestBytesView, Name: hs + "request_bytes", Measure: hs + "request_bytes", Agg: "bytes"},
	{View: ochttp.ServerResponseBytesView, Name: hs + "response_bytes", Measure: hs + "response_bytes", Agg: "bytes"},
	{View: ochttp.ServerLatencyView, Name: hs + "latency", Measure: hs + "latency", Agg: "ms"},
	{View: ochttp.ServerRequestCountByMethod, Name: hs + "request_count_by_method", Measure: hs + "request_count", Agg: "count", Tags: []string{"http.method"}},
	{View: ochttp.ServerResponseCountByStatusCode, Name: hs + "response_count_by_status_code", Measure: hs + "latency", Agg: "count", Tags: []string{"http.status"}},
}

var clientDocs = []obs.Doc{
	{View: ochttp.ClientSentBytesDistribution, Name: hc + "sent_bytes", Measure: hc + "sent_bytes", Agg: "bytes", Tags: []string{"http_client_method", "http_client_status"}},
	{View: ochttp.ClientReceivedBytesDistribution, Name: hc + "received_bytes", Measure: hc + "received_bytes", Agg: "bytes", Tags: []string{"http_client_method", "http_client_status"}},
	{View: ochttp.ClientRoundtripLatencyDistribution, Name: hc + "roundtrip_latency", Measure: hc + "roundtrip_latency", Agg: "ms", Tags: []string{"http_client_method", "http_client_status"}},
	{View: ochttp.ClientCompletedCount, Name: hc + "completed_count", Measure: hc + "roundtrip_latency", Agg: "count", Tags: []string{"http_client_method", "http_client_status"}},
	{View: ochttp.ClientRequestCountView, Name: hc + "request_count", Measure: hc + "request_count", Agg: "count"},
	{View: ochttp.ClientRequestBytesView, Name: hc + "request_bytes", Measure: hc + "sent_bytes", Agg: "bytes"},
	{View: ochttp.ClientResponseBytesView, Name: hc + "response_bytes", Measure: hc + "received_bytes", Agg: "bytes"},
	{View: ochttp.ClientLatencyView, Name: hc + "latency", Measure: hc + "roundtrip_latency", Agg: "ms"},
	{View: ochttp.ClientRequestCountByMethod, Name: hc + "request_count_by_method", Measure: hc + "sent_bytes", Agg: "count", Tags: []string{"http.method"}},
	{View: ochttp.ClientResponseCountByStatusCode, Name: hc + "response_count_by_status_code", Measure: hc + "roundtrip_latency", Agg: "count", Tags: []string{"http.status"}},
}
