package rpc

import (
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/verif/obs"
)

const (
	gc = "grpc.io/client/"
	gs = "grpc.io/server/"
)

var (
	byClient = []string{"grpc_client_method"}
	byServer = []string{"grpc_server_method"}
)

var viewDocs = []obs.Doc{
	{View: ocgrpc.ClientSentBytesPerRPCView, Name: gc + "sent_bytes_per_rpc", Measure: gc + "sent_bytes_per_rpc", Agg: "bytes", Tags: byClient},
	{View: ocgrpc.ClientReceivedBytesPerRPCView, Name: gc + "received_bytes_per_rpc", Measure: gc + "received_bytes_per_rpc", Agg: "bytes", Tags: byClient},
	{View: ocgrpc.ClientRoundtripLatencyView, Name: gc + "roundtrip_latency", Measure: gc + "roundtrip_latency", Agg: "fine ms", Tags: byClient},
	{View: ocgrpc.ClientCompletedRPCsView, Name: gc + "completed_rpcs", Measure: gc + "roundtrip_latency", Agg: "count", Tags: []string{"grpc_client_method", "grpc_client_status"}},
	{View: ocgrpc.ClientStartedRPCsView, Name: gc + "started_rpcs", Measure: gc + "started_rpcs", Agg: "count", Tags: byClient},
	{View: ocgrpc.ClientSentMessagesPerRPCView, Name: gc + "sent_messages_per_rpc", Measure: gc + "sent_messages_per_rpc", Agg: "messages", Tags: byClient},
	{View: ocgrpc.ClientReceivedMessagesPerRPCView, Name: gc + "received_messages_per_rpc", Measure: gc + "received_messages_per_rpc", Agg: "messages", Tags: byClient},
	{View: ocgrpc.ServerReceivedBytesPerRPCView, Name: gs + "received_bytes_per_rpc", Measure: gs + "received_bytes_per_rpc", Agg: "bytes", Tags: byServer},
	{View: ocgrpc.ServerSentBytesPerRPCView, Name: gs + "sent_bytes_per_rpc", Measure: gs + "sent_bytes_per_rpc", Agg: "bytes", Tags: byServer},
	{View: ocgrpc.ServerLatencyView, Name: gs + "server_latency", Measure: gs + "server_latency", Agg: "fine ms", Tags: byServer},
	{View: ocgrpc.ServerCompletedRPCsView, Name: gs + "completed_rpcs", Measure: gs + "server_latency", Agg: "count", Tags: []string{"grpc_server_method", "grpc_server_status"}},
	{View: ocgrpc.ServerStartedRPCsView, Name: gs + "started_rpcs", Measure: gs + "started_rpcs", Agg: "count", Tags: byServer},
	{View: ocgrpc.ServerReceivedMessagesPerRPCView, Name: gs + "received_messages_per_rpc", Measure: gs + "received_messages_per_rpc", Agg: "messages", Tags: byServer},
	{View: ocgrpc.ServerSentMessagesPerRPCView, Name: gs + "sent_messages_per_rpc", Measure: gs + "sent_messages_per_rpc", Agg: "messages", Tags: byServer},
}
