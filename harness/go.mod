module go.opencensus.io/verif

go 1.26.0

require (
	github.com/golang/protobuf v1.4.3
	go.opencensus.io v0.0.0
	google.golang.org/grpc v1.33.2
	pgregory.net/rapid v1.3.0
)

require (
	github.com/golang/groupcache v0.0.0-20200121045136-8c9f03a8e57e // indirect
	golang.org/x/net v0.0.0-20201110031124-69a78807bb2b // indirect
	golang.org/x/sys v0.0.0-20200930185726-fdedc70b468f // indirect
	golang.org/x/text v0.3.3 // indirect
	google.golang.org/genproto v0.0.0-20200526211855-cb27e3aa2013 // indirect
	google.golang.org/protobuf v1.25.0 // indirect
)

replace go.opencensus.io => /repo
