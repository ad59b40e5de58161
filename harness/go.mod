module verif/harness

go 1.23

require (
	github.com/grpc-ecosystem/grpc-gateway/v2 v2.19.0
	google.golang.org/genproto/googleapis/rpc v0.0.0-20240123012728-ef4313101c80
	google.golang.org/grpc v1.62.1
	google.golang.org/protobuf v1.33.0
	pgregory.net/rapid v1.3.0
)
