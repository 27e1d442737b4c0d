module verifharness

go 1.23

require (
	github.com/anishathalye/porcupine v1.3.1
	go.etcd.io/etcd/api/v3 v3.5.11
	go.etcd.io/etcd/client/v3 v3.5.11
	google.golang.org/grpc v1.61.0
	pgregory.net/rapid v1.3.0
)
