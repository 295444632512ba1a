module verif/harness

go 1.25

require (
	github.com/awcullen/opcua v0.0.0
	github.com/google/uuid v1.6.0
)

require (
	github.com/djherbis/buffer v1.2.0 // indirect
	github.com/gammazero/deque v1.0.0 // indirect
	github.com/gammazero/workerpool v1.1.3 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/crypto v0.31.0 // indirect
)

replace github.com/awcullen/opcua => /repo
