module verif/harness

go 1.25

require (
	github.com/NodeBoy2/rtspclient v0.0.0
	github.com/gorilla/websocket v1.4.0
	pgregory.net/rapid v1.3.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/NodeBoy2/rtspclient => /repo
