module verif.local/mc

go 1.27

require (
	github.com/golang/protobuf v1.5.4
	github.com/renthraysk/xtorm v0.0.0
	github.com/renthraysk/xtorm/protobuf v0.0.0-00010101000000-000000000000
)

require google.golang.org/protobuf v1.33.0 // indirect

replace github.com/renthraysk/xtorm => /repo

replace github.com/renthraysk/xtorm/protobuf => /repo/protobuf
