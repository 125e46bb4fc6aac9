module verifharness

go 1.23.2

require (
	github.com/iomz/go-llrp v0.0.0-20241026054309-699260a49032
	github.com/iomz/gosstrak v0.0.0
	github.com/moby/spdystream v0.5.0
)

require (
	github.com/influxdata/influxdb1-client v0.0.0-20220302092344-a9ab5670611c // indirect
	github.com/looplab/fsm v1.0.2 // indirect
)

replace github.com/iomz/gosstrak => /repo
