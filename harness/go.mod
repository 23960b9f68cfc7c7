module vharness

go 1.23

require (
	github.com/mindstand/go-bolt v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/mindstand/gotime v0.0.0-20200414142228-237d9416b724

require github.com/jolestar/go-commons-pool v2.0.0+incompatible // indirect

replace github.com/mindstand/go-bolt => /repo
