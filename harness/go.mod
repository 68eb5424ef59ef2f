module verifharness

go 1.25.0

require (
	github.com/KitchenMishap/pudding-shed v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/edsrzf/mmap-go v1.2.0 // indirect
	golang.org/x/sys v0.43.0 // indirect
	golang.org/x/text v0.37.0 // indirect
)

replace github.com/KitchenMishap/pudding-shed => /repo
