//go:build !amd64

package vsched

import "runtime"

func goid() uintptr {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	// "goroutine 123 [..."
	var id uintptr
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uintptr(c-'0')
	}
	return id
}
