package vsched

// goid identifies the running goroutine (by its descriptor, which is reused
// once the goroutine has ended).
func goid() uintptr
