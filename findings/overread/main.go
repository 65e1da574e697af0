// Demonstrates the over-read of ReadAllFast: the stream is placed so that it
// ends at an unreadable page. Before the fix this dies with SIGSEGV.
package main

import (
	"fmt"
	"syscall"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

func main() {
	for count := 0; count < 300; count++ {
		in := make([]uint32, count)
		s := writer.WriteAllScalar(in)
		page := syscall.Getpagesize()
		mem, err := syscall.Mmap(-1, 0, 2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		if err := syscall.Mprotect(mem[page:], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		tight := mem[page-len(s) : page : page]
		copy(tight, s)
		out := make([]uint32, count)
		fmt.Println(count)
		reader.ReadAllFast(count, tight, out)
		reader.ReadAllDeltaFast(count, tight, out, 0)
	}
}
