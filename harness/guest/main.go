// The guest runs on simulated machines of another byte order; it does with zssz what the requests on its standard input say.
package main

import (
	"syscall"

	"zverif/do"
	"zverif/wire"
)

func fill(b []byte) {
	for len(b) > 0 {
		n, err := syscall.Read(0, b)
		if err != nil || n <= 0 {
			syscall.Exit(1)
		}
		b = b[n:]
	}
}

func main() {
	for {
		head := make([]byte, 4)
		fill(head)
		b := make([]byte, int(head[0])<<24|int(head[1])<<16|int(head[2])<<8|int(head[3]))
		fill(b)
		var r wire.Request
		r.Unmarshal(b)
		var out wire.Buf
		out.Bytes(do.Answer(&r))
		for w := out.B; len(w) > 0; {
			n, err := syscall.Write(1, w)
			if err != nil || n <= 0 {
				syscall.Exit(1)
			}
			w = w[n:]
		}
	}
}
