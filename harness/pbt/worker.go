package pbt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"syscall"
	"unsafe"
)

// Req is one request from the runner to a worker.
type Req struct {
	Prop     string   `json:"p"`
	Seed     uint64   `json:"s"`
	Idx      uint64   `json:"i"`
	Replay   bool     `json:"r,omitempty"`
	Choices  []uint64 `json:"c,omitempty"`
	Thorough bool     `json:"t,omitempty"`
	Full     bool     `json:"f,omitempty"` // return attachments and choices
}

const ShmBytes = 8 * (1 << 17)

// WorkerMain serves requests on stdin until EOF.  os.Args[1] is the path of a
// shared file in which the choices of the running case are visible to the
// runner even if this process dies.
func WorkerMain(props map[string]func(*T)) {
	var shm []uint64
	if len(os.Args) > 1 {
		f, err := os.OpenFile(os.Args[1], os.O_RDWR, 0)
		if err == nil {
			b, err := syscall.Mmap(int(f.Fd()), 0, ShmBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				shm = unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), ShmBytes/8)
			}
			f.Close()
		}
	}
	debug.SetTraceback("all")
	if v := os.Getenv("VERIF_AS_MB"); v != "" {
		if mb, err := strconv.ParseUint(v, 10, 64); err == nil && mb > 0 {
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: mb << 20, Max: mb << 20})
		}
	}
	out := bufio.NewWriter(os.NewFile(3, "results"))
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	dec := json.NewDecoder(in)
	for {
		var rq Req
		if err := dec.Decode(&rq); err != nil {
			return
		}
		f := props[rq.Prop]
		if f == nil {
			fmt.Fprintf(os.Stderr, "no property %s\n", rq.Prop)
			os.Exit(3)
		}
		var t *T
		if rq.Replay {
			t = Replay(rq.Choices)
		} else {
			t = New(rq.Prop, rq.Seed, rq.Idx)
		}
		t.Thorough = rq.Thorough
		if shm != nil {
			shm[0] = 0
			n := uint64(0)
			t.Sink = func(v uint64) {
				if int(n)+1 < len(shm) {
					n++
					shm[n] = v
					shm[0] = n
				}
			}
		}
		res := Run(t, f)
		if !rq.Full && res.Status != "fail" {
			res.Choices, res.Attach = nil, nil
		}
		b, err := json.Marshal(res)
		if err != nil {
			b = []byte(`{"status":"internal","msg":"marshal"}`)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
