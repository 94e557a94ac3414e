// The Go binding over the real native library, replaying recorded answers.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

var bad atomic.Int64

func complain(f string, a ...any) {
	if bad.Add(1) <= 5 {
		fmt.Printf("BAD "+f+"\n", a...)
	}
}

type req struct {
	id, want, what string
	blob, com      []byte
}

var data []byte

func item(t string) []byte {
	p := strings.Split(t, ":")
	o, _ := strconv.Atoi(p[0])
	n, _ := strconv.Atoi(p[1])
	return data[o : o+n]
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	n, _ := strconv.ParseInt(strings.Fields(string(b))[1], 10, 64)
	return n * 4096
}

func main() {
	dir := os.Args[1]
	thorough := os.Args[2] == "thorough"
	seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
	var err error
	if data, err = os.ReadFile(filepath.Join(dir, "data.bin")); err != nil {
		panic(err)
	}
	idx, err := os.ReadFile(filepath.Join(dir, "index.txt"))
	if err != nil {
		panic(err)
	}
	var reqs []req
	for _, l := range strings.Split(string(idx), "\n") {
		h := strings.SplitN(l, " # ", 2)
		t := strings.Fields(h[0])
		// a blob that cannot be committed to cannot be turned into cells either
		if len(t) < 4 || !(t[1] == "commit" || (t[1] == "compute" && t[2] == "error")) {
			continue
		}
		r := req{id: t[0], want: t[2], blob: item(t[3])}
		if len(h) > 1 {
			r.what = h[1]
		}
		if strings.HasPrefix(t[2], "com=") {
			r.want, r.com = "com", item(t[2][4:])
		}
		reqs = append(reqs, r)
	}
	counts := map[string]int{}
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(seed))
	order := rng.Perm(len(reqs))
	ctxs := []*kzg.DASContext{kzg.NewProverContext(), kzg.NewProverContext()}
	var next atomic.Int64
	var w sync.WaitGroup
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
			}
		}
	}()
	for g := 0; g < 6; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(order) {
					return
				}
				r := reqs[order[i]]
				back := bytes.Repeat([]byte{0xa5}, len(r.blob)+64)
				off := i % 61
				b := back[off : off+len(r.blob) : off+len(r.blob)]
				copy(b, r.blob)
				keep := append([]byte(nil), back...)
				out, err := ctxs[i%2].BlobToKZGCommitment(b)
				mu.Lock()
				counts["commit -> "+r.want]++
				mu.Unlock()
				if r.want == "com" {
					defer func() {
						if err == nil && !bytes.Equal(out, r.com) {
							complain("%s (request %s): later calls changed the commitment returned", r.what, r.id)
						}
					}()
					if err != nil || !bytes.Equal(out, r.com) {
						complain("%s (request %s) gave %d bytes and error %v, not the library's commitment", r.what, r.id, len(out), err)
					}
				} else if err == nil {
					complain("%s (request %s) gave a commitment of %d bytes and no error", r.what, r.id, len(out))
				} else if out != nil {
					complain("%s (request %s) gave an error together with a commitment", r.what, r.id)
				}
				if !bytes.Equal(keep, back) {
					complain("%s (request %s) changed its argument", r.what, r.id)
				}
			}
		}(g)
	}
	w.Wait()
	close(stop)
	// nothing is left behind by failing calls
	wrong := make([]byte, kzg.BytesPerBlob)
	for i := 0; i < 32; i++ {
		wrong[i] = 0xff
	}
	n := 40000
	if thorough {
		n = 200000
	}
	grew, last := 0, int64(0)
	for round := 0; round < 12; round++ {
		runtime.GC()
		before := rss()
		for i := 0; i < n; i++ {
			ctxs[0].BlobToKZGCommitment(wrong)
		}
		runtime.GC()
		last = rss() - before
		fmt.Println("NOTE growth", last)
		counts["resident memory after repeated calls"]++
		if last > int64(n)*24 {
			grew++
		} else {
			break
		}
	}
	if grew == 4 {
		complain("%d failing calls leave %d bytes behind", n, last)
	}
	if kzg.BytesPerCommitment != 48 || kzg.BytesPerProof != 48 || kzg.BytesPerFieldElement != 32 || kzg.BytesPerBlob != 131072 || kzg.MaxNumColumns != 128 || kzg.BytesPerCell != 2048 {
		complain("a constant is wrong")
	}
	for k, c := range counts {
		fmt.Printf("COUNT %s %d\n", k, c)
	}
	runtime.KeepAlive(ctxs)
	fmt.Println("DONE")
}
