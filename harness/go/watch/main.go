// The Go binding over a stand-in native library that watches the life of
// contexts and messages while the garbage collector runs all the time.
package main

/*
long w_get(int);
*/
import "C"

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	kzg "github.com/crate-crypto/rust-eth-kzg"
)

var bad, good, refused atomic.Int64
var said sync.Once

func complain(f string, a ...any) {
	if bad.Add(1) <= 5 {
		fmt.Printf("BAD "+f+"\n", a...)
	}
}
func get(i int) int64 { return int64(C.w_get(C.int(i))) }

func blob(fails, slow byte, salt byte) []byte {
	b := make([]byte, kzg.BytesPerBlob)
	b[0], b[1] = fails, slow
	for i := 2; i < 60; i++ {
		b[i] = byte(i) * salt
	}
	return b
}

func check(b, out []byte, err error) {
	if b[0] == 0 {
		good.Add(1)
		if err != nil || len(out) != 48 {
			complain("a call that succeeded natively gave %d bytes and error %v", len(out), err)
			return
		}
		for i := range out {
			if out[i] != b[i+2]^0x5a {
				complain("a call that succeeded natively gave other bytes")
				return
			}
		}
		return
	}
	refused.Add(1)
	if err == nil {
		complain("a call that failed natively gave a commitment of %d bytes and no error", len(out))
	} else if out != nil {
		complain("a call that failed natively gave an error together with a commitment")
	} else if err.Error() == "" {
		complain("a call that failed natively gave an error without text")
	}
}

//go:noinline
func once(b []byte) {
	p := kzg.NewProverContext()
	out, err := p.BlobToKZGCommitment(b) // the last use of p
	check(b, out, err)
}

//go:noinline
func several(b []byte, n int) {
	p := kzg.NewProverContext()
	for i := 0; i < n; i++ {
		out, err := p.BlobToKZGCommitment(b)
		check(b, out, err)
	}
}

//go:noinline
func shared(bs [][]byte) {
	p := kzg.NewProverContext()
	var w sync.WaitGroup
	for i := range bs {
		w.Add(1)
		go func(p *kzg.DASContext, b []byte) {
			defer w.Done()
			for j := 0; j < 2; j++ {
				k := append([]byte(nil), b...)
				out, err := p.BlobToKZGCommitment(b)
				check(b, out, err)
				if !bytes.Equal(k, b) {
					complain("a blob was changed")
				}
			}
		}(p, bs[i])
	}
	p = nil
	w.Wait()
}

//go:noinline
func sizes() {
	// wrongly sized blobs never reach the library
	calls := get(5)
	p := kzg.NewProverContext()
	for _, n := range []int{0, 1, 31, 32, kzg.BytesPerBlob - 1, kzg.BytesPerBlob + 1, 2 * kzg.BytesPerBlob} {
		if out, err := p.BlobToKZGCommitment(make([]byte, n)); err == nil || out != nil {
			complain("a blob of %d bytes gave %d bytes and error %v", n, len(out), err)
		}
	}
	if out, err := p.BlobToKZGCommitment(nil); err == nil || out != nil {
		complain("a nil blob gave %d bytes and error %v", len(out), err)
	}
	if get(5) != calls {
		complain("a wrongly sized blob reached the native library")
	}
}

func main() {
	secs, _ := strconv.Atoi(os.Args[1])
	debug.SetGCPercent(20)
	var stop atomic.Bool
	var gcs atomic.Int64
	var bg, wk sync.WaitGroup
	for i := 0; i < 2; i++ {
		bg.Add(1)
		go func() {
			defer bg.Done()
			for !stop.Load() {
				runtime.GC()
				gcs.Add(1)
				runtime.Gosched()
			}
		}()
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for g := 0; g < 6; g++ {
		wk.Add(1)
		go func(g int) {
			defer wk.Done()
			for i := 0; time.Now().Before(end); i++ {
				fails := byte(0)
				if (i+g)%5 == 0 {
					fails = 1
				}
				slow := []byte{0, 1, 20, 80}[(i/5+g)%4]
				switch (i + g) % 4 {
				case 0, 1:
					once(blob(fails, slow, byte(i)))
				case 2:
					several(blob(fails, slow, byte(i)), 3)
				default:
					shared([][]byte{blob(0, slow, 3), blob(fails, slow, 5), blob(1, 2, 7)})
				}
			}
		}(g)
	}
	wk.Wait()
	sizes()
	stop.Store(true)
	bg.Wait()
	for i := 0; i < 400 && get(1) < get(0); i++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
	}
	if get(3) != 0 || get(4) != 0 {
		complain("contexts were used after being freed (%d times) or freed during a call (%d times)", get(3), get(4))
	}
	if get(2) != 0 {
		complain("%d contexts were freed twice", get(2))
	}
	if n := get(0) - get(1) - get(2); n > 3 {
		complain("%d of %d unreachable contexts were never released", n, get(0))
	}
	if get(7) != get(6) || get(8) != 0 {
		complain("%d messages were handed out, %d given back, %d given back that were none", get(6), get(7), get(8))
	}
	fmt.Printf("COUNT contexts watched %d\nCOUNT calls watched %d\nCOUNT messages watched %d\nCOUNT collections %d\n", get(0), get(5), get(6), gcs.Load())
	if good.Load() == 0 || refused.Load() == 0 {
		fmt.Println("NOTE nothing was called")
		os.Exit(3)
	}
	fmt.Println("DONE")
}
