package main

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/props"
	"verif/simrt"
)

// The progress file is shared by the driver and its workers: one word with the
// lowest index at which a violation is known, then 8 words per worker.
type progress struct{ w []uint64 }

const slotWords = 8

func openProgress(f string, n int) *progress {
	fd, err := os.OpenFile(f, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	sz := 8 * slotWords * (n + 1)
	must(fd.Truncate(int64(sz)))
	b, err := syscall.Mmap(int(fd.Fd()), 0, sz, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	fd.Close()
	return &progress{unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), sz/8)}
}

func (p *progress) limit() *uint64            { return &p.w[0] }
func (p *progress) at(slot, word int) *uint64 { return &p.w[slotWords*(slot+1)+word] }

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Runs       int64
	Nontrivial int64
	Steps      int64
	Switches   int64
	SimTime    time.Duration
	Faults     map[string]int64
	Probes     map[string]int64
	Known      map[string]int64
	Violation  *Violation
	Samples    []string
	Cov        []int
	Rechecked  int64
	Mismatch   int64
	MismatchAt []int64
	Capped     bool
}

func worker(k *props.Check) {
	pr := openProgress(*progF, *workers)
	known := knownFn(loadKnown())
	r := WorkerResult{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	dl := time.Now().Add(*budget)
	seen := map[uint64]struct{}{}
	var first []uint64
	for i := *from; i < *runs; i += *stride {
		if uint64(i) > atomic.LoadUint64(pr.limit()) {
			break
		}
		now := time.Now()
		if now.After(dl) {
			r.Capped = true
			break
		}
		atomic.StoreUint64(pr.at(*slot, 1), uint64(now.UnixNano()))
		atomic.StoreUint64(pr.at(*slot, 0), uint64(i)+1)
		log := *slot == 0 && len(r.Samples) < 3
		res, c := one(k, i, log, known)
		r.Runs++
		if len(first) < 12 {
			first = append(first, res.Hash)
		}
		r.Steps += res.Steps
		r.Switches += res.Switches
		r.SimTime += res.SimTime
		for f, n := range res.Faults {
			r.Faults[f] += n
		}
		for f, n := range res.Probes {
			r.Probes[f] += n
		}
		if c.KnownHit != "" {
			r.Known[c.KnownHit]++
		}
		if c.Nontrivial {
			r.Nontrivial++
			if len(seen) < 1<<22 {
				seen[res.Hash] = struct{}{}
			}
		}
		if log && c.Nontrivial {
			s := ""
			for j, l := range res.Log {
				if j > 25 {
					s += "..."
					break
				}
				if len(l) > 300 {
					l = l[:300] + "..."
				}
				s += l + "\n"
			}
			r.Samples = append(r.Samples, s)
		}
		if res.Failure != nil {
			r.Violation = violationOf(i, res)
			r.Violation.Log = nil
			for {
				o := atomic.LoadUint64(pr.limit())
				if o <= uint64(i) || atomic.CompareAndSwapUint64(pr.limit(), o, uint64(i)) {
					break
				}
			}
			break
		}
	}
	atomic.StoreUint64(pr.at(*slot, 0), 0)
	if r.Violation == nil {
		// the same seed must give the same execution
		for j, h := range first {
			res, _ := one(k, *from+int64(j)**stride, false, known)
			r.Rechecked++
			if res.Hash != h {
				r.Mismatch++
				r.MismatchAt = append(r.MismatchAt, *from+int64(j)**stride)
			}
		}
	}
	for s, hit := range simrt.Cov {
		if hit {
			r.Cov = append(r.Cov, s)
		}
	}
	b := make([]byte, 0, 8*len(seen))
	for h := range seen {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	must(os.WriteFile(*outF+".hash", b, 0o644))
	writeJSON(*outF, &r)
}
