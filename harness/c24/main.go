//go:build go1.22

// C24: a failed save is always reported.
package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/modelutil/vector"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/tr"
)

// dest accepts bytes up to an offset.
type dest struct {
	b     bytes.Buffer
	at    int  // offset at which it fails, -1: never
	call  int  // call at which it fails, 0: never
	mode  int  // what failing means
	once  bool // only the first time
	err   error
	fired bool
	calls int
	none  int // calls in a row of which nothing is accepted
}

const (
	refuse   = iota // nothing of the call is accepted, error
	part            // accepted up to the offset, error
	short           // accepted up to the offset, no error
	all             // accepted completely, and an error
	silently        // accepted nothing, n=0, no error
	modes
)

// errs are the errors of the destination; they mean nothing special to a writer.
var errs = append([]error{io.EOF}, cp.Errs...)

func (d *dest) Write(p []byte) (int, error) {
	d.calls++
	hit := d.at >= 0 && d.b.Len()+len(p) > d.at || d.call > 0 && d.calls >= d.call
	if !hit || d.once && d.fired {
		d.b.Write(p)
		return len(p), nil
	}
	d.fired = true
	n := 0
	if d.at >= 0 && d.at > d.b.Len() {
		n = d.at - d.b.Len()
	}
	if d.call > 0 {
		n = len(p) / 2
	}
	if n >= len(p) {
		n = len(p) - 1
	}
	if n < 0 {
		n = 0
	}
	// accepting nothing without an error breaks the rules of writers, nobody has to cope with it for ever.
	if d.none++; d.none > 1000 {
		d.none = 0
		return 0, d.err
	}
	if n > 0 && d.mode != silently {
		d.none = 0
	}
	switch d.mode {
	case refuse:
		return 0, d.err
	case part:
		d.b.Write(p[:n])
		return n, d.err
	case short:
		d.b.Write(p[:n])
		return n, nil
	case all:
		d.b.Write(p)
		return len(p), d.err
	}
	return 0, nil
}

// good tells whether success may be reported: a cut without an error may have been made good.
func (d *dest) good(want string) bool {
	return d.b.String() == want && (!d.fired || d.mode == short || d.mode == silently)
}

func (d *dest) String() string {
	s := fmt.Sprintf("offset %d", d.at)
	if d.call > 0 {
		s = fmt.Sprintf("write call %d", d.call)
	}
	m := []string{"the write is refused", "the write is cut with an error", "the write is cut without an error", "the write is accepted but fails", "the write accepts nothing without an error"}[d.mode]
	m += fmt.Sprintf(" (%v)", d.err)
	if d.once {
		m += " once"
	}
	return s + ": " + m
}

// faults tries every fault in [lo,hi) of a save whose text is want.
func faults(k *h.K, what string, want string, lo, hi int, full bool, save func(w io.Writer) error) {
	tries := lo
	try := func(d *dest) bool {
		d.err = errs[tries%len(errs)]
		tries++
		err := save(d)
		k.Transitions(d.calls)
		if err == nil && !d.good(want) {
			k.Fail("unreported", "%s, %v: saving reports success and the destination holds %d of %d bytes", what, d, d.b.Len(), len(want))
			return false
		}
		k.One(1, "")
		return true
	}
	for off := lo; off < hi; off++ {
		for m := 0; m < modes; m++ {
			for o := 0; o < 2; o++ {
				if !full && (m == all || o == 1) {
					continue
				}
				if !try(&dest{at: off, mode: m, once: o == 1}) {
					return
				}
			}
		}
		k.States(1)
	}
	if lo != 0 {
		return
	}
	d := &dest{at: -1}
	if err := save(d); err != nil || d.b.String() != want {
		k.Fail("good", "%s: saving to a good destination: error %v, %d of %d bytes", what, err, d.b.Len(), len(want))
		return
	}
	calls := d.calls
	for cl := 1; cl <= calls; cl++ {
		for m := 0; m < modes; m++ {
			for o := 0; o < 2; o++ {
				if !try(&dest{at: -1, call: cl, mode: m, once: o == 1}) {
					return
				}
			}
		}
	}
}

func main() {
	h.Main(func(c *h.C) {
		type size struct{ n, dim, step int }
		sizes := []size{{1, 1, 1}, {1, 2, 1}, {2, 1, 1}, {2, 3, 1}, {5, 4, 1}, {30, 15, 1}, {3, 160, 1}, {1000, 1, 7}, {1, 500, 3}, {10, 50, 1}, {70, 100, 97}, {9, 1000, 97}}
		if c.Thorough {
			sizes = append(sizes, size{70, 100, 1}, size{9, 1000, 1}, size{1000, 1, 1}, size{1, 8000, 11}, size{3000, 10, 101})
		}
		for _, s := range sizes {
			for _, verb := range []bool{false, true} {
				if verb && s.n*s.dim > 600 {
					continue
				}
				d := dictionary.New()
				for i := 0; i < s.n; i++ {
					d.Add(ref.Name(i))
				}
				m := matrix.New(s.n, s.dim, func(r int, v []float64) {
					for i := range v {
						v[i] = float64(r*31+i*17%101) / 64
					}
				})
				save := func(w io.Writer) (err error) {
					if verb {
						h.Capture(c.Scratch, func() { err = vector.Save(w, d, m, verbose.New(true), 3) })
						return
					}
					return vector.Save(w, d, m, verbose.New(false), 1000)
				}
				var b bytes.Buffer
				save(&b)
				want := b.String()
				what := fmt.Sprintf("%d words of dimension %d verbose=%v", s.n, s.dim, verb)
				const blk = 64
				if s.step == 1 {
					for lo := 0; lo < len(want); lo += blk {
						c.Case(func() string { return fmt.Sprintf("%s offsets %d...", what, lo) }, func(k *h.K) {
							hi := lo + blk
							if hi > len(want) {
								hi = len(want)
							}
							faults(k, what, want, lo, hi, len(want) < 1000, save)
						})
					}
					continue
				}
				var offs []int
				for o := 0; o < len(want); o += s.step {
					offs = append(offs, o)
				}
				for _, b := range []int{4096, 8192, 12288, 16384, 32768, 65536} {
					for d := -2; d <= 2; d++ {
						if b+d < len(want) {
							offs = append(offs, b+d)
						}
					}
				}
				offs = append(offs, len(want)-1)
				for _, o := range offs {
					c.Case(func() string { return fmt.Sprintf("%s offset %d", what, o) }, func(k *h.K) {
						faults(k, what, want, o, o+1, false, save)
					})
				}
			}
		}
		// so large that the text is hardly held back as a whole: write calls fail, as many as there is time for.
		large := []size{{2000, 100, 0}, {40000, 1, 0}, {3, 60000, 0}}
		if c.Thorough {
			large = append(large, size{30000, 100, 0}, size{300000, 2, 0}, size{2, 1000000, 0})
		}
		for _, s := range large {
			c.Case(func() string { return fmt.Sprintf("%d words of dimension %d, write calls that fail", s.n, s.dim) }, func(k *h.K) {
				d := dictionary.New()
				for i := 0; i < s.n; i++ {
					d.Add(ref.Name(i))
				}
				m := matrix.New(s.n, s.dim, func(r int, v []float64) {
					for i := range v {
						v[i] = float64(r*31+i*17%101) / 64
					}
				})
				save := func(w io.Writer) error { return vector.Save(w, d, m, verbose.New(false), 1000) }
				var want bytes.Buffer
				g := &dest{at: -1}
				if err := save(g); err != nil {
					k.Fail("good", "%v", err)
					return
				}
				save(&want)
				what := fmt.Sprintf("%d words of dimension %d", s.n, s.dim)
				calls := g.calls
				budget := 20 << 20
				if c.Thorough {
					budget = 600 << 20
				}
				step := 1 + calls*want.Len()/budget
				for cl := 1; cl <= calls && !k.Failed(); cl++ {
					if cl > 2 && cl < calls-1 && cl%step != 0 {
						continue
					}
					for m := 0; m < modes && !k.Failed(); m++ {
						d := &dest{at: -1, call: cl, mode: m, once: (cl+m)%2 == 0, err: errs[(cl+m)%len(errs)]}
						err := save(d)
						k.Transitions(d.calls)
						if err == nil && !d.good(want.String()) {
							k.Fail("unreported", "%s, %v: saving reports success, the destination holds %d of %d bytes", what, d, d.b.Len(), want.Len())
						}
						k.One(1, "")
					}
				}
				for off := want.Len() - 1; off > 0 && !k.Failed(); off -= want.Len()/12 + 1 {
					d := &dest{at: off, mode: off % 3, err: errs[0]}
					if err := save(d); err == nil && !d.good(want.String()) {
						k.Fail("unreported", "%s, %v: saving reports success, the destination holds %d of %d bytes", what, d, d.b.Len(), want.Len())
					}
					k.One(1, "")
				}
			})
		}
		for _, name := range []string{"w2v", "lexvec", "glove"} {
			for _, typ := range []string{"single", "agg"} {
				for _, dim := range []int{1, 3, 120} {
					var cfg = tr.Base(name)
					cfg.Dim = dim
					c.Case(func() string { return fmt.Sprintf("%s.Save %s dimension %d", name, typ, dim) }, func(k *h.K) {
						o := cfg.TrainText("a b c a d")
						if o.Err != nil {
							k.Fail("train", "%v", o.Err)
							return
						}
						var b bytes.Buffer
						if err := o.M.Save(&b, typ); err != nil {
							k.Fail("good", "%v", err)
							return
						}
						want := b.String()
						hi := len(want)
						if hi > 200 && !c.Thorough {
							hi = 60
						}
						faults(k, name+".Save "+typ, want, 0, hi, true, func(w io.Writer) error { return o.M.Save(w, typ) })
						faults(k, name+".Save "+typ, want, len(want)-20, len(want), true, func(w io.Writer) error { return o.M.Save(w, typ) })
					})
				}
			}
		}
	})
}
