//go:build go1.22

// C05: co-occurrence counts equal the windowed pair counts of the text.
package main

import (
	"fmt"
	"io"
	"math"
	"strings"

	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/cpsutil"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

func count(k *h.K, s string, lower bool, min, window int, mk func() io.ReadSeeker) bool {
	r := ref.NewCorpus(s, lower, -1, min)
	for _, typ := range []string{"inc", "prox"} {
		want := r.Cooc(window, typ == "prox")
		for _, mem := range []bool{true, false} {
			c, err := cp.Load(mem, mk(), lower, -1, min, window, typ)
			if err != nil {
				k.Fail("error", "%q (%s, window %d, %s): %v", cp.Clip(s), cp.Store(mem), window, typ, err)
				return false
			}
			got, err := cp.Cooc(c)
			if err != nil {
				k.Fail("keys", "%v", err)
				return false
			}
			if m := cp.SameCooc(got, want); m != "" {
				k.Fail("count", "%q (%s, window %d, %s, lower=%v, min=%d): %s", cp.Clip(s), cp.Store(mem), window, typ, lower, min, m)
				return false
			}
		}
		out := ""
		if len(want) < 40 {
			out = ref.ShowPairs(want)
		}
		if window > len(r.IDs) {
			window = len(r.IDs)
		}
		k.One(len(r.IDs)*window, out)
	}
	return true
}

// forward checks the forward-context reader.
func forward(k *h.K, s string, n int, r io.ReadSeeker) bool {
	ws := ref.Words(s, false)
	var want, got []string
	for i := range ws {
		for d := 1; d <= n && i+d < len(ws); d++ {
			want = append(want, ws[i]+"|"+ws[i+d])
		}
	}
	if err := cpsutil.ReadWordWithForwardContext(r, n, func(a, b string) error {
		got = append(got, a+"|"+b)
		return nil
	}); err != nil {
		k.Fail("error", "forward context of %q with %d words: %v", s, n, err)
		return false
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		k.Fail("forward", "forward context of %q with %d words: %v, want %v", cp.Clip(s), n, got, want)
		return false
	}
	k.One(len(want), "")
	return true
}

func main() {
	h.Main(func(c *h.C) {
		n, al := 7, 4
		if c.Thorough {
			n, al = 9, 5
		}
		for l := 0; l <= n; l++ {
			ref.Canonical(l, al, func(q []int) {
				q = append([]int(nil), q...)
				c.Case(func() string { return "text " + ref.Text(q) }, func(k *h.K) {
					s := ref.Text(q)
					mk := func() io.ReadSeeker { return strings.NewReader(s) }
					for w := 0; w <= l+2; w++ {
						if !forward(k, s, w, mk()) || !count(k, s, false, -1, w, mk) {
							return
						}
						if w <= 3 && !count(k, s, false, 2, w, mk) {
							return
						}
					}
					// the window may be larger than any text.
					for _, w := range []int{1 << 31, 1 << 62} {
						if l > 4 {
							break
						}
						if !forward(k, s, w, mk()) || !count(k, s, false, 2, w, mk) {
							return
						}
					}
				})
			})
		}
		names := []string{"a", "A", "b", "B"}
		ref.Seqs(4, 4, func(q []int) {
			var ws []string
			for _, i := range q {
				ws = append(ws, names[i])
			}
			s := strings.Join(ws, "\n ")
			c.Case(func() string { return fmt.Sprintf("text %q lower-cased", s) }, func(k *h.K) {
				for w := 1; w <= 4; w++ {
					rd := func() io.ReadSeeker { return &cp.Reader{S: s, One: true} }
					if !forward(k, s, w, rd()) || !count(k, s, true, -1, w, rd) || !count(k, s, true, 2, w, rd) {
						return
					}
				}
			})
		})
		// longer texts, windows beyond 8 and counts beyond 16 bits.
		for _, words := range []int{20, 33, 64, 65, 100, 257, 1400, 4100} {
			for _, window := range []int{1, 2, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 64, 100} {
				if words*window > 140000 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%d words window %d", words, window) }, func(k *h.K) {
					var b strings.Builder
					for i := 0; i < words; i++ {
						fmt.Fprintf(&b, "w%d ", (i*i+i/5)%37)
					}
					mk := func() io.ReadSeeker { return strings.NewReader(b.String()) }
					forward(k, b.String(), window, mk())
					count(k, b.String(), false, -1, window, mk)
				})
			}
		}
		for _, n := range []int{255, 256, 257, 258, 65535, 65536, 65537, 65540} {
			c.Case(func() string { return fmt.Sprintf("the same word %d times", n) }, func(k *h.K) {
				s := strings.Repeat("w ", n)
				count(k, s, false, -1, 1, func() io.ReadSeeker { return strings.NewReader(s) })
			})
			if n < 1000 || c.Thorough {
				c.Case(func() string { return fmt.Sprintf("%d different words", n) }, func(k *h.K) {
					var b strings.Builder
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "w%d ", i)
					}
					s := b.String() + "w0 w3"
					count(k, s, false, -1, 3, func() io.ReadSeeker { return strings.NewReader(s) })
				})
			}
		}
		// more than a million different pairs.
		many := [][2]int{{70000, 16}}
		if c.Thorough {
			many = append(many, [2]int{140000, 16}, [2]int{300000, 15})
		}
		for _, m := range many {
			c.Case(func() string { return fmt.Sprintf("%d different words, window %d", m[0], m[1]) }, func(k *h.K) {
				var b strings.Builder
				for i := 0; i < m[0]; i++ {
					fmt.Fprintf(&b, "w%d ", i)
				}
				s := b.String() + "w0 w3"
				count(k, s, false, -1, m[1], func() io.ReadSeeker { return strings.NewReader(s) })
			})
		}
		// pairs of words far apart.
		far := []int{300, 1100, 4300}
		if c.Thorough {
			far = append(far, 9000, 17000)
		}
		for _, n := range far {
			c.Case(func() string { return fmt.Sprintf("%d words, window %d", n, n-20) }, func(k *h.K) {
				var b strings.Builder
				for i := 0; i < n; i++ {
					if i%97 < 2 || i < 3 || i > n-4 {
						fmt.Fprintf(&b, "w%d ", i)
					} else {
						b.WriteString("x ")
					}
				}
				count(k, b.String(), false, -1, n-20, func() io.ReadSeeker { return strings.NewReader(b.String()) })
			})
		}
		// the weight of one pair at every distance around powers of two.
		c.Case(func() string { return "weights of distances" }, func(k *h.K) {
			for b := uint(0); b <= 62; b++ {
				for d := -3; d <= 3; d++ {
					dist := 1<<b + d
					if dist < 1 || b == 62 && d > 0 {
						continue
					}
					for _, typ := range []string{"inc", "prox"} {
						cc, err := co.New(typ)
						if err != nil {
							k.Fail("error", "%v", err)
							return
						}
						if err := cc.AddWithDistance(3, 2, dist); err != nil {
							k.Fail("error", "%s, distance %d: %v", typ, dist, err)
							return
						}
						want := 1.
						if typ == "prox" {
							want = 1 / float64(dist)
						}
						if got := cc.EncodedMatrix(); len(got) != 1 || math.Abs(got[encode.EncodeBigram(2, 3)]-want) > 1e-12*want {
							k.Fail("weight", "%s: a pair at distance %d counts %v, want %v", typ, dist, got, want)
							return
						}
					}
				}
			}
			k.One(1, "distances")
		})
		// one pair so often that the count needs more than 24 bits.
		for _, typ := range []string{"inc", "prox"} {
			c.Case(func() string { return fmt.Sprintf("one pair %d times, %s", 1<<24+3, typ) }, func(k *h.K) {
				cc, err := co.New(typ)
				if err != nil {
					k.Fail("error", "%v", err)
					return
				}
				n := 1<<24 + 3
				for i := 0; i < n; i++ {
					if err := cc.AddWithDistance(1+i%2, 2-i%2, 1); err != nil {
						k.Fail("error", "%v", err)
						return
					}
				}
				if got := cc.EncodedMatrix(); len(got) != 1 || got[encode.EncodeBigram(1, 2)] != float64(n) {
					k.Fail("count", "the pair was counted %d times: %v", n, got)
				}
				k.One(n, typ)
			})
		}
		// large ids, both argument orders, repeated additions.
		var ids []int
		for _, b := range []uint{0, 1, 7, 8, 15, 16, 20, 21, 22, 24, 30, 31, 32} {
			for d := -2; d <= 2; d++ {
				if v := 1<<b + d; v >= 0 && v < 1<<32 {
					ids = append(ids, v)
				}
			}
		}
		for _, x := range ids {
			c.Case(func() string { return fmt.Sprintf("pairs with id %d", x) }, func(k *h.K) {
				cc, err := co.New(co.Increment)
				if err != nil {
					k.Fail("error", "%v", err)
					return
				}
				want := map[ref.Pair]float64{}
				for i, y := range ids {
					for j := 0; j <= i%3; j++ {
						if err := cc.Add(x, y); err != nil {
							k.Fail("error", "%v", err)
						}
						if err := cc.Add(y, x); err != nil {
							k.Fail("error", "%v", err)
						}
						want[ref.MkPair(x, y)] += 2
					}
				}
				got := map[ref.Pair]float64{}
				for e, v := range cc.EncodedMatrix() {
					a, b := encode.DecodeBigram(e)
					got[ref.MkPair(int(a), int(b))] += v
				}
				if m := cp.SameCooc(got, want); m != "" {
					k.Fail("count", "adding pairs with %d: %s", x, m)
				}
				k.One(len(ids), fmt.Sprint(x))
			})
		}
	})
}
