//go:build go1.22

// C03: streamed token batches are complete, ordered, stable and always end.
package main

import (
	"fmt"
	"strings"

	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
	"github.com/ynqa/wego/verifrt/vs"
)

// verify compares received batches with the training tokens.
func verify(bs [][]int, want []int, batch int) string {
	at := 0
	for i, b := range bs {
		if len(b) > batch || i < len(bs)-1 && len(b) != batch {
			return fmt.Sprintf("batch %d of %d has %d tokens, the batch size is %d: %v", i, len(bs), len(b), batch, bs)
		}
		for _, id := range b {
			if at >= len(want) || want[at] != id {
				return fmt.Sprintf("batches %v, want the tokens %v", bs, want)
			}
			at++
		}
	}
	if at != len(want) {
		return fmt.Sprintf("batches %v, want the tokens %v", bs, want)
	}
	return ""
}

type got struct {
	passes [][][]int
	errs   []error
	bad    string
}

func main() {
	h.Main(func(c *h.C) {
		names := []string{"a", "B", "c", "b"}
		// every text, batch size and filter; repeated passes.
		max := 6
		if c.Thorough {
			max = 8
		}
		for l := 0; l <= max; l++ {
			ref.Canonical(l, 4, func(q []int) {
				var ws []string
				for _, i := range q {
					ws = append(ws, names[i])
				}
				s := strings.Join(ws, " ")
				c.Case(func() string { return "text " + s }, func(k *h.K) {
					for _, lim := range [][2]int{{-1, -1}, {2, -1}, {-1, 1}, {2, 2}} {
						for _, lower := range []bool{false, true} {
							want := ref.NewCorpus(s, lower, lim[1], lim[0]).Tokens()
							for batch := 1; batch <= l+4; batch++ {
								batch := batch
								if batch > l+2 {
									// larger than any text.
									batch = []int{1 << 31, 1 << 62}[batch-l-3]
								}
								cc, err := cp.Load(false, strings.NewReader(s), lower, lim[1], lim[0], -1, "")
								if err != nil {
									k.Fail("error", "%v", err)
									return
								}
								for pass := 0; pass < 3; pass++ {
									bs, err := cp.Batches(cc, batch, l)
									if err != nil {
										k.Fail("end", "%q batch=%d: %v", s, batch, err)
										return
									}
									if m := verify(bs, want, batch); m != "" {
										k.Fail("batches", "%q lower=%v min=%d max=%d batch=%d pass %d: %s", s, lower, lim[0], lim[1], batch, pass, m)
										return
									}
									k.One(l, fmt.Sprint(want, batch))
								}
							}
						}
					}
				})
			})
		}
		// long texts.
		for _, words := range []int{1000, 1365, 1366, 4096, 21845, 21846, 65535, 65537, 140000, 1100000} {
			for _, batch := range []int{1, 2, 100, 4096, 10000, 65535, 65536, 70000, 1 << 20, words - 1, words, words + 1} {
				if batch > words+1 || words > 200000 && batch < 10000 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%d words batch %d", words, batch) }, func(k *h.K) {
					var b strings.Builder
					for i := 0; i < words; i++ {
						b.WriteString([]string{"ab ", "cd\n", "EF ", "Ab\t", "gh "}[(i*i+i/7)%5])
					}
					cc, err := cp.Load(false, strings.NewReader(b.String()), false, -1, -1, -1, "")
					if err != nil {
						k.Fail("error", "%v", err)
						return
					}
					bs, err := cp.Batches(cc, batch, words)
					if err != nil {
						k.Fail("end", "%v", err)
						return
					}
					if m := verify(bs, ref.NewCorpus(b.String(), false, -1, -1).Tokens(), batch); m != "" {
						k.Fail("batches", "%s", cp.Clip(m))
					}
					k.One(words, fmt.Sprint(words, batch))
				})
			}
		}
		// every interleaving of producer and consumer; read faults at every read of every pass.
		tmax, passes := 4, 2
		if c.Thorough {
			tmax, passes = 6, 3
		}
		for l := 0; l <= tmax; l++ {
			s := ref.Text([]int{0, 1, 0, 2, 1, 0}[:l])
			want := ref.NewCorpus(s, false, -1, -1).Tokens()
			// reads of one pass with one byte per read, including the final one.
			reads := len(s) + 2
			for batch := 1; batch <= l+1; batch++ {
				for capa := 0; capa <= 2; capa++ {
					for fault := 0; fault <= passes*reads+passes; fault++ {
						if fault > 0 && capa == 1 {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("text %q batch=%d buffered=%d fault=%d", s, batch, capa, fault)
						}, func(k *h.K) {
							failing := false
							k.Explore(vs.Opts{MaxPreempt: -1, Cache: true}, func() any {
								rd := &cp.Reader{S: s, One: true}
								g := &got{}
								cc, err := cp.Load(false, rd, false, -1, -1, -1, "")
								if err != nil {
									g.bad = err.Error()
									return g
								}
								rd.Reads, rd.Seeks = 0, 0
								if fault > passes*reads {
									rd.FailSeek = fault - passes*reads
								} else {
									rd.FailRead = fault
									rd.Err = cp.Errs[(fault+l*7+batch*3+capa)%len(cp.Errs)]
								}
								pass := func() ([][]int, error) {
									ch := make(chan []int, capa)
									res := make(chan error, 1)
									vs.Go(func() { vs.C(res).Send(cc.BatchWords(ch, batch)) }, "producer")
									var kept, snap [][]int
									for {
										b, ok := vs.Recv2(ch)
										if !ok {
											break
										}
										kept = append(kept, b)
										snap = append(snap, append([]int{}, b...))
									}
									err := vs.Recv(res)
									for i := range kept {
										if fmt.Sprint(kept[i]) != fmt.Sprint(snap[i]) {
											g.bad = fmt.Sprintf("batch %d was %v when received and is %v later", i, snap[i], kept[i])
										}
									}
									return snap, err
								}
								var fail error
								for p := 0; p < passes && fail == nil; p++ {
									var snap [][]int
									snap, fail = pass()
									g.passes = append(g.passes, snap)
									g.errs = append(g.errs, fail)
								}
								failing = rd.FailRead > 0 && rd.Reads >= rd.FailRead || rd.FailSeek > 0 && rd.Seeks >= rd.FailSeek
								if fail != nil {
									// the source recovers.
									rd.FailRead, rd.FailSeek = 0, 0
									bs, err := pass()
									if err != nil {
										g.bad = fmt.Sprintf("streaming again after a failure: %v", err)
									} else if m := verify(bs, want, batch); m != "" {
										g.bad = "streaming again after a failure: " + m
									}
								}
								return g
							}, func(r vs.Report) (string, string) {
								g := r.Result.(*got)
								if g.bad != "" {
									return "changed", g.bad
								}
								for p, bs := range g.passes {
									if g.errs[p] != nil {
										if !failing {
											return "error", fmt.Sprintf("pass %d fails: %v", p, g.errs[p])
										}
										continue
									}
									if m := verify(bs, want, batch); m != "" {
										return "batches", fmt.Sprintf("pass %d: %s", p, m)
									}
								}
								if failing && g.errs[len(g.errs)-1] == nil {
									return "silent", "reading failed but no pass reports an error"
								}
								return "", ""
							})
						})
					}
				}
			}
		}
	})
}
