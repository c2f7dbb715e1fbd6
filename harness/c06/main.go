//go:build go1.22

// C06: word-pair keys are symmetric, collision-free and reversible.
package main

import (
	"fmt"

	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/verifrt/h"
)

func main() {
	h.Main(func(c *h.C) {
		dense := uint64(4096)
		if c.Thorough {
			dense = 1 << 16
		}
		var ids []uint64
		for i := uint64(0); i < dense; i++ {
			ids = append(ids, i)
		}
		for b := uint(4); b <= 32; b++ {
			for d := int64(-3); d <= 3; d++ {
				v := uint64(int64(1)<<b + d)
				if v >= dense && v < 1<<32 {
					ids = append(ids, v)
				}
			}
		}
		for _, v := range []uint64{0x55555555, 0xaaaaaaaa, 0xdeadbeef, 0x12345678, 0xffff0000, 0x0000ffff, 0xff00ff00, 0x00ff00ff} {
			if v >= dense {
				ids = append(ids, v)
			}
		}
		for i, a := range ids {
			c.Case(func() string { return fmt.Sprintf("pairs with %d", a) }, func(k *h.K) {
				for _, b := range ids[:i+1] {
					lo, hi := a, b
					if lo > hi {
						lo, hi = hi, lo
					}
					e := encode.EncodeBigram(a, b)
					if f := encode.EncodeBigram(b, a); f != e {
						k.Fail("symmetric", "the key of (%d,%d) is %d, the one of (%d,%d) is %d", a, b, e, b, a, f)
						return
					}
					// a key that decodes to its own pair is shared with no other pair.
					if x, y := encode.DecodeBigram(e); x != lo || y != hi {
						k.Fail("decode", "the key of (%d,%d) decodes to (%d,%d)", a, b, x, y)
						return
					}
				}
				k.States(i + 1)
				k.Transitions(2 * (i + 1))
				k.Traces(i + 1)
			})
		}
	})
}
