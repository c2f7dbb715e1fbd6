//go:build go1.22

// C01: vocabulary, ids and word frequencies are exact.
package main

import (
	"fmt"
	"io"
	"slices"
	"strconv"
	"strings"

	"github.com/ynqa/wego/pkg/corpus/cpsutil"
	"github.com/ynqa/wego/pkg/corpus/dictionary"
	"github.com/ynqa/wego/verifrt/cp"
	"github.com/ynqa/wego/verifrt/h"
	"github.com/ynqa/wego/verifrt/ref"
)

func words(r io.ReadSeeker) ([]string, error) {
	ws := []string{}
	err := cpsutil.ReadWord(r, func(w string) error { ws = append(ws, w); return nil })
	return ws, err
}

// text checks one text with both corpora, with and without lower-casing.
func text(k *h.K, s string, mk func() io.ReadSeeker) {
	want := ref.Words(s, false)
	got, err := words(mk())
	if err != nil {
		k.Fail("error", "reading %q fails: %v", cp.Clip(s), err)
		return
	}
	if !slices.Equal(got, want) {
		k.Fail("words", "words of %q are %s, want %s", cp.Clip(s), cp.Clip(fmt.Sprintf("%d:%q", len(got), got)), cp.Clip(fmt.Sprintf("%d:%q", len(want), want)))
		return
	}
	for _, lower := range []bool{false, true} {
		r := ref.NewCorpus(s, lower, -1, -1)
		for _, mem := range []bool{true, false} {
			c, err := cp.Load(mem, mk(), lower, -1, -1, -1, "")
			if err != nil {
				k.Fail("error", "loading %q (%s, lower=%v) fails: %v", cp.Clip(s), cp.Store(mem), lower, err)
				return
			}
			if m := cp.CheckDic(c, r); m != "" {
				k.Fail("dictionary", "%q (%s, lower=%v): %s", cp.Clip(s), cp.Store(mem), lower, m)
				return
			}
			out := ""
			if len(s) < 64 {
				out = fmt.Sprint(r.Dic, r.Freq)
			}
			k.One(len(r.Words), out)
		}
	}
}

func main() {
	h.Main(func(c *h.C) {
		pieces := []string{"a", "B", " ", "\n", "\t", "\u00a0", "\u2003", "\u0085", "É", "\xff", "\xe2\x80", "\u200b", "İ", "Σ", "\r", "\v", "\f", "\x00", "a b"}
		plain := func(s string) func() io.ReadSeeker {
			return func() io.ReadSeeker { return strings.NewReader(s) }
		}
		// every text of up to so many pieces.
		max := 4
		if c.Thorough {
			max = 5
		}
		ref.Seqs(len(pieces), max, func(q []int) {
			q = append([]int(nil), q...)
			get := func() string {
				s := ""
				for _, i := range q {
					s += pieces[i]
				}
				return s
			}
			c.Case(func() string { return fmt.Sprintf("text %q", get()) }, func(k *h.K) { s := get(); text(k, s, plain(s)) })
		})
		// unusual words: runes whose case mappings are not each other's inverse, invisible and control runes, bytes that are no rune.
		odd := []string{"ſ", "s", "S", "ß", "ẞ", "\u212a", "k", "ı", "I", "i", "ς", "σ", "Σ", "ǅ", "Ǆ", "ŉ", "ﬁ", "µ", "μ", "Å", "\u0130", "ΑΣ", "ας",
			"\ufeff", "\ufeffa", "a\ufeff", "\u200b", "\u200d", "\u00ad", "\u2060", "\u180e", "\x00", "\x01", "\x1a", "\x1c", "\x1f", "\x7f", "\xff", "\xc0\x80", "\xed\xa0\x80", "\ufffd", "\U0001f600", "\U0010ffff",
			"#a", "//", "\"a", "\"", "'", "a,b", "%d", "\\n", "-", "--", ".", "0", "1e5", "NaN", "<unk>", "</s>", "a-b", "e\u0301", "é"}
		seps := []string{" ", "\n", "\r\n", "\u3000", "\u2028", "\u1680"}
		for i := range odd {
			for j := range odd {
				c.Case(func() string { return fmt.Sprintf("words %q and %q", odd[i], odd[j]) }, func(k *h.K) {
					for _, sep := range seps {
						s := odd[i] + sep + odd[j] + sep + odd[i]
						text(k, s, plain(s))
					}
				})
			}
		}
		// every rune there is, between, before and after letters, and in long words.
		for lo := rune(0); lo <= 0x10ffff; lo += 512 {
			c.Case(func() string { return fmt.Sprintf("runes from U+%04X", lo) }, func(k *h.K) {
				var b strings.Builder
				for r := lo; r < lo+512; r++ {
					w := "\xed\xa0\x80" // no surrogates
					if r < 0xd800 || r > 0xdfff {
						w = string(r)
					}
					b.WriteString("a" + w + "B " + w + "\n" + w + "a\t")
				}
				s := b.String()
				text(k, s, plain(s))
			})
		}
		for n := 2; n <= 70000; n = n*5/4 + 1 {
			c.Case(func() string { return fmt.Sprintf("words of %d bytes of one case", n) }, func(k *h.K) {
				s := strings.Repeat("X", n) + " " + strings.Repeat("x", n) + " " + strings.Repeat("É", n/2) + " " + strings.Repeat("1", n-1) + "A " + strings.Repeat("y", n-1) + "A"
				text(k, s, plain(s))
			})
		}
		// word sequences: every order of first appearance and every frequency.
		n, al := 8, 4
		if c.Thorough {
			n, al = 10, 5
		}
		for l := 1; l <= n; l++ {
			ref.Canonical(l, al, func(q []int) {
				q = append([]int(nil), q...)
				c.Case(func() string { return "words " + ref.Text(q) }, func(k *h.K) { s := ref.Text(q); text(k, s, plain(s)) })
			})
		}
		// every chunking of texts whose runes have several bytes.
		for _, s := range []string{"ab c\u2003dÉ", "\u00a0x\u2003\u2003y ", "a\xe2\x80 b\u2003", "éÉ\u0085é a", "aaa aaa aa"} {
			for cuts := uint64(0); cuts < 1<<uint(len(s)-1); cuts++ {
				for v := 0; v < 4; v++ {
					c.Case(func() string { return fmt.Sprintf("text %q cut %b variant %d", s, cuts, v) }, func(k *h.K) {
						text(k, s, func() io.ReadSeeker { return &cp.Reader{S: s, Cuts: cuts, EOFLast: v&1 == 1, Zero: v&2 == 2} })
					})
				}
			}
		}
		// sources that have been read before, up to every position.
		for _, s := range []string{"ab c\u2003dÉ a c", "a", " a b", "b a b a  ", ""} {
			for pos := 0; pos <= len(s); pos++ {
				for _, one := range []bool{false, true} {
					c.Case(func() string { return fmt.Sprintf("text %q read up to %d before, by the byte %v", s, pos, one) }, func(k *h.K) {
						text(k, s, func() io.ReadSeeker { return &cp.Reader{S: s, Pos: pos, One: one} })
						text(k, s, func() io.ReadSeeker {
							r := strings.NewReader(s)
							r.Seek(int64(pos), io.SeekStart)
							return r
						})
					})
				}
			}
		}
		// words and separators across every internal buffer limit.
		limits := []int{4096, 8192, 65536, 131072}
		if c.Thorough {
			limits = append(limits, 16384, 32768, 262144, 1<<20, 1<<22)
		} else {
			// some limits are only looked at with one long word.
			for _, lim := range []int{262144, 1000000, 1 << 20, 1 << 22} {
				c.Case(func() string { return fmt.Sprintf("a word of %d bytes", lim+1) }, func(k *h.K) {
					s := "a " + strings.Repeat("x", lim+1) + " b"
					text(k, s, plain(s))
				})
			}
		}
		for _, lim := range limits {
			for d := -3; d <= 3; d++ {
				for _, tail := range []string{"", " ", " b", "É x", "\u2003z", "\u2003\u2003z a"} {
					for kind := 0; kind < 3; kind++ {
						for _, step := range []int{0, 7, 4096} {
							if step == 7 && lim > 8192 {
								continue // reading is quadratic in the word length
							}
							c.Case(func() string { return fmt.Sprintf("size %d%+d tail %q kind %d step %d", lim, d, tail, kind, step) }, func(k *h.K) {
								var s string
								switch kind {
								case 0: // one long word
									s = strings.Repeat("x", lim+d) + tail
								case 1: // short words up to the limit
									s = strings.Repeat("ab ", lim/3) + strings.Repeat("c", lim%3+3+d) + tail
								case 2: // a long run of blanks
									s = "a" + strings.Repeat(" ", lim+d) + "b" + tail
								}
								text(k, s, func() io.ReadSeeker { return &cp.Reader{S: s, Max: step} })
							})
						}
					}
				}
			}
		}
		// many different words; many occurrences.
		sizes := []int{}
		for i := 0; i <= 130; i++ {
			sizes = append(sizes, i)
		}
		for _, b := range []int{255, 1023, 4095, 32767, 65535} {
			sizes = append(sizes, b, b+1, b+2)
		}
		for _, n := range sizes {
			c.Case(func() string { return fmt.Sprintf("%d different words, twice", n) }, func(k *h.K) {
				var b strings.Builder
				for r := 0; r < 2; r++ {
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "w%d ", i)
					}
				}
				text(k, b.String(), plain(b.String()))
			})
			c.Case(func() string { return fmt.Sprintf("one word %d times", n) }, func(k *h.K) {
				s := strings.Repeat("w ", n) + "v"
				text(k, s, plain(s))
			})
		}
		// so many different words that any two of 32 bits derived from them coincide somewhere.
		many := []int{400000}
		if c.Thorough {
			many = append(many, 3000000)
		}
		for _, n := range many {
			for kind := 0; kind < 3; kind++ {
				c.Case(func() string { return fmt.Sprintf("%d different words of kind %d, some repeated", n, kind) }, func(k *h.K) {
					var b strings.Builder
					x := uint64(kind)
					for i := 0; i < n; i++ {
						x += 0x9e3779b97f4a7c15
						z := x
						z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
						z = (z ^ z>>27) * 0x94d049bb133111eb
						z ^= z >> 31
						switch kind {
						case 0:
							fmt.Fprintf(&b, "%x ", z)
						case 1: // letters, several lengths
							w := strconv.FormatUint(z>>(i%20), 26)
							b.WriteString(w + " ")
						case 2: // a long common part
							fmt.Fprintf(&b, "%s%x ", "acommonprefixofmanywords-", z)
						}
						if i%7 == 0 {
							fmt.Fprintf(&b, "w%d ", i)
						}
						if i%7 == 6 {
							fmt.Fprintf(&b, "w%d ", i-6)
						}
					}
					text(k, b.String(), plain(b.String()))
				})
			}
		}
		// long words that differ in one byte only.
		for _, lim := range []int{8, 16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
			for d := -1; d <= 2; d++ {
				c.Case(func() string { return fmt.Sprintf("words of %d bytes that differ in one byte", lim+d) }, func(k *h.K) {
					n := lim + d
					w := []byte(strings.Repeat("abcdefg", n/7+1)[:n])
					var b strings.Builder
					for _, at := range []int{-1, n - 1, 0, n / 2, n - 2, 1, -1, 7, n - 1} {
						v := append([]byte(nil), w...)
						if at >= 0 && at < n {
							v[at] = 'z'
						}
						b.Write(v)
						b.WriteByte(' ')
					}
					b.Write(w[:n-1])
					b.WriteString(" ")
					b.Write(w)
					b.WriteString("x")
					text(k, b.String(), plain(b.String()))
				})
			}
		}
		// histories of dictionary operations, variadic additions included.
		ops := [][]string{{"a"}, {"b"}, {""}, {"a", "b"}, {"b", "b"}, {}, {"c", "a", "c"}}
		max = 4
		if c.Thorough {
			max = 6
		}
		ref.Seqs(len(ops), max, func(q []int) {
			q = append([]int(nil), q...)
			c.Case(func() string { return fmt.Sprintf("dictionary operations %v", q) }, func(k *h.K) {
				d := dictionary.New()
				var ws []string
				for i := -1; i < len(q); i++ {
					if i >= 0 {
						d.Add(ops[q[i]]...)
						ws = append(ws, ops[q[i]]...)
					}
					r := ref.FromWords(ws, -1, -1)
					if m := checkDic(d, r); m != "" {
						k.Fail("dictionary", "after adding %q: %s", ws, m)
						return
					}
				}
				k.One(len(ws), fmt.Sprint(ws))
			})
		})
	})
}

func checkDic(d *dictionary.Dictionary, r *ref.Corpus) string {
	if d.Len() != len(r.Dic) {
		return fmt.Sprintf("Len = %d, want %d", d.Len(), len(r.Dic))
	}
	for _, w := range []string{"a", "b", "c", "", "d"} {
		id, ok := d.ID(w)
		rid, rok := r.Index[w]
		f := 0
		if rok {
			f = r.Freq[rid]
		}
		if ok != rok || ok && id != rid {
			return fmt.Sprintf("ID(%q) = %d,%v, want %d,%v", w, id, ok, rid, rok)
		}
		if d.WordFreq(w) != f {
			return fmt.Sprintf("WordFreq(%q) = %d, want %d", w, d.WordFreq(w), f)
		}
	}
	for id := -1; id <= len(r.Dic); id++ {
		w, ok := d.Word(id)
		in := id >= 0 && id < len(r.Dic)
		if ok != in || in && w != r.Dic[id] {
			return fmt.Sprintf("Word(%d) = %q,%v", id, w, ok)
		}
		f := 0
		if in {
			f = r.Freq[id]
		}
		if d.IDFreq(id) != f {
			return fmt.Sprintf("IDFreq(%d) = %d, want %d", id, d.IDFreq(id), f)
		}
	}
	return ""
}
