//go:build go1.22

// Package cp drives the two corpus implementations and supplies readers that misbehave.
package cp

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"strings"
	"syscall"

	"github.com/ynqa/wego/pkg/corpus"
	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
	"github.com/ynqa/wego/pkg/corpus/fs"
	"github.com/ynqa/wego/pkg/corpus/memory"
	"github.com/ynqa/wego/pkg/util/verbose"
	"github.com/ynqa/wego/verifrt/ref"
)

// Store names a storage mode.
func Store(mem bool) string {
	if mem {
		return "memory"
	}
	return "disk"
}

// Make creates a corpus.
func Make(mem bool, r io.ReadSeeker, lower bool, max, min int) corpus.Corpus {
	if mem {
		return memory.New(r, lower, max, min)
	}
	return fs.New(r, lower, max, min)
}

// Load creates and loads a corpus; window < 0 means no co-occurrences.
func Load(mem bool, r io.ReadSeeker, lower bool, max, min, window int, count string) (corpus.Corpus, error) {
	c := Make(mem, r, lower, max, min)
	var with *corpus.WithCooccurrence
	if window >= 0 {
		with = &corpus.WithCooccurrence{CountType: count, Window: window}
	}
	return c, c.Load(with, verbose.New(false), 1000)
}

// Batches streams a corpus of at most n training tokens into a channel that never blocks. A stream that
// is not closed is an error.
func Batches(c corpus.Corpus, batch, n int) ([][]int, error) {
	ch := make(chan []int, n+8)
	if err := c.BatchWords(ch, batch); err != nil {
		return nil, err
	}
	var res [][]int
	for {
		select {
		case b, ok := <-ch:
			if !ok {
				return res, nil
			}
			res = append(res, b)
		default:
			return res, errors.New("the stream of batches is not closed")
		}
	}
}

// Tokens is the training token sequence of a corpus.
func Tokens(c corpus.Corpus, mem bool, batch, n int) ([]int, error) {
	res := []int{}
	if mem {
		return append(res, c.IndexedDoc()...), nil
	}
	bs, err := Batches(c, batch, n)
	for _, b := range bs {
		res = append(res, b...)
	}
	return res, err
}

// Cooc is the co-occurrence counts of a corpus with decoded keys.
func Cooc(c corpus.Corpus) (map[ref.Pair]float64, error) {
	res := map[ref.Pair]float64{}
	for k, v := range c.Cooccurrence().EncodedMatrix() {
		a, b := encode.DecodeBigram(k)
		p := ref.MkPair(int(a), int(b))
		if _, ok := res[p]; ok {
			return nil, fmt.Errorf("the pair %d,%d has two keys", a, b)
		}
		res[p] = v
	}
	return res, nil
}

// SameCooc compares counts with the reference.
func SameCooc(got, want map[ref.Pair]float64) string {
	for p, v := range want {
		g, ok := got[p]
		if !ok {
			return fmt.Sprintf("pair %d,%d is missing (want %g)", p.A, p.B, v)
		}
		if !(math.Abs(g-v) <= 1e-10*v) {
			return fmt.Sprintf("pair %d,%d counts %g, want %g", p.A, p.B, g, v)
		}
	}
	for p, v := range got {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("pair %d,%d counts %g but never occurs within the window", p.A, p.B, v)
		}
	}
	return ""
}

// CheckDic compares vocabulary, frequencies and length with the reference.
func CheckDic(c corpus.Corpus, r *ref.Corpus) string {
	d := c.Dictionary()
	if c.Len() != len(r.Words) {
		return fmt.Sprintf("corpus length %d, want %d", c.Len(), len(r.Words))
	}
	if d.Len() != len(r.Dic) {
		return fmt.Sprintf("vocabulary size %d, want %d", d.Len(), len(r.Dic))
	}
	for id, w := range r.Dic {
		if got, ok := d.ID(w); !ok || got != id {
			return fmt.Sprintf("ID(%q) = %d,%v, want %d", w, got, ok, id)
		}
		if got, ok := d.Word(id); !ok || got != w {
			return fmt.Sprintf("Word(%d) = %q,%v, want %q", id, got, ok, w)
		}
		if got := d.IDFreq(id); got != r.Freq[id] {
			return fmt.Sprintf("IDFreq(%d) = %d, want %d", id, got, r.Freq[id])
		}
		if got := d.WordFreq(w); got != r.Freq[id] {
			return fmt.Sprintf("WordFreq(%q) = %d, want %d", w, got, r.Freq[id])
		}
	}
	for _, id := range []int{-1, len(r.Dic), len(r.Dic) + 1, -1 << 63, 1<<63 - 1} {
		if got, ok := d.Word(id); ok {
			return fmt.Sprintf("Word(%d) = %q exists but there are %d words", id, got, len(r.Dic))
		}
		if got := d.IDFreq(id); got != 0 {
			return fmt.Sprintf("IDFreq(%d) = %d but there are %d words", id, got, len(r.Dic))
		}
	}
	absent := []string{"", "never-there", "A B"}
	for id, w := range r.Dic {
		// words that resemble one of the text.
		if id >= 20 && id < len(r.Dic)-20 {
			continue
		}
		absent = append(absent, w+"x", w[:len(w)-1], w[1:], w+" ", " "+w, w+w, strings.ToUpper(w), strings.ToLower(w))
	}
	for _, w := range absent {
		if _, in := r.Index[w]; in {
			continue
		}
		if got, ok := d.ID(w); ok {
			return fmt.Sprintf("ID(%q) = %d but the word does not occur", w, got)
		}
		if got := d.WordFreq(w); got != 0 {
			return fmt.Sprintf("WordFreq(%q) = %d but the word does not occur", w, got)
		}
	}
	return ""
}

// Reader delivers a text in chosen pieces and fails at chosen calls.
type Reader struct {
	S        string
	Cuts     uint64 // bit i: a read ends after byte i (of texts of up to 64 bytes)
	One      bool   // at most one byte per read
	Max      int    // at most so many bytes per read, 0: no limit
	EOFLast  bool   // the read that delivers the last byte also reports the end
	Zero     bool   // every other read delivers nothing
	FailRead int    // the n-th read from now fails (1: the next), 0: none
	FailPart bool   // ... after delivering some bytes
	FailSeek int    // the n-th seek fails
	Err      error
	Pos      int
	Reads    int
	Seeks    int
	z        bool
}

// ErrFault is the injected fault.
var ErrFault = errors.New("injected fault")

// temporary is an error as network connections give it.
type temporary struct{}

func (temporary) Error() string   { return "temporary" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// Errs are errors that a source or a destination may fail with; none but io.EOF of a source means anything
// special to its user.
var Errs = []error{ErrFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, temporary{}, io.ErrNoProgress, errors.New(""),
	errors.New("EOF"), os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrPermission, os.ErrInvalid, bufio.ErrFinalToken, bufio.ErrTooLong,
	syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.ENOSPC, syscall.EPIPE, context.Canceled, context.DeadlineExceeded,
	io.ErrShortBuffer, io.ErrShortWrite, &os.PathError{Op: "read", Path: "corpus", Err: syscall.EISDIR},
	fmt.Errorf("wrapped: %w", os.ErrClosed)}

// Pick returns n of the errors, all of them in turn over the values of i.
func Pick(i, n int) []error {
	var l []error
	for j := 0; j < n; j++ {
		l = append(l, Errs[(i*n+j)%len(Errs)])
	}
	return l
}

// Mix makes a number of a string.
func Mix(s string) int {
	x := fnv.New32a()
	x.Write([]byte(s))
	return int(x.Sum32() >> 1)
}

func (r *Reader) fault() error {
	if r.Err != nil {
		return r.Err
	}
	return ErrFault
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	fail := r.FailRead > 0 && r.Reads == r.FailRead
	if fail && !r.FailPart {
		return 0, r.fault()
	}
	if r.Zero {
		r.z = !r.z
		if r.z {
			return 0, nil
		}
	}
	if r.Pos >= len(r.S) {
		if fail {
			return 0, r.fault()
		}
		return 0, io.EOF
	}
	n := len(r.S) - r.Pos
	if n > len(p) {
		n = len(p)
	}
	if r.One && n > 1 {
		n = 1
	}
	if r.Max > 0 && n > r.Max {
		n = r.Max
	}
	if r.Cuts != 0 {
		for i := 0; i < n; i++ {
			if r.Cuts>>(uint(r.Pos+i)&63)&1 == 1 {
				n = i + 1
			}
		}
	}
	if fail && n > 1 {
		n = (n + 1) / 2
	}
	copy(p, r.S[r.Pos:r.Pos+n])
	r.Pos += n
	if fail {
		return n, r.fault()
	}
	if r.EOFLast && r.Pos == len(r.S) {
		return n, io.EOF
	}
	return n, nil
}

func (r *Reader) Seek(off int64, whence int) (int64, error) {
	r.Seeks++
	if r.FailSeek > 0 && r.Seeks == r.FailSeek {
		return 0, r.fault()
	}
	at := off
	switch whence {
	case io.SeekCurrent:
		at += int64(r.Pos)
	case io.SeekEnd:
		at += int64(len(r.S))
	}
	if at < 0 {
		return 0, errors.New("negative position")
	}
	r.Pos = int(at)
	return at, nil
}

// ReadAll reads the text again from the start without faults.
func (r *Reader) String() string {
	return fmt.Sprintf("%q cuts=%b one=%v max=%d eof-with-last=%v zero=%v fail-read=%d part=%v fail-seek=%d", Clip(r.S), r.Cuts, r.One, r.Max, r.EOFLast, r.Zero, r.FailRead, r.FailPart, r.FailSeek)
}

// Clip shortens a long text for messages.
func Clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s... (%d bytes)", s[:60], len(s))
	}
	return s
}
