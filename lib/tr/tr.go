//go:build go1.22

// Package tr builds, trains and reads models from one flat configuration.
package tr

import (
	"fmt"
	"io"
	"strings"

	"github.com/ynqa/wego/pkg/model"
	"github.com/ynqa/wego/pkg/model/glove"
	"github.com/ynqa/wego/pkg/model/lexvec"
	"github.com/ynqa/wego/pkg/model/modelutil/matrix"
	"github.com/ynqa/wego/pkg/model/word2vec"
)

// Cfg is a training configuration. The zero value of a field is what it says.
type Cfg struct {
	Model   string // w2v, glove, lexvec
	Mem     bool   // corpus in memory
	Workers int
	Batch   int
	Iter    int
	Dim     int
	Window  int
	LR      float64
	MinLR   float64
	ULR     int
	Min     int
	Max     int
	Lower   bool
	Verbose bool
	Log     int
	Thr     float64

	Arch  string // cbow, skipgram
	Opt   string // ns, hs
	Neg   int
	Depth int

	Rel    string
	Smooth float64

	Solver string
	Count  string
	Xmax   int
	Alpha  float64
}

// Base is a small deterministic configuration of a model.
func Base(m string) Cfg {
	return Cfg{Model: m, Mem: true, Workers: 1, Batch: 2, Iter: 1, Dim: 2, Window: 1, LR: 0.1, MinLR: 0.1, ULR: 1000, Min: -1, Max: -1,
		Log: 1000, Arch: "skipgram", Opt: "ns", Rel: "co", Smooth: 0.75, Solver: "sgd", Count: "inc", Xmax: 100, Alpha: 0.75}
}

func (c Cfg) String() string {
	var b strings.Builder
	st := "disk"
	if c.Mem {
		st = "mem"
	}
	fmt.Fprintf(&b, "%s/%s workers=%d iter=%d dim=%d window=%d lr=%g..%g/%d min=%d max=%d", c.Model, st, c.Workers, c.Iter, c.Dim, c.Window, c.MinLR, c.LR, c.ULR, c.Min, c.Max)
	if !c.Mem {
		fmt.Fprintf(&b, " batch=%d", c.Batch)
	}
	if c.Lower {
		b.WriteString(" lower")
	}
	if c.Verbose {
		fmt.Fprintf(&b, " verbose/%d", c.Log)
	}
	switch c.Model {
	case "w2v":
		fmt.Fprintf(&b, " %s %s neg=%d depth=%d thr=%g", c.Arch, c.Opt, c.Neg, c.Depth, c.Thr)
	case "lexvec":
		fmt.Fprintf(&b, " %s smooth=%g neg=%d thr=%g", c.Rel, c.Smooth, c.Neg, c.Thr)
	case "glove":
		fmt.Fprintf(&b, " %s %s xmax=%d alpha=%g", c.Solver, c.Count, c.Xmax, c.Alpha)
	}
	return b.String()
}

// New makes the model.
func (c Cfg) New() (model.Model, error) {
	switch c.Model {
	case "w2v":
		return word2vec.NewForOptions(word2vec.Options{
			BatchSize: c.Batch, Dim: c.Dim, DocInMemory: c.Mem, Goroutines: c.Workers, Initlr: c.LR, Iter: c.Iter, LogBatch: c.Log,
			MaxCount: c.Max, MaxDepth: c.Depth, MinCount: c.Min, MinLR: c.MinLR, ModelType: c.Arch, NegativeSampleSize: c.Neg,
			OptimizerType: c.Opt, SubsampleThreshold: c.Thr, ToLower: c.Lower, UpdateLRBatch: c.ULR, Verbose: c.Verbose, Window: c.Window,
		})
	case "lexvec":
		return lexvec.NewForOptions(lexvec.Options{
			BatchSize: c.Batch, Dim: c.Dim, DocInMemory: c.Mem, Goroutines: c.Workers, Initlr: c.LR, Iter: c.Iter, LogBatch: c.Log,
			MaxCount: c.Max, MinCount: c.Min, MinLR: c.MinLR, NegativeSampleSize: c.Neg, RelationType: c.Rel, Smooth: c.Smooth,
			SubsampleThreshold: c.Thr, ToLower: c.Lower, UpdateLRBatch: c.ULR, Verbose: c.Verbose, Window: c.Window,
		})
	case "glove":
		return glove.NewForOptions(glove.Options{
			Alpha: c.Alpha, BatchSize: c.Batch, CountType: c.Count, Dim: c.Dim, DocInMemory: c.Mem, Goroutines: c.Workers, Initlr: c.LR,
			Iter: c.Iter, LogBatch: c.Log, MaxCount: c.Max, MinCount: c.Min, SolverType: c.Solver, SubsampleThreshold: c.Thr,
			ToLower: c.Lower, Verbose: c.Verbose, Window: c.Window, Xmax: c.Xmax,
		})
	}
	panic("tr: no model " + c.Model)
}

// Out is what a training run leaves.
type Out struct {
	Err    error
	Single [][]float64
	Agg    [][]float64
	M      model.Model
}

// Train trains on a text.
func (c Cfg) Train(r io.ReadSeeker) Out {
	m, err := c.New()
	if err != nil {
		return Out{Err: err}
	}
	if err := m.Train(r); err != nil {
		return Out{Err: err, M: m}
	}
	return Read(m)
}

// TrainText trains on a text.
func (c Cfg) TrainText(text string) Out { return c.Train(strings.NewReader(text)) }

// Read reads the vectors of a trained model.
func Read(m model.Model) Out {
	return Out{M: m, Single: Rows(m.WordVector("single")), Agg: Rows(m.WordVector("agg"))}
}

// Rows copies a matrix.
func Rows(m *matrix.Matrix) [][]float64 {
	var res [][]float64
	for i := 0; i < m.Row(); i++ {
		res = append(res, append([]float64{}, m.Slice(i)...))
	}
	return res
}

// Ctx is the context part of the vectors.
func (o Out) Ctx() [][]float64 {
	res := make([][]float64, len(o.Single))
	for i := range res {
		res[i] = make([]float64, len(o.Single[i]))
		for j := range res[i] {
			res[i][j] = o.Agg[i][j] - o.Single[i][j]
		}
	}
	return res
}

// Show prints vectors.
func Show(v [][]float64) string {
	var b strings.Builder
	for i, r := range v {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%.9g", r)
	}
	return b.String()
}
