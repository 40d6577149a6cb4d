package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/verifsim"
)

func init() {
	register(&Property{ID: "R01", Run: runR01,
		Rule: "drawn datasets and views are shuffled, lazily shuffled and sampled, in sequence, under drawn random sequences with stuck and extreme stretches; rows are conserved, sources and earlier results keep their content",
		Real: "base shuffling and sampling, views", Stub: "the shared random source is seeded by the simulator and partly replaced"})
	register(&Property{ID: "R02", Run: runR02,
		Rule: "drawn datasets and views are split, the parts read in several ways and re-split, under drawn random sequences with stuck and extreme stretches; the parts partition the rows and stay as they are",
		Real: "base splitting, shuffling, views", Stub: "the shared random source is seeded by the simulator and partly replaced"})
	register(&Property{ID: "R03", Run: runR03,
		Rule: "drawn datasets are cross-validated with a recording classifier whose predictions are scripted and which fails where the plan says so, and with real classifiers; folds partition the rows, training sets are the complements, matrices count every row",
		Real: "evaluation cross-validation and confusion matrices, base views, real classifiers in part of the runs", Stub: "recording classifier; the shared random source is seeded by the simulator and partly replaced"})
	register(&Property{ID: "R04", Run: runR04,
		Rule: "the same learner is trained on the same data and asked the same rows twice with the generator reset, once with every internal table walked in canonical order and once in drawn orders; answers must agree",
		Real: "every learner", Stub: "map iteration order, random seed and task order are the simulator's"})
	register(&Property{ID: "R05", Run: runR05, Limit: 60e6,
		Rule: "randomised and iterative learners are trained on drawn, often degenerate data under random sequences with stuck and extreme stretches, and then asked for predictions; everything returns within the step limit and without a panic",
		Real: "random trees, forests, isolation forest, perceptron, neural network, mixture model, bagging", Stub: "the shared random source is seeded by the simulator and partly replaced"})
}

// badRand makes the shared random source yield drawn stretches of equal,
// extreme or repeated values; each stretch ends.
func (t *T) badRand() {
	if t.F(3) == 0 {
		return
	}
	n := 1 + t.F(3)
	type burst struct {
		at, len int
		mode    int
	}
	var bs []burst
	at := 0
	for i := 0; i < n; i++ {
		at += t.F([]int{4, 40, 400}[t.F(3)])
		b := burst{at, 1 + t.F([]int{3, 20, 120}[t.F(3)]), t.F(5)}
		at += b.len
		bs = append(bs, b)
	}
	t.Descf("random source with stretches %v (0 stuck 1 zero 2 max 3 small 4 alternating)", bs)
	i := 0
	var last uint64
	rand.VerifFilter = func(v uint64) uint64 {
		k := i
		i++
		for _, b := range bs {
			if k < b.at || k >= b.at+b.len {
				continue
			}
			t.faults["random-stretch"]++
			switch b.mode {
			case 0:
				return last
			case 1:
				return 0
			case 2:
				if k%7 == 6 { // the largest value would be rejected for ever
					return v
				}
				return 1<<63 - 1 - 1<<20
			case 3:
				return v >> 40
			case 4:
				if k&1 == 0 {
					return 0
				}
				return 1<<63 - 1 - 1<<40
			}
		}
		last = v
		return v
	}
}

func contains(rows [][]string, row []string) bool {
	for _, r := range rows {
		if sameStrs(r, row) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- R01

func runR01(t *T) {
	o := t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 12, floats: t.D(3), prec: -1, names: t.D(2), degenerate: t.P(1, 3)})
	if !o.big && t.P(1, 10) {
		o.minRows, o.maxRows = 30, 120
	}
	v := t.genView(o, t.D(3), viewOpt{filters: t.P(1, 3)})
	want := v.expect()
	if len(want.rows) == 0 {
		return
	}
	t.Nontrivial()
	t.badRand()
	type kept struct {
		what string
		g    base.FixedDataGrid
		tb   *table
	}
	var live []*kept
	cur := &kept{"source", v.g, want}
	live = append(live, cur)
	for i, n := 0, 1+t.D(4); i < n; i++ {
		src := live[t.D(len(live))]
		rows := len(src.tb.rows)
		var out base.FixedDataGrid
		what := ""
		inPlace := false
		switch t.D(3) {
		case 0:
			what = "Shuffle"
			_, inPlace = src.g.(*base.DenseInstances)
			t.Must(what, func() { out = base.Shuffle(src.g) })
		case 1:
			what = "LazyShuffle"
			t.Must(what, func() { out = base.LazyShuffle(src.g) })
		case 2:
			k := t.D(2*rows + 3)
			if rows == 0 {
				k = 0
			}
			what = fmt.Sprintf("SampleWithReplacement(%d of %d)", k, rows)
			t.Must(what, func() { out = base.SampleWithReplacement(src.g, k) })
			got := t.snap(what, out)
			if len(got.rows) != k {
				t.Fail("sample-size", "%s returned %d rows", what, len(got.rows))
			}
			for _, r := range got.rows {
				if !contains(src.tb.rows, r) {
					t.Fail("sample-row", "%s returned the row %s which the source doesn't have", what, showRow(r))
				}
			}
			if d := diff((&table{cols: src.tb.cols}), (&table{cols: got.cols}), cmpOpt{}); d != "" {
				t.Fail("sample-columns", "%s: %s", what, d)
			}
		}
		t.Descf("%s of %s", what, src.what)
		got := t.snap(what, out)
		if !strings.HasPrefix(what, "Sample") {
			if d := sameMultiset(src.tb, got); d != "" {
				t.Fail("shuffle-rows", "%s: %s", what, d)
			}
			if d := diff((&table{cols: src.tb.cols}), (&table{cols: got.cols}), cmpOpt{}); d != "" {
				t.Fail("shuffle-columns", "%s: %s", what, d)
			}
		}
		m, p := t.snapMap(what, out)
		if p != "" {
			t.Fail("iteration", "%s: %s", what, p)
		}
		if d := diff(got, m, cmpOpt{}); d != "" {
			t.Fail("iteration", "%s: reading by iteration and by position differ: %s", what, d)
		}
		if inPlace {
			// everything that looks at the source's rows moved along
			if out != src.g {
				t.Fail("not-in-place", "Shuffle of a plain dataset returned another dataset")
			}
			if d := sameMultiset(live[0].tb, t.snap("root", live[0].g)); live[0] != src && d != "" {
				t.Fail("shuffle-rows", "after an in-place shuffle the source: %s", d)
			}
			for _, l := range live {
				l.tb = t.snap(l.what, l.g)
			}
			src.tb = got
			continue
		}
		for _, l := range live {
			if d := diff(l.tb, t.snap(l.what, l.g), cmpOpt{}); d != "" {
				t.Fail("source-changed", "after %s of %s, %s changed: %s", what, src.what, l.what, d)
			}
		}
		live = append(live, &kept{what, out, got})
	}
}

// ---------------------------------------------------------------- R02

func runR02(t *T) {
	o := t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 14, floats: t.D(3), prec: -1, names: t.D(2), degenerate: t.P(1, 3)})
	if !o.big && t.P(1, 10) {
		o.minRows, o.maxRows = 40, 150
	}
	v := t.genView(o, t.D(3), viewOpt{filters: t.P(1, 3)})
	want := v.expect()
	t.Nontrivial()
	t.badRand()
	props := []float64{0.5, 0, 1, 0.01, 0.99, 0.3, 0.75}
	split := func(what string, g base.FixedDataGrid, want *table) (a, b base.FixedDataGrid, ta, tb *table) {
		p := props[t.D(len(props))]
		t.Descf("split %s at %v", what, p)
		t.Must("InstancesTrainTestSplit", func() { a, b = base.InstancesTrainTestSplit(g, p) })
		ta, tb = t.snap("training part", a), t.snap("test part", b)
		both := ta.clone()
		both.rows = append(both.rows, tb.rows...)
		if len(ta.rows)+len(tb.rows) != len(want.rows) {
			t.Fail("split-count", "splitting %d rows of %s gave %d and %d", len(want.rows), what, len(ta.rows), len(tb.rows))
		}
		if d := sameMultiset(want, both); d != "" {
			t.Fail("split-rows", "the parts of %s together: %s", what, d)
		}
		for _, x := range []*table{ta, tb} {
			if d := diff((&table{cols: want.cols}), (&table{cols: x.cols}), cmpOpt{}); d != "" {
				t.Fail("split-columns", "a part of %s: %s", what, d)
			}
		}
		return
	}
	a, b, ta, tb := split("the dataset", v.g, want)
	type part struct {
		g  base.FixedDataGrid
		tb *table
	}
	ps := []part{{v.g, want}, {a, ta}, {b, tb}} // the dataset itself can be split again
	for i, n := 0, t.D(4); i < n; i++ {
		k := t.D(len(ps))
		p := ps[k]
		switch t.D(4) {
		case 0, 1:
			m, pr := t.snapMap("part", p.g)
			if pr != "" {
				t.Fail("iteration", "iterating a part: %s", pr)
			}
			if d := diff(p.tb, m, cmpOpt{}); d != "" {
				t.Fail("iteration", "iterating a part gives other rows: %s", d)
			}
		case 2:
			a2, b2, x, y := split(fmt.Sprintf("part %d", k), p.g, p.tb)
			ps = append(ps, part{a2, x}, part{b2, y})
		case 3:
			var out base.FixedDataGrid
			t.Must("LazyShuffle", func() { out = base.LazyShuffle(p.g) })
			if d := sameMultiset(p.tb, t.snap("shuffled part", out)); d != "" {
				t.Fail("split-shuffle", "shuffling a part: %s", d)
			}
		}
		for j, q := range ps {
			if d := diff(q.tb, t.snap("part", q.g), cmpOpt{}); d != "" {
				t.Fail("part-changed", "part %d changed: %s", j, d)
			}
		}
	}
	if d := diff(want, t.snap("source", v.g), cmpOpt{}); d != "" {
		t.Fail("source-changed", "splitting changed the dataset: %s", d)
	}
}

// ---------------------------------------------------------------- R03

// recCls records what it is trained on and asked, and answers by script.
type recCls struct {
	base.BaseClassifier
	t        *T
	fits     []*table
	preds    []*table
	answers  [][]string
	failFit  int
	failPred int
	short    int // this prediction has a row too few
	vals     []string
}

var errScript = errors.New("injected classifier failure")

func (c *recCls) Fit(g base.FixedDataGrid) error {
	c.fits = append(c.fits, snapOf(g))
	if len(c.fits)-1 == c.failFit {
		c.t.Fault("fit-error")
		return errScript
	}
	return nil
}

func snapOf(g base.FixedDataGrid) *table {
	_, specs, _ := headOf(g)
	return snapRaw(g, specs)
}

func (c *recCls) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	s := snapOf(g)
	c.preds = append(c.preds, s)
	k := len(c.preds) - 1
	if k == c.failPred {
		c.t.Fault("predict-error")
		return nil, errScript
	}
	src := g
	if k == c.short && len(s.rows) > 0 {
		c.t.Fault("short-prediction")
		rows := []int{}
		for i := 1; i < len(s.rows); i++ {
			rows = append(rows, i)
		}
		src = base.NewInstancesViewFromVisible(g, rows, g.AllAttributes())
	}
	ret := base.GeneratePredictionVector(src)
	var ans []string
	_, n := ret.Size()
	for i := 0; i < n; i++ {
		v := c.vals[c.t.D(len(c.vals))]
		base.SetClass(ret, i, v)
		ans = append(ans, v)
	}
	c.answers = append(c.answers, ans)
	return ret, nil
}
func (c *recCls) String() string                                            { return "recording" }
func (c *recCls) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (c *recCls) Save(string) error                                         { return nil }
func (c *recCls) Load(string) error                                         { return nil }
func (c *recCls) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (c *recCls) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

func runR03(t *T) {
	if t.P(1, 3) {
		t.realCross()
		return
	}
	o := gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 14, floats: 0, prec: 0, classKind: kCat, minCls: 1, maxCls: 4, classFirst: true, degenerate: t.P(1, 4), id: t.P(1, 2)}
	if t.P(1, 10) {
		o.minRows, o.maxRows = 30, 80
	} else {
		t.enlarge(&o, "rows", "fewcols", "classes", "fewvals", "long")
	}
	v := t.genView(o, t.D(3), viewOpt{keepClass: true})
	want := v.expect()
	if len(want.rows) == 0 || len(want.classNames()) != 1 {
		return
	}
	t.Nontrivial()
	t.badRand()
	folds := 1 + t.D(6)
	if t.P(1, 12) {
		folds = 7 + t.D(24)
	}
	ci := want.classCol()
	c := &recCls{t: t, failFit: -1, failPred: -1, short: -1, vals: want.cols[ci].vals}
	switch t.F(6) {
	case 1:
		c.failFit = t.F(folds)
	case 2:
		c.failPred = t.F(folds)
	case 3:
		c.short = t.F(folds)
	}
	t.Descf("%d folds, failing fit %d, failing predict %d, short prediction %d", folds, c.failFit, c.failPred, c.short)
	var ms []evaluation.ConfusionMatrix
	var err error
	t.Must("GenerateCrossFoldValidationConfusionMatrices", func() {
		ms, err = evaluation.GenerateCrossFoldValidationConfusionMatrices(v.g, c, folds)
	})
	shortFired := c.short >= 0 && len(c.preds) > c.short && len(c.preds[c.short].rows) > 0
	if c.failFit >= 0 || c.failPred >= 0 || shortFired {
		if err == nil {
			t.Fail("fold-error-hidden", "a fold failed (fit %d, predict %d, short prediction %d) and cross-validation reported success", c.failFit, c.failPred, c.short)
		}
		return
	}
	if err != nil {
		t.Fail("cross-validation-error", "cross-validation failed: %v", err)
	}
	if len(ms) != folds || len(c.fits) != folds || len(c.preds) != folds {
		t.Fail("fold-count", "%d folds asked for, %d matrices, %d trained, %d predicted", folds, len(ms), len(c.fits), len(c.preds))
	}
	all := (&table{cols: want.cols}).clone()
	for i := range c.preds {
		p, f := c.preds[i], c.fits[i]
		if d := diff((&table{cols: want.cols}), (&table{cols: p.cols}), cmpOpt{}); d != "" {
			t.Fail("fold-columns", "the test data of fold %d: %s", i, d)
		}
		if d := diff((&table{cols: want.cols}), (&table{cols: f.cols}), cmpOpt{}); d != "" {
			t.Fail("fold-columns", "the training data of fold %d: %s", i, d)
		}
		all.rows = append(all.rows, p.rows...)
		both := p.clone()
		both.rows = append(both.rows, f.rows...)
		if d := sameMultiset(want, both); d != "" {
			t.Fail("fold-complement", "training and test rows of fold %d are not the whole dataset: %s", i, d)
		}
		exp := map[string]map[string]int{}
		for r, row := range p.rows {
			a := row[ci][strings.IndexByte(row[ci], ':')+1:]
			if exp[a] == nil {
				exp[a] = map[string]int{}
			}
			exp[a][c.answers[i][r]]++
		}
		t.sameMatrix(i, exp, ms[i])
	}
	t.foldScores(ms)
	if d := sameMultiset(want, all); d != "" {
		t.Fail("fold-partition", "the test rows of all folds together: %s", d)
	}
	if d := diff(want, t.snap("source", v.g), cmpOpt{}); d != "" {
		t.Fail("source-changed", "cross-validation changed the dataset: %s", d)
	}
}

// foldScores compares the mean and variance over the folds with their
// definition.
func (t *T) foldScores(ms []evaluation.ConfusionMatrix) {
	var mean, variance float64
	var given []float64
	t.Must("GetCrossValidatedMetric", func() {
		mean, variance = evaluation.GetCrossValidatedMetric(ms, func(m evaluation.ConfusionMatrix) float64 {
			return evaluation.GetAccuracy(m)
		})
	})
	var em, ev float64
	for _, m := range ms {
		x := evaluation.GetAccuracy(m)
		given = append(given, x)
		em += x / float64(len(ms))
	}
	for _, x := range given {
		ev += (x - em) * (x - em) / float64(len(ms))
	}
	if math.IsNaN(em) && math.IsNaN(mean) {
		return
	}
	if !(math.Abs(mean-em) <= 1e-9) || !(math.Abs(variance-ev) <= 1e-9) {
		t.Fail("fold-scores", "scores %v have mean %v and variance %v, given as %v and %v", given, em, ev, mean, variance)
	}
}

func (t *T) sameMatrix(fold int, want, got map[string]map[string]int) {
	for a, m := range want {
		for b, n := range m {
			if got[a][b] != n {
				t.Fail("matrix", "fold %d: %d rows of class %q predicted %q, the matrix says %d", fold, n, a, b, got[a][b])
			}
		}
	}
	for a, m := range got {
		for b, n := range m {
			if n != 0 && want[a][b] != n {
				t.Fail("matrix", "fold %d: the matrix counts %d rows of class %q predicted %q, there are %d", fold, n, a, b, want[a][b])
			}
		}
	}
}

// realCross cross-validates real models; the matrices must count each row
// once under its own class.
func (t *T) realCross() {
	f := t.fitCase("knn", "nb", "id3", "randomtree", "forest", "bagged", "treenode")
	cls, ok := f.l.raw.(base.Classifier)
	if !ok {
		return
	}
	folds := 2 + t.D(3)
	t.badRand()
	t.Nontrivial()
	t.Descf("%d folds", folds)
	want := f.tg.expect()
	var ms []evaluation.ConfusionMatrix
	var err error
	pi := t.Try(func() { ms, err = evaluation.GenerateCrossFoldValidationConfusionMatrices(f.tg.g, cls, folds) })
	if pi != nil {
		t.Fail("cross-validation-panics:"+f.m.kind+"@"+pi.Where, "cross-validating %s panicked: %v", f.m.kind, pi)
	}
	if err != nil {
		t.Probe("cv-error:" + f.m.kind)
		return
	}
	exp := map[string]int{}
	for r := range want.rows {
		exp[treeClass(want, r)]++
	}
	got := map[string]int{}
	for _, m := range ms {
		for a, x := range m {
			for _, n := range x {
				got[a] += n
			}
		}
	}
	for a, n := range exp {
		if got[a] != n {
			t.Fail("matrix-total", "the matrices count %d rows of class %q, there are %d", got[a], a, n)
		}
	}
	for a, n := range got {
		if exp[a] != n {
			t.Fail("matrix-total", "the matrices count %d rows of class %q, there are %d", n, a, exp[a])
		}
	}
}

// ---------------------------------------------------------------- R04

func runR04(t *T) {
	m := t.genModel(allKinds...)
	tb := t.trainData(m)
	t.Descf("model %s (%s)", m.kind, m.conf)
	tb.describe(t, "training data")
	more := t.moreRows(tb, m.o, t.few(6))
	more.describe(t, "test data")
	layout := t.P(1, 2)
	seed := int64(1 + t.D(1<<20))
	run := func(perm bool) (ans []string, err error, pi *PanicInfo) {
		// the datasets themselves are equal: built anew, the same way
		verifsim.NoPermute = true
		g := t.root(tb, false).g
		p := t.root(more, false).g
		verifsim.NoPermute = !perm
		rand.Seed(seed)
		t.cplan(-1, -1)
		runtime.VerifFIFO(true)
		pi = t.Try(func() {
			l := m.nw()
			if err = l.fit(g); err == nil {
				if ans, err = l.predict(g); err == nil {
					var a []string
					a, err = l.predict(p)
					ans = append(ans, a...)
				}
			}
		})
		runtime.VerifFIFO(false)
		verifsim.NoPermute = false
		return
	}
	_ = layout
	t.Nontrivial()
	n := 2 + t.D(2)
	a0, e0, p0 := run(false)
	t.Logf("canonical: %q %v %v", a0, e0, p0)
	for i := 0; i < n; i++ {
		a, e, p := run(true)
		if (e == nil) != (e0 == nil) || (p == nil) != (p0 == nil) {
			t.Fail("differs:"+m.kind, "the same training and prediction of a %s ended with (%v, %v) and with (%v, %v)", m.kind, e0, p0, e, p)
		}
		if !sameStrs(a, a0) {
			t.Fail("differs:"+m.kind, "the same training and prediction of a %s answered %q and %q", m.kind, a0, a)
		}
	}
}

// ---------------------------------------------------------------- R05

func runR05(t *T) {
	t.badRand()
	if t.P(1, 5) {
		t.mixture()
		return
	}
	m := t.genModel("randomtree", "forest", "iforest", "avgperc", "neural", "bagged", "id3", "treenode")
	m.o.degenerate = t.P(2, 3)
	if t.P(1, 4) && m.kind != "avgperc" {
		m.o.minCls = 1
	}
	if t.P(1, 25) {
		m.o.minRows, m.o.maxRows = 0, 1
	}
	tb := t.trainData(m)
	t.Descf("model %s (%s)", m.kind, m.conf)
	tb.describe(t, "training data")
	g := t.root(tb, true).g
	more := t.moreRows(tb, m.o, t.few(6))
	more.describe(t, "test data")
	p := t.root(more, true).g
	l := m.nw()
	t.Nontrivial()
	var err error
	if pi := t.Try(func() { err = l.fit(g) }); pi != nil {
		if m.kind == "iforest" && len(tb.rows) == 0 {
			// it has no other way to say so
			t.Probe("no-rows")
			return
		}
		t.Fail("training-panics:"+m.kind+"@"+pi.Where, "training a %s panicked: %v", m.kind, pi)
	}
	if err != nil {
		t.Probe("untrainable:" + m.kind)
		return
	}
	for _, x := range []base.FixedDataGrid{g, p} {
		if pi := t.Try(func() { _, err = l.predict(x) }); pi != nil {
			t.Fail("prediction-panics:"+m.kind+"@"+pi.Where, "predicting with a %s panicked: %v", m.kind, pi)
		}
	}
}

func (t *T) mixture() {
	o := gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 14, floats: t.D(2), prec: -1, kinds: []int{kFloat}, classKind: kFloat, degenerate: t.P(1, 2)}
	if t.P(1, 2) {
		o.classKind = -1
	}
	v := t.genView(o, t.D(2), viewOpt{})
	n := 1 + t.D(4)
	t.Descf("mixture of %d components", n)
	em, err := clustering.NewExpectationMaximization(n)
	if err != nil {
		t.Fail("em-new", "%v", err)
	}
	t.Nontrivial()
	if pi := t.Try(func() { err = em.Fit(v.g) }); pi != nil {
		t.Fail("training-panics:em@"+pi.Where, "fitting a mixture panicked: %v", pi)
	}
	if err != nil {
		t.Probe("untrainable:em")
		return
	}
	if pi := t.Try(func() { _, err = em.Predict(v.g) }); pi != nil {
		t.Fail("prediction-panics:em@"+pi.Where, "predicting with a mixture panicked: %v", pi)
	}
}
