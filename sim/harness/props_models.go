package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{ID: "M01", Run: runM01,
		Rule: "logistic regressions and linear support vector machines of drawn loss, penalty, form, class weights and cost are trained on rows delivered in drawn orders from reused memory with a drawn random sequence of the C library, and asked about rows delivered in other ways; the weights, exported by the library, are tried against the loss by definition and every answer against the weighted sum of the row's values",
		Real: "linear_models with the bundled liblinear, base", Stub: "a caller-supplied dataset delivers the rows; the C library's random numbers are seeded"})
	register(&Property{ID: "M02", Run: runM02,
		Rule: "layered networks are trained for k and for k+1 epochs with the same random numbers on rows delivered in a drawn order; the weights after the last epoch are compared with one epoch of gradient descent computed here, the answers for rows delivered in other ways with a forward pass",
		Real: "neural, filters (conversion), base, gonum", Stub: "a caller-supplied dataset delivers the rows; the shared random source is seeded"})
	register(&Property{ID: "M03", Run: runM03,
		Rule: "naive Bayes classifiers are trained on binary columns, or other columns seen through a conversion filter, delivered in drawn orders from reused memory with hash tables walked in drawn orders, and asked for rows and for single rows; the answers are compared with posteriors computed from the counted rows",
		Real: "naive, filters (conversion), base", Stub: "a caller-supplied dataset delivers the rows"})
	register(&Property{ID: "M04", Run: runM04,
		Rule: "Gaussian mixtures are fitted with drawn random starts to rows delivered in drawn orders; the component parameters are compared with the means and covariances of all groups of rows, and the component of every row with the densities by definition",
		Real: "clustering (mixture), base, gonum", Stub: "a caller-supplied dataset delivers the rows; the shared random source is seeded"})
	register(&Property{ID: "M05", Run: runM05,
		Rule: "averaged perceptrons of drawn size, rate and threshold are trained, once or twice, on rows delivered in drawn orders from reused memory, and asked about these and other rows delivered in other ways; the answers are compared with those of the average of the weights of a perceptron trained here",
		Real: "perceptron, base", Stub: "a caller-supplied dataset delivers the rows"})
}

// fieldOf finds the (possibly unexported) field of a type in a struct.
func fieldOf(v interface{}, typ reflect.Type) (interface{}, bool) {
	rv := reflect.ValueOf(v).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if f := rv.Field(i); f.Type() == typ {
			return reflect.NewAt(typ, unsafe.Pointer(f.UnsafeAddr())).Elem().Interface(), true
		}
	}
	return nil, false
}

// linearModel is a trained linear model as its exported text shows it.
type linearModel struct {
	labels []float64
	w      [][]float64 // by feature, by class (one if there are two classes)
}

func (t *T) exportedModel(m *linear_models.Model) *linearModel {
	os.MkdirAll(t.scratch, 0755)
	path := filepath.Join(t.scratch, "model.txt")
	var err error
	t.Must("exporting a model", func() { err = linear_models.Export(m, path) })
	if err != nil {
		t.Fail("export", "%v", err)
	}
	b, err := os.ReadFile(path)
	os.Remove(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	lm := &linearModel{}
	inW := false
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Fields(l)
		switch {
		case inW:
			var row []float64
			for _, s := range f {
				v, err := strconv.ParseFloat(s, 64)
				if err != nil {
					t.Fail("export-text", "weight %q", s)
				}
				row = append(row, v)
			}
			lm.w = append(lm.w, row)
		case len(f) == 0:
		case f[0] == "label":
			for _, s := range f[1:] {
				v, _ := strconv.ParseFloat(s, 64)
				lm.labels = append(lm.labels, v)
			}
		case f[0] == "w":
			inW = true
		}
	}
	return lm
}

// scores gives the weighted sums of a row and how exact they are.
func (lm *linearModel) scores(x []float64) (s []float64, exact float64) {
	n := len(lm.labels)
	if n == 2 {
		n = 1
	}
	s = make([]float64, n)
	for i, v := range x {
		for k := range s {
			s[k] += lm.w[i][k] * v
			exact = math.Max(exact, math.Abs(lm.w[i][k]*v))
		}
	}
	return s, exact * 1e-9
}

// allowed tells whether a label is an answer the weights give for a row.
func (lm *linearModel) allowed(x []float64, label float64) (bool, []float64) {
	s, e := lm.scores(x)
	if len(lm.labels) == 2 {
		return label == lm.labels[0] && s[0] >= -e || label == lm.labels[1] && s[0] <= e, s
	}
	best := math.Inf(-1)
	for _, v := range s {
		best = math.Max(best, v)
	}
	for k, l := range lm.labels {
		if l == label && s[k] >= best-e {
			return true, s
		}
	}
	return false, s
}

// svmLoss is the regularised loss a solver minimises.
func svmLoss(loss, penalty string, w []float64, x [][]float64, pos []bool, cp, cn float64) (f float64) {
	for _, v := range w {
		if penalty == "l1" {
			f += math.Abs(v)
		} else {
			f += v * v / 2
		}
	}
	for i := range x {
		z, c := 0.0, cn
		for j, v := range x[i] {
			z += w[j] * v
		}
		if pos[i] {
			c = cp
		} else {
			z = -z
		}
		switch loss {
		case "log":
			if z > 0 {
				f += c * math.Log1p(math.Exp(-z))
			} else {
				f += c * (-z + math.Log1p(math.Exp(z)))
			}
		case "l1":
			f += c * math.Max(0, 1-z)
		case "l2":
			f += c * math.Pow(math.Max(0, 1-z), 2)
		}
	}
	return f
}

func runM01(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 14, classKind: kFloat, nClass: 1, floats: t.D(2), prec: -1, classFirst: true, degenerate: t.P(1, 6)}
	if t.P(2, 3) {
		o.kinds = []int{kFloat}
	}
	t.enlarge(&o, "fewrows", "fewcols")
	tb := t.genTable(o)
	more := t.moreRows(tb, o, t.few(8))
	cc := tb.classCol()
	labels := []float64{0, 1}
	svc := t.P(1, 2)
	switch t.D(3) {
	case 1:
		labels = []float64{0, 1, 2, 3}[:2+t.D(3)]
	case 2:
		if !svc {
			labels = []float64{-1, 1}
		}
	}
	var xs []int
	for i, c := range tb.cols {
		if i != cc && c.kind == kFloat {
			xs = append(xs, i)
		}
	}
	oneSide := t.P(1, 4)
	for _, x := range []*table{tb, more} {
		for r := range x.rows {
			k := t.D(len(labels))
			if len(xs) > 0 && t.P(2, 3) {
				k = 0
				if v := cellFloat(x.rows[r][xs[0]]); v < 0 || v > 4 {
					k = len(labels) - 1
				}
			}
			x.rows[r][cc] = fcell(labels[k])
			for _, i := range xs {
				if v := cellFloat(x.rows[r][i]); oneSide && v > 0 {
					x.rows[r][i] = fcell(-v)
				}
			}
		}
	}
	tb.describe(t, "training rows")
	more.describe(t, "further rows")

	cost := []float64{0.1, 1, 10}[t.D(3)]
	eps := []float64{1e-3, 1e-6}[t.D(2)]
	linear_models.VerifC(uint32(1+t.D(1000)), -1, -1, -1, 0)
	var weights []float64 // by class, 1 if nothing else is said
	tol := 0.02           // of the loss of no weights; coordinate descent may stop far from the minimum, in the dual anywhere
	loss, penalty := "log", []string{"l2", "l1"}[t.D(2)]
	var fit func(base.FixedDataGrid) error
	var predict func(base.FixedDataGrid) (base.FixedDataGrid, error)
	var object interface{}
	if svc {
		c := [][3]string{{"l2", "l2", ""}, {"l2", "l2", "dual"}, {"l1", "l2", "dual"}, {"l2", "l1", ""}}[t.D(4)]
		loss, penalty = c[0], c[1]
		if c[2] != "" {
			tol = math.Inf(1)
		}
		m, err := linear_models.NewLinearSVC(c[0], c[1], c[2] != "", cost, eps)
		if err != nil {
			t.Fail("new", "%v: %v", c, err)
		}
		switch t.D(3) {
		case 1:
			m.Param.WeightClassesAutomatically = true
			n := []float64{0, 0}
			for r := range tb.rows {
				if cellFloat(tb.rows[r][cc]) > 0.5 {
					n[1]++
				} else {
					n[0]++
				}
			}
			weights = []float64{1 / math.Max(1, n[0]), 1 / math.Max(1, n[1])}
		case 2:
			for range labels {
				weights = append(weights, float64(1+t.D(8))/4)
			}
			m.Param.ClassWeights = append([]float64{}, weights...)
		}
		t.Descf("support vectors %v, cost %v, precision %v, class weights %v", c, cost, eps, weights)
		fit, predict, object = m.Fit, m.Predict, m
	} else {
		m, err := linear_models.NewLogisticRegression(penalty, cost, eps)
		if err != nil {
			t.Fail("new", "%v", err)
		}
		t.Descf("logistic regression, penalty %s, cost %v, precision %v", penalty, cost, eps)
		fit, predict, object = m.Fit, m.Predict, m
	}
	if penalty == "l1" {
		tol = 0.5
	}
	g := t.delivered(t.root(tb, false).g)
	var err error
	t.Must("training", func() { err = fit(g) })
	if err != nil {
		t.Fail("fit-error", "%v", err)
	}
	mi, ok := fieldOf(object, reflect.TypeOf((*linear_models.Model)(nil)))
	if !ok || mi.(*linear_models.Model) == nil {
		t.Probe("no model found")
		return
	}
	lm := t.exportedModel(mi.(*linear_models.Model))

	// the features are the numeric columns in the dataset's order
	var order []int
	for _, a := range base.NonClassFloatAttributes(t.root(tb, false).g) {
		order = append(order, tb.col(a.GetName()))
	}
	vec := func(of *table, r int) (v []float64) {
		for _, i := range order {
			v = append(v, cellFloat(of.rows[r][i]))
		}
		return
	}
	seen := map[float64]bool{}
	for r := range tb.rows {
		seen[cellFloat(tb.rows[r][cc])] = true
	}
	if len(seen) != len(lm.labels) || len(lm.w) < len(order) {
		t.Fail("classes", "%d classes and %d features, the model has labels %v and weights %v", len(seen), len(order), lm.labels, lm.w)
	}
	for _, l := range lm.labels {
		if !seen[l] {
			t.Fail("classes", "the model has the label %v which no row has", l)
		}
	}
	if len(seen) > 1 && len(order) > 0 {
		t.Nontrivial()
		t.Probe(fmt.Sprintf("%s loss, %s penalty, %d classes", loss, penalty, len(seen)))
	}

	// the weights are a minimum of the loss
	weight := func(l float64) float64 {
		if l >= 0 && int(l) < len(weights) {
			return cost * weights[int(l)]
		}
		return cost
	}
	var x [][]float64
	for r := range tb.rows {
		x = append(x, vec(tb, r))
	}
	for k := range lm.labels {
		if len(lm.labels) == 1 || len(lm.labels) == 2 && k == 1 {
			break
		}
		cp, cn := weight(lm.labels[k]), cost
		if len(lm.labels) == 2 {
			cn = weight(lm.labels[1])
		}
		var pos []bool
		for r := range tb.rows {
			pos = append(pos, cellFloat(tb.rows[r][cc]) == lm.labels[k])
		}
		w := make([]float64, len(order))
		big := 0.0
		for i := range w {
			w[i] = lm.w[i][k]
			big = math.Max(big, math.Abs(w[i]))
		}
		f := func(w []float64) float64 { return svmLoss(loss, penalty, w, x, pos, cp, cn) }
		at, zero := f(w), f(make([]float64, len(w)))
		try := func(v []float64) {
			if u := f(v); u < at-tol*zero {
				t.Fail("minimum", "class %v: the weights %v have loss %v, those of %v are %v (%v for none)", lm.labels[k], w, at, v, u, zero)
			}
		}
		try(make([]float64, len(w)))
		for _, s := range []float64{-1, 0.5, 0.9, 1.1, 2} {
			v := append([]float64{}, w...)
			for i := range v {
				v[i] *= s
			}
			try(v)
		}
		for i := range w {
			for _, h := range []float64{0.01, 0.05, 0.2, 1} {
				for _, d := range []float64{h * big, -h * big, h, -h} {
					v := append([]float64{}, w...)
					v[i] += d
					try(v)
				}
			}
			v := append([]float64{}, w...)
			v[i] = 0
			try(v)
		}
	}

	// the answers are those of the weights
	for _, of := range []*table{tb, more} {
		g := t.delivered(t.root(of, false).g)
		var p base.FixedDataGrid
		var err error
		t.Must("predicting", func() { p, err = predict(g) })
		if err != nil {
			t.Fail("predict-error", "predicting: %v", err)
		}
		var got []float64
		t.Must("reading answers", func() {
			s := base.ResolveAttributes(p, p.AllClassAttributes())
			_, n := p.Size()
			for r := 0; r < n; r++ {
				got = append(got, base.UnpackBytesToFloat(p.Get(s[0], r)))
			}
		})
		if len(got) != len(of.rows) {
			t.Fail("predict-rows", "%d answers for %d rows", len(got), len(of.rows))
		}
		for r := range of.rows {
			if ok, s := lm.allowed(vec(of, r), got[r]); !ok {
				t.Fail("answer", "row %v is answered with %v, the classes %v have scores %v", vec(of, r), got[r], lm.labels, s)
			}
		}
	}
}

// netCol is one input or output of a network: a column, or one value of it.
type netCol struct{ col, val int }

func (tb *table) netCols(names []string) (out []netCol) {
	by := map[string]netCol{}
	for i, c := range tb.cols {
		if c.kind == kCat && len(c.vals) > 2 {
			for k, v := range c.vals {
				by[c.name+"_"+v] = netCol{i, k}
			}
			continue
		}
		by[c.name] = netCol{i, -1}
	}
	for _, n := range names {
		c, ok := by[n]
		if !ok {
			return nil
		}
		out = append(out, c)
	}
	return out
}

func (n netCol) value(row []string) float64 {
	c := row[n.col]
	b := false
	switch {
	case c[0] == 'f':
		return cellFloat(c)
	case c[0] == 'b':
		b = c == "b1"
	case n.val >= 0:
		b = cellIdx(c) == n.val
	default:
		b = cellIdx(c) > 0
	}
	if b {
		return 1
	}
	return 0
}

// refNet is a layered network with weights read from a real one.
type refNet struct {
	layers []int // all of them
	w      [][][]float64
	b      [][]float64
}

func readNet(n *neural.Network, layers []int) *refNet {
	r := &refNet{layers: layers}
	off := 0
	for l := range layers {
		b := make([]float64, layers[l])
		for i := range b {
			if l > 0 {
				b[i] = n.GetBias(off + i + 1)
			}
		}
		r.b = append(r.b, b)
		if l+1 < len(layers) {
			w := make([][]float64, layers[l])
			for i := range w {
				for j := 0; j < layers[l+1]; j++ {
					w[i] = append(w[i], n.GetWeight(off+i+1, off+layers[l]+j+1))
				}
			}
			r.w = append(r.w, w)
		}
		off += layers[l]
	}
	return r
}

func (r *refNet) forward(in []float64) [][]float64 {
	a := [][]float64{in}
	for l := 1; l < len(r.layers); l++ {
		v := make([]float64, r.layers[l])
		for j := range v {
			s := r.b[l][j]
			for i := range a[l-1] {
				s += r.w[l-1][i][j] * a[l-1][i]
			}
			v[j] = 1 / (1 + math.Exp(-s))
		}
		a = append(a, v)
	}
	return a
}

// learn is one step of gradient descent; connections of weight 0 don't exist.
func (r *refNet) learn(in, want []float64, rate float64) {
	a := r.forward(in)
	last := len(a) - 1
	d := make([][]float64, len(a))
	d[last] = make([]float64, len(want))
	for j := range want {
		d[last][j] = (want[j] - a[last][j]) * a[last][j] * (1 - a[last][j])
	}
	for l := last - 1; l > 0; l-- {
		d[l] = make([]float64, len(a[l]))
		for i := range a[l] {
			s := 0.0
			for j := range a[l+1] {
				s += r.w[l][i][j] * d[l+1][j]
			}
			d[l][i] = s * a[l][i] * (1 - a[l][i])
		}
	}
	for l := 0; l < last; l++ {
		for i := range r.w[l] {
			for j := range r.w[l][i] {
				if r.w[l][i][j] != 0 {
					r.w[l][i][j] += rate * a[l][i] * d[l+1][j]
				}
			}
		}
		for j := range r.b[l+1] {
			r.b[l+1][j] += rate * d[l+1][j]
		}
	}
}

// diff describes the first difference between two networks.
func (r *refNet) diff(s *refNet) string {
	near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) || a != a && b != b }
	for l := range r.w {
		for i := range r.w[l] {
			for j := range r.w[l][i] {
				if !near(r.w[l][i][j], s.w[l][i][j]) {
					return fmt.Sprintf("weight from neuron %d of layer %d to neuron %d: %v instead of %v", i, l, j, r.w[l][i][j], s.w[l][i][j])
				}
			}
		}
	}
	for l := range r.b {
		for i := range r.b[l] {
			if !near(r.b[l][i], s.b[l][i]) {
				return fmt.Sprintf("bias of neuron %d of layer %d: %v instead of %v", i, l, r.b[l][i], s.b[l][i])
			}
		}
	}
	return ""
}

func runM02(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 6, classKind: []int{kCat, kFloat, kCat}[t.D(3)], minCls: 1, maxCls: 4, nClass: 1,
		floats: t.D(2), prec: -1, classFirst: true, degenerate: t.P(1, 8), unusedVals: t.P(1, 4)}
	if o.classKind == kFloat {
		o.nClass = 1 + t.D(2)
	}
	t.enlarge(&o, "classes", "fewcols")
	tb := t.genTable(o)
	more := t.moreRows(tb, o, 1+t.D(5))
	for i, c := range tb.cols {
		if c.kind != kFloat {
			continue
		}
		for _, x := range []*table{tb, more} {
			for r := range x.rows {
				v := float64(t.D(9)) / 4
				if c.class {
					v = float64(t.D(5)) / 4
				} else if t.P(1, 3) {
					v = -v
				}
				x.rows[r][i] = fcell(v)
			}
		}
	}
	tb.describe(t, "training rows")
	more.describe(t, "further rows")
	hidden := [][]int{{2}, {}, {3}, {2, 2}, {1, 3}}[t.D(5)]
	rate := []float64{0.9, 0.5, 0.1}[t.D(3)]
	epochs := 1 + t.D(4)
	seed := int64(1 + t.D(1<<20))
	n := len(tb.rows)
	var order []int
	if t.P(2, 3) {
		order = t.perm(n)
	}
	t.Descf("hidden layers %v, rate %v, %d epochs, rows delivered in order %v", hidden, rate, epochs, order)
	train := func(epochs int, conv float64) (*neural.MultiLayerNet, *neural.Network) {
		var g base.FixedDataGrid = t.root(tb, false).g
		if order != nil {
			sg := t.newSimGrid(g)
			sg.order, sg.reuse = order, true
			g = sg
		}
		m := neural.NewMultiLayerNet(append([]int{}, hidden...))
		m.MaxIterations, m.LearningRate, m.Convergence = epochs, rate, conv
		rand.Seed(seed)
		t.Must("training", func() { m.Fit(g) })
		ni, ok := fieldOf(m, reflect.TypeOf((*neural.Network)(nil)))
		if !ok || ni.(*neural.Network) == nil {
			return m, nil
		}
		return m, ni.(*neural.Network)
	}

	// inputs and outputs are the converted columns
	var in, out []netCol
	var inNames, outNames []string
	t.Must("converting", func() {
		g := t.root(tb, false).g
		f := filters.NewFloatConvertFilter()
		for _, a := range g.AllAttributes() {
			f.AddAttribute(a)
		}
		f.Train()
		l := base.NewLazilyFilteredInstances(g, f)
		for _, a := range base.NonClassAttributes(l) {
			inNames = append(inNames, a.GetName())
		}
		for _, a := range l.AllClassAttributes() {
			outNames = append(outNames, a.GetName())
		}
	})
	in, out = tb.netCols(inNames), tb.netCols(outNames)
	if len(in) != len(inNames) || len(out) != len(outNames) || len(out) == 0 || len(in) == 0 {
		t.Probe("ambiguous names")
		return
	}
	layers := append([]int{len(in)}, hidden...)
	layers = append(layers, len(out))

	_, na := train(epochs, 0)
	m, nb := train(epochs+1, 0)
	if na == nil || nb == nil {
		t.Probe("no network found")
		return
	}
	t.Nontrivial()
	a, b := readNet(na, layers), readNet(nb, layers)
	vec := func(cs []netCol, row []string) (v []float64) {
		for _, c := range cs {
			v = append(v, c.value(row))
		}
		return
	}
	for i := 0; i < n; i++ {
		r := i
		if order != nil {
			r = order[i]
		}
		a.learn(vec(in, tb.rows[r]), vec(out, tb.rows[r]), rate)
	}
	if d := b.diff(a); d != "" {
		t.Fail("descent", "after epoch %d of gradient descent: %s", epochs+1, d)
	}
	// it ends as soon as the error is small enough
	if t.P(1, 2) {
		_, n1 := train(1, 0)
		_, nc := train(20, 1e9)
		if d := readNet(nc, layers).diff(readNet(n1, layers)); d != "" {
			t.Fail("convergence", "an epoch with an error below 1e9 should end the training, but: %s", d)
		}
	}

	cls := tb.cols[out[0].col]
	for _, of := range []*table{tb, more} {
		g := t.delivered(t.root(of, false).g)
		var p base.FixedDataGrid
		t.Must("predicting", func() { p = m.Predict(g) })
		if _, k := p.Size(); k != len(of.rows) {
			t.Fail("predict-rows", "%d answers for %d rows", k, len(of.rows))
		}
		var specs []base.AttributeSpec
		t.Must("answers", func() { specs = base.ResolveAttributes(p, p.AllClassAttributes()) })
		for r := range of.rows {
			fw := b.forward(vec(in, of.rows[r]))
			o := fw[len(fw)-1]
			if cls.kind == kFloat {
				for _, s := range specs {
					for k := range out {
						if tb.cols[out[k].col].name != s.GetAttribute().GetName() {
							continue
						}
						v := base.UnpackBytesToFloat(p.Get(s, r))
						if !(math.Abs(v-o[k]) <= 1e-9) && !(v != v && o[k] != o[k]) {
							t.Fail("answer", "row %d is answered with %v, the network says %v", r, v, o[k])
						}
					}
				}
				continue
			}
			k := int(base.UnpackBytesToU64(p.Get(specs[0], r)))
			switch {
			case k < 0 || k >= len(cls.vals):
				t.Fail("answer", "row %d is answered with value %d of %d", r, k, len(cls.vals))
			case len(cls.vals) == 1:
			case len(cls.vals) == 2:
				if o[0] > 0.5+1e-9 && k != 1 || o[0] < 0.5-1e-9 && k != 0 {
					t.Fail("answer", "row %d is answered with value %d, the output neuron says %v", r, k, o[0])
				}
			default:
				for j := range o {
					if o[j] > o[k]+1e-9 {
						t.Fail("answer", "row %d is answered with value %d, the output neurons say %v", r, k, o)
					}
				}
			}
		}
	}
}

func runM03(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 6, minRows: 1, maxRows: 20, classKind: []int{kCat, kCat, kBin}[t.D(3)], minCls: 1, maxCls: 4, nClass: 1,
		kinds: []int{kBin}, floats: t.D(2), prec: -1, classFirst: true, learn: t.P(1, 3), degenerate: t.P(1, 6), unusedVals: t.P(1, 4)}
	filtered := t.P(1, 3)
	if filtered {
		o.kinds = nil
	}
	t.enlarge(&o, "rows", "cols", "classes")
	tb := t.genTable(o)
	more := t.moreRows(tb, o, t.few(8))
	tb.describe(t, "training rows")
	more.describe(t, "further rows")
	var names []string
	// the filter belongs to the attributes of one dataset; one dataset holds
	// the training rows, the other all of them
	data := func(of *table) base.FixedDataGrid {
		g := t.root(of, false).g
		if filtered {
			f := filters.NewBinaryConvertFilter()
			t.Must("converting", func() {
				for _, a := range base.NonClassAttributes(g) {
					f.AddAttribute(a)
				}
				f.Train()
				g = base.NewLazilyFilteredInstances(g, f)
			})
		}
		names = nil
		for _, a := range base.NonClassAttributes(g) {
			names = append(names, a.GetName())
		}
		return g
	}
	g := t.delivered(data(tb))
	cols := tb.netCols(names)
	if len(cols) != len(names) {
		t.Probe("ambiguous names")
		return
	}
	bit := func(c netCol, row []string) bool { return c.value(row) != 0 }
	nb := naive.NewBernoulliNBClassifier()
	var err error
	t.Must("training", func() { err = nb.Fit(g) })
	if err != nil {
		t.Fail("fit-error", "%v", err)
	}
	if t.P(1, 3) {
		// trained again on the same rows delivered another way
		g := t.delivered(data(tb))
		t.Must("training", func() { err = nb.Fit(g) })
		if err != nil {
			t.Fail("fit-error", "%v", err)
		}
	}
	count := map[string]float64{}
	with := map[string][]float64{}
	for r := range tb.rows {
		c := treeClass(tb, r)
		if with[c] == nil {
			with[c] = make([]float64, len(cols))
		}
		count[c]++
		for i, col := range cols {
			if bit(col, tb.rows[r]) {
				with[c][i]++
			}
		}
	}
	if len(count) > 1 {
		t.Nontrivial()
	}
	score := func(c string, row []string) float64 {
		s := math.Log(count[c] / float64(len(tb.rows)))
		for i, col := range cols {
			p := (with[c][i] + 1) / (count[c] + 1)
			switch {
			case bit(col, row):
				s += math.Log(p)
			case with[c][i] == count[c]:
				s += math.Log(1 / (count[c] + 1))
			default:
				s += math.Log(1 - p)
			}
		}
		return s
	}
	judge := func(row []string, got, how string) {
		if count[got] == 0 {
			t.Fail("answer", "%s is answered with %q, a class of no training row", how, got)
		}
		s := score(got, row)
		for c := range count {
			if u := score(c, row); u > s+1e-9*(1+math.Abs(s)) {
				t.Fail("answer", "%s is answered with %q (log posterior %v), %q has %v", how, got, s, c, u)
			}
		}
	}
	for _, of := range []*table{tb, more} {
		g := t.delivered(data(of))
		var out base.FixedDataGrid
		t.Must("predicting", func() { out, err = nb.Predict(g) })
		if err != nil {
			t.Fail("predict-error", "%v", err)
		}
		a := readPredClass(t, out)
		if len(a) != len(of.rows) {
			t.Fail("predict-rows", "%d answers for %d rows", len(a), len(of.rows))
		}
		for r := range of.rows {
			judge(of.rows[r], a[r], fmt.Sprintf("row %d", r))
			if t.P(1, 4) {
				var v [][]byte
				for _, c := range cols {
					b := byte(0)
					if bit(c, of.rows[r]) {
						b = 1
					}
					v = append(v, []byte{b})
				}
				var c string
				t.Must("predicting one row", func() { c = nb.PredictOne(v) })
				judge(of.rows[r], c, fmt.Sprintf("row %d alone", r))
			}
		}
	}
}

// perceptronAnswer tells whether a row has the second class, and whether that
// depends on rounding.
func perceptronAnswer(w, x []float64, thr float64) (second, sure bool) {
	var s, n float64
	for i := range w {
		s += w[i] * x[i]
		n += math.Abs(w[i] * x[i])
	}
	return s >= thr, n == 0 || math.Abs(s-thr) > 1e-9*(n+math.Abs(thr))
}

func runM05(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 6, minRows: 1, maxRows: 12, classKind: []int{kCat, kCat, kBin}[t.D(3)], minCls: 2, maxCls: 2, nClass: 1,
		kinds: []int{kFloat}, floats: t.D(2), prec: -1, learn: t.P(1, 2), degenerate: t.P(1, 6)}
	if t.P(1, 3) {
		o.kinds = nil
	}
	t.enlarge(&o, "rows", "cols")
	tb := t.genTable(o)
	more := t.moreRows(tb, o, t.few(8))
	tb.describe(t, "training rows")
	more.describe(t, "further rows")
	root := t.root(tb, false).g
	var order []int
	for _, a := range root.AllAttributes() {
		i := tb.col(a.GetName())
		if tb.cols[i].kind == kFloat && !tb.cols[i].class {
			order = append(order, i)
		}
	}
	nf := len(order)
	if nf > 0 && t.P(1, 4) {
		nf = 1 + t.D(nf)
	}
	rate := []float64{1, 0.1, 1.2, 0.015625}[t.D(4)]
	thr := []float64{0, 0.5, -0.25, 3}[t.D(4)]
	t.Descf("%d weights, rate %v, threshold %v", nf, rate, thr)
	vec := func(row []string) (v []float64) {
		for _, i := range order[:nf] {
			v = append(v, cellFloat(row[i]))
		}
		return
	}
	class := tb.classCol()
	text := func(second bool) string {
		k := 0
		if second {
			k = 1
		}
		return tb.cols[class].newAttr().GetStringFromSysVal(base.PackU64ToBytes(uint64(k)))
	}
	w, sum := make([]float64, nf), make([]float64, nf)
	n := 0
	for e := 0; e < perceptron.MaxEpochs; e++ {
		for r := range tb.rows {
			x := vec(tb.rows[r])
			got, sure := perceptronAnswer(w, x, thr)
			if !sure {
				t.Probe("unsure")
				return
			}
			want := treeClass(tb, r) == text(true)
			for i := range w {
				if want && !got {
					w[i] += 2 * rate * x[i]
				} else if got && !want {
					w[i] -= 2 * rate * x[i]
				}
				sum[i] += w[i]
			}
			n++
		}
	}
	for i := range w {
		if n > 0 {
			w[i] = sum[i] / float64(n)
		}
		if w[i] != 0 {
			t.Nontrivial()
		}
	}
	p := perceptron.NewAveragePerceptron(nf, rate, thr, []float64{0.1, 0.5}[t.D(2)])
	if t.P(1, 3) {
		t.Must("training on other rows", func() { p.Fit(t.delivered(t.root(more, false).g)) })
	}
	t.Must("training", func() { p.Fit(t.delivered(root)) })
	for _, of := range []*table{tb, more} {
		for k := 1 + t.D(2); k > 0; k-- {
			var out base.FixedDataGrid
			g := t.delivered(t.root(of, false).g)
			t.Must("predicting", func() { out = p.Predict(g) })
			if out == nil {
				t.Fail("predict", "no answers for rows of the same columns")
			}
			a := readPredClass(t, out)
			if len(a) != len(of.rows) {
				t.Fail("predict-rows", "%d answers for %d rows", len(a), len(of.rows))
			}
			for r := range of.rows {
				second, sure := perceptronAnswer(w, vec(of.rows[r]), thr)
				if sure && a[r] != text(second) {
					t.Fail("answer", "row %d is answered with %q, the averaged weights %v say %q", r, a[r], w, text(second))
				}
			}
		}
	}
}

// readPredClass gives the class texts of predictions.
func readPredClass(t *T, out base.FixedDataGrid) (a []string) {
	t.Must("reading answers", func() {
		_, n := out.Size()
		for r := 0; r < n; r++ {
			a = append(a, base.GetClass(out, r))
		}
	})
	return
}

// gauss is a normal distribution.
type gauss struct {
	mean []float64
	l    [][]float64 // Cholesky factor
	ok   bool        // well-conditioned
}

func newGauss(mean []float64, cov [][]float64) *gauss {
	n := len(mean)
	g := &gauss{mean: mean, ok: true}
	g.l = make([][]float64, n)
	for i := range g.l {
		g.l[i] = make([]float64, n)
		for j := 0; j <= i; j++ {
			s := cov[i][j]
			for k := 0; k < j; k++ {
				s -= g.l[i][k] * g.l[j][k]
			}
			if i == j {
				if !(s > 1e-7*cov[i][i]) || !(s > 1e-12) {
					g.ok = false
					return g
				}
				g.l[i][i] = math.Sqrt(s)
			} else {
				g.l[i][j] = s / g.l[j][j]
			}
		}
	}
	return g
}

func (g *gauss) logDensity(x []float64) float64 {
	d := -float64(len(x)) / 2 * math.Log(2*math.Pi)
	z := make([]float64, len(x))
	for i := range x {
		s := x[i] - g.mean[i]
		for k := 0; k < i; k++ {
			s -= g.l[i][k] * z[k]
		}
		z[i] = s / g.l[i][i]
		d -= z[i]*z[i]/2 + math.Log(g.l[i][i])
	}
	return d
}

// moments are the mean of some rows and their covariance (variances only if
// there are fewer rows than columns).
func moments(x [][]float64) (mean []float64, cov [][]float64) {
	n := len(x[0])
	mean = make([]float64, n)
	for _, r := range x {
		for j, v := range r {
			mean[j] += v / float64(len(x))
		}
	}
	for i := 0; i < n; i++ {
		row := make([]float64, n)
		for j := range row {
			if i != j && len(x) < n {
				continue
			}
			for _, r := range x {
				row[j] += (r[i] - mean[i]) * (r[j] - mean[j]) / float64(len(x)-1)
			}
		}
		cov = append(cov, row)
	}
	return
}

func runM04(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 3, minRows: 2, maxRows: 8, classKind: -1, kinds: []int{kFloat}, floats: t.D(2), prec: -1}
	tb := t.genTable(o)
	if t.P(1, 2) { // two groups
		for r := range tb.rows {
			if t.P(1, 2) {
				for c := range tb.cols {
					tb.rows[r][c] = fcell(cellFloat(tb.rows[r][c]) + 40)
				}
			}
		}
	}
	// many rows, whose values are so large and different that no two groups
	// of them have nearly the same mean
	many := t.P(1, 4)
	if many {
		nf := t.R(1, 2)
		tb.cols = tb.cols[:1]
		if nf == 2 {
			c := *tb.cols[0]
			c.name += "b"
			tb.cols = append(tb.cols, &c)
		}
		tb.rows = nil
		groups := t.R(1, 3)
		for n := t.R(10, 40); n > 0; n-- {
			off := float64(t.D(groups)) * (1 << 38)
			var row []string
			for range tb.cols {
				row = append(row, fcell(off+float64(t.D(1<<30))*512+float64(t.D(512))+(1<<39)))
			}
			tb.rows = append(tb.rows, row)
		}
	}
	more := t.moreRows(tb, o, 1+t.D(6))
	tb.describe(t, "training rows")
	more.describe(t, "further rows")
	k := 1 + t.D(3)
	if many {
		k = 2 + t.D(3)
	}
	seed := int64(1 + t.D(1<<20))
	em, err := clustering.NewExpectationMaximization(k)
	if err != nil {
		t.Fail("new", "%v", err)
	}
	t.Descf("%d components", k)
	root := t.root(tb, false).g
	g := t.delivered(root)
	rand.Seed(seed)
	t.badRand()
	if pi := t.Try(func() { err = em.Fit(g) }); pi != nil {
		t.Fail("panic@"+pi.Where, "%v", pi)
	}
	rand.VerifFilter = nil
	if (len(tb.rows) < k) != (err == clustering.InsufficientDataError) {
		t.Fail("fit-error", "%d components for %d rows: %v", k, len(tb.rows), err)
	}
	if err != nil {
		t.Probe("not fitted")
		return
	}
	t.Nontrivial()
	var order []int
	for _, a := range base.NonClassAttributes(root) {
		order = append(order, tb.col(a.GetName()))
	}
	vec := func(of *table, r int) (v []float64) {
		for _, i := range order {
			v = append(v, cellFloat(of.rows[r][i]))
		}
		return
	}
	nf := len(order)
	if r, c := em.Params.Means.Dims(); r != k || c != nf || len(em.Params.Covs) != k {
		t.Fail("parameters", "%d components of %d columns have means %dx%d and %d covariances", k, nf, r, c, len(em.Params.Covs))
	}
	var gs []*gauss
	var means [][]float64
	var covs [][][]float64
	well := true
	for c := 0; c < k; c++ {
		m := append([]float64{}, mat.Row(nil, c, em.Params.Means)...)
		var cov [][]float64
		for i := 0; i < nf; i++ {
			var row []float64
			for j := 0; j < nf; j++ {
				row = append(row, em.Params.Covs[c].At(i, j))
			}
			cov = append(cov, row)
		}
		means, covs = append(means, m), append(covs, cov)
		g := newGauss(m, cov)
		gs = append(gs, g)
		well = well && g.ok
	}
	// every component has the mean and the covariance of a group of rows, or
	// is as it was at first
	var x [][]float64
	lo, hi := make([]float64, nf), make([]float64, nf)
	for r := range tb.rows {
		v := vec(tb, r)
		x = append(x, v)
		for j := range v {
			if r == 0 || v[j] < lo[j] {
				lo[j] = v[j]
			}
			if r == 0 || v[j] > hi[j] {
				hi[j] = v[j]
			}
		}
	}
	same := func(m []float64, cov [][]float64, c int) bool {
		for i := range m {
			if math.Abs(m[i]-means[c][i]) > 1e-8*(1+math.Abs(m[i])) {
				return false
			}
			for j := range m {
				if math.Abs(cov[i][j]-covs[c][i][j]) > 1e-8*(1+math.Abs(cov[i][i])+math.Abs(cov[j][j])) {
					return false
				}
			}
		}
		return true
	}
	settled := nf > 1 && k > 1 || k == 1 || many
	for c := 0; c < k && !many; c++ {
		found, near := false, 0
		for s := 1; s < 1<<len(x); s++ {
			var y [][]float64
			for r := range x {
				if s>>r&1 == 1 {
					y = append(y, x[r])
				}
			}
			if len(y) < 2 {
				continue
			}
			m, cov := moments(y)
			if same(m, cov, c) {
				found = true
			}
			d := 0.0
			for i := range m {
				d = math.Max(d, math.Abs(m[i]-means[c][i]))
			}
			if d < 0.002 {
				near++
			}
		}
		first := true
		for i := range means[c] {
			first = first && means[c][i] >= lo[i]-1e-9 && means[c][i] <= hi[i]+1e-9
			for j := range means[c] {
				e := 0.0
				if i == j {
					e = 1
				}
				first = first && covs[c][i][j] == e
			}
		}
		if !found && !first {
			t.Fail("component", "component %d has mean %v and covariance %v, which are those of no group of rows", c, means[c], covs[c])
		}
		if near > 1 || near == 1 && !found {
			settled = false
		}
	}
	if !well {
		t.Probe("ill-conditioned")
		return
	}
	for _, of := range []*table{tb, more} {
		g := t.delivered(t.root(of, false).g)
		var cm clustering.ClusterMap
		t.Must("predicting", func() { cm, err = em.Predict(g) })
		if err != nil {
			t.Fail("predict-error", "%v", err)
		}
		at := map[int]int{}
		for c, rs := range cm {
			for _, r := range rs {
				if _, ok := at[r]; ok || r < 0 || r >= len(of.rows) || c < 0 || c >= k {
					t.Fail("map", "%d rows and %d components: %v", len(of.rows), k, cm)
				}
				at[r] = c
			}
		}
		if len(at) != len(of.rows) {
			t.Fail("map", "%d rows and %d components: %v", len(of.rows), k, cm)
		}
		clear := true
		for r := range of.rows {
			v := vec(of, r)
			d := gs[at[r]].logDensity(v)
			for c := range gs {
				u := gs[c].logDensity(v)
				tol := 1e-6 * (1 + math.Abs(u) + math.Abs(d))
				if u > d+tol {
					t.Fail("answer", "row %v is in component %d with log density %v, that of component %d is %v", v, at[r], d, c, u)
				}
				if c != at[r] && u > d-tol {
					clear = false
				}
			}
		}
		if of != tb || !settled || !clear {
			continue
		}
		t.Probe("settled")
		if many {
			t.Probe("settled many")
		}
		for c := 0; c < k; c++ {
			var y [][]float64
			for r := range x {
				if at[r] == c {
					y = append(y, x[r])
				}
			}
			if len(y) < 2 {
				continue
			}
			if m, cov := moments(y); !same(m, cov, c) {
				t.Fail("converged", "component %d has mean %v and covariance %v, its rows %v have %v and %v", c, means[c], covs[c], y, m, cov)
			}
		}
	}
}
