package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
)

// learner is one model of the library behind one face.
type learner struct {
	fit     func(g base.FixedDataGrid) error
	predict func(g base.FixedDataGrid) ([]string, error)
	save    func(p string) error
	load    func(p string) error
	raw     interface{}
}

type predictor interface {
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
}

var errShape = errors.New("harness: prediction has the wrong shape")

// readPred renders the class value of every row of a prediction.
func readPred(out base.FixedDataGrid) []string {
	if out == nil {
		return nil
	}
	var ret []string
	as := out.AllClassAttributes()
	_, n := out.Size()
	for r := 0; r < n; r++ {
		s := ""
		for i, a := range as {
			spec, err := out.GetAttribute(a)
			if err != nil {
				s += "!" + err.Error()
				continue
			}
			if i > 0 {
				s += "|"
			}
			v := out.Get(spec, r)
			switch a.(type) {
			case *base.FloatAttribute:
				s += fcell(base.UnpackBytesToFloat(v))
			default:
				s += a.GetStringFromSysVal(v)
			}
		}
		ret = append(ret, s)
	}
	return ret
}

type savable interface {
	Save(string) error
	Load(string) error
}

func newLearner(raw interface{}, fit func(base.FixedDataGrid) error) *learner {
	l := &learner{raw: raw, fit: fit}
	if l.fit == nil {
		if f, ok := raw.(interface {
			Fit(base.FixedDataGrid) error
		}); ok {
			l.fit = f.Fit
		} else if f, ok := raw.(interface{ Fit(base.FixedDataGrid) }); ok {
			l.fit = func(g base.FixedDataGrid) error { f.Fit(g); return nil }
		}
	}
	switch p := raw.(type) {
	case predictor:
		l.predict = func(g base.FixedDataGrid) ([]string, error) {
			out, err := p.Predict(g)
			if err != nil {
				return nil, err
			}
			return readPred(out), nil
		}
	case interface {
		Predict(base.FixedDataGrid) base.FixedDataGrid
	}:
		l.predict = func(g base.FixedDataGrid) ([]string, error) { return readPred(p.Predict(g)), nil }
	}
	if s, ok := raw.(savable); ok {
		l.save, l.load = s.Save, s.Load
	}
	return l
}

// modelCase is one drawn model configuration with the data it needs.
type modelCase struct {
	kind  string
	conf  string
	o     gopt
	nw    func() *learner
	alt   func() *learner // an object with other settings, for loading into
	saves bool
	det   bool // takes no randomness
	crand bool // draws from the C library
	ens   bool // runs internal tasks
	errs  bool // training and prediction can report errors

	pruned bool // sets rows aside at random

	// nearest neighbours
	knnDist string
	knnK    int
	knnW    bool
}

var saveKinds = []string{"knn", "nb", "id3", "randomtree", "treenode", "svc", "multisvc", "ova", "bagged", "forest"}
var allKinds = append(append([]string{}, saveKinds...), "logistic", "linreg", "cartc", "cartr", "iforest", "avgperc", "neural")

func (t *T) genModel(kinds ...string) *modelCase {
	m := &modelCase{kind: kinds[t.D(len(kinds))], errs: true}
	m.o = gopt{minCols: 2, maxCols: 4, minRows: 3, maxRows: 12, prec: -1, floats: t.D(2), learn: true, degenerate: t.P(1, 3),
		classKind: kCat, minCls: 2, maxCls: 4, unusedVals: t.P(1, 4), classFirst: t.P(1, 3)}
	if t.P(1, 6) {
		m.o.names = 1
		if t.rawNames && t.P(1, 2) {
			m.o.names = 2
		}
	}
	if t.P(1, 6) && m.kind != "knn" {
		// (which of two nearly equal distances is the smaller one is a question
		// of rounding)
		m.o.floats = 6
	}
	for _, k := range saveKinds {
		m.saves = m.saves || k == m.kind
	}
	switch m.kind {
	case "knn":
		m.knn(t)
	case "nb":
		m.det = true
		m.o.kinds = []int{kBin}
		m.nw = func() *learner { return newLearner(naive.NewBernoulliNBClassifier(), nil) }
	case "id3":
		m.id3(t)
	case "randomtree":
		m.randomTree(t)
	case "treenode":
		m.treenode(t)
	case "svc":
		m.svc(t)
	case "multisvc", "ova":
		m.multi(t)
	case "bagged":
		m.bagged(t)
	case "forest":
		m.ens = true
		m.o.minRows = 4
		n, f := 1+t.D(5), 1+t.D(3)
		if t.P(1, 30) {
			n = 8 + t.D(30)
		}
		m.o.minCols = f
		if f < 2 {
			m.o.minCols = 2
		}
		m.conf = fmt.Sprintf("%d trees of %d features", n, f)
		m.nw = func() *learner { return newLearner(ensemble.NewRandomForest(n, f), nil) }
		n2, f2 := t.D(8), t.D(4)
		m.alt = func() *learner { return newLearner(ensemble.NewRandomForest(n2, f2), nil) }
	case "logistic":
		m.crand = true
		m.o.kinds = []int{kFloat}
		m.o.classKind = kFloat
		m.o.prec = 0
		pen := []string{"l2", "l1"}[t.D(2)]
		c := []float64{1, 0.1, 10}[t.D(3)]
		m.conf = fmt.Sprintf("%s C=%v", pen, c)
		m.nw = func() *learner {
			l, err := linear_models.NewLogisticRegression(pen, c, 1e-4)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return newLearner(l, nil)
		}
	case "linreg":
		m.det = true
		m.o.kinds = []int{kFloat}
		m.o.classKind = kFloat
		m.o.minRows = 6
		m.nw = func() *learner { return newLearner(linear_models.NewLinearRegression(), nil) }
	case "cartc":
		m.det = true
		m.o.kinds = []int{kFloat}
		m.o.classKind = kFloat
		m.o.prec = 0
		m.o.minCls, m.o.maxCls = 2, 2
		crit := []string{"gini", "entropy"}[t.D(2)]
		depth := []int64{-1, 2, 1}[t.D(3)]
		m.conf = fmt.Sprintf("%s depth %d", crit, depth)
		m.nw = func() *learner {
			c := trees.NewDecisionTreeClassifier(crit, depth, []int64{0, 1, 2, 3, 4, 5, 6})
			l := newLearner(c, c.Fit)
			l.predict = func(g base.FixedDataGrid) ([]string, error) {
				var s []string
				for _, v := range c.Predict(g) {
					s = append(s, fmt.Sprint(v))
				}
				return s, nil
			}
			return l
		}
	case "cartr":
		m.det = true
		m.o.kinds = []int{kFloat}
		m.o.classKind = kFloat
		crit := []string{"mae", "mse"}[t.D(2)]
		depth := []int64{-1, 2, 1}[t.D(3)]
		m.conf = fmt.Sprintf("%s depth %d", crit, depth)
		m.nw = func() *learner {
			c := trees.NewDecisionTreeRegressor(crit, depth)
			l := newLearner(c, c.Fit)
			l.predict = func(g base.FixedDataGrid) ([]string, error) {
				var s []string
				for _, v := range c.Predict(g) {
					s = append(s, fcell(v))
				}
				return s, nil
			}
			return l
		}
	case "iforest":
		m.errs = false
		m.o.kinds = []int{kFloat}
		m.o.classKind = kFloat
		n, d, sub := 1+t.D(5), 1+t.D(6), 1+t.D(6)
		m.o.minRows = sub
		if m.o.minRows < 3 {
			m.o.minRows = 3
		}
		m.conf = fmt.Sprintf("%d trees depth %d sample %d", n, d, sub)
		m.nw = func() *learner {
			c := trees.NewIsolationForest(n, d, sub)
			l := newLearner(&c, func(g base.FixedDataGrid) error { c.Fit(g); return nil })
			l.predict = func(g base.FixedDataGrid) ([]string, error) {
				var s []string
				for _, v := range c.Predict(g) {
					s = append(s, fcell(v))
				}
				return s, nil
			}
			return l
		}
	case "avgperc":
		m.errs = false
		m.det = true
		m.o.kinds = []int{kFloat}
		m.o.minCls, m.o.maxCls = 2, 2
		m.o.maxCols = m.o.minCols + t.D(2)
		m.o.minCols = m.o.maxCols
		nf := m.o.maxCols
		lr, thr, te := []float64{0.6, 0.1}[t.D(2)], []float64{0.5, 0}[t.D(2)], []float64{0.1, 0.5}[t.D(2)]
		m.conf = fmt.Sprintf("features %d rate %v threshold %v error %v", nf, lr, thr, te)
		m.nw = func() *learner { return newLearner(perceptron.NewAveragePerceptron(nf, lr, thr, te), nil) }
	case "neural":
		m.errs = false
		m.o.kinds = []int{kFloat}
		if t.P(1, 3) {
			m.o.classKind = kFloat
		}
		m.o.maxRows = 6
		layers := [][]int{{2}, {3}, {2, 2}, {}}[t.D(4)]
		it := 3 + t.D(20)
		m.conf = fmt.Sprintf("layers %v iterations %d", layers, it)
		m.nw = func() *learner {
			n := neural.NewMultiLayerNet(append([]int{}, layers...))
			n.MaxIterations = it
			return newLearner(n, nil)
		}
	default:
		panic("harness: kind " + m.kind)
	}
	dims := []string{"fewrows"}
	if m.kind != "neural" && m.kind != "cartc" && m.kind != "cartr" {
		dims = append(dims, "rows")
	}
	if m.kind != "avgperc" {
		dims = append(dims, "fewcols")
	}
	if m.kind == "nb" || m.kind == "knn" || m.kind == "svc" {
		dims = append(dims, "cols")
	}
	if m.o.classKind == kCat && m.kind != "avgperc" {
		dims = append(dims, "classes")
	}
	if m.o.kinds == nil {
		dims = append(dims, "fewvals")
	}
	if m.kind == "neural" {
		dims = []string{"classes"}
	}
	if (m.kind == "svc" || m.kind == "knn") && t.P(1, 30) {
		// what is stored of it doesn't fit into one buffer
		dims = []string{"manycols"}
	}
	t.enlarge(&m.o, dims...)
	return m
}

func (m *modelCase) knn(t *T) {
	m.det = true
	m.o.kinds = []int{kFloat}
	switch t.D(6) {
	case 4:
		m.o.kinds = []int{kFloat, kFloat, kCat, kBin}
	case 5:
		m.o.kinds = []int{kFloat, kFloat, kCat}
		fallthrough
	case 3:
		m.o.classKind, m.o.classFirst = kFloat, true
	}
	dist := []string{"euclidean", "manhattan", "cosine"}[t.D(3)]
	alg := []string{"linear", "kdtree"}[t.D(2)]
	k := 1 + t.D(4)
	w, opt, reload := t.P(1, 3), t.P(1, 3), t.P(1, 4)
	if dist == "cosine" {
		m.o.floats = 4
	}
	m.o.minRows = k
	if alg == "kdtree" {
		m.o.minRows = k + 1
	}
	if m.o.minRows < 3 {
		m.o.minRows = 3
	}
	m.knnDist, m.knnK, m.knnW = dist, k, w
	m.conf = fmt.Sprintf("%s %s k=%d weighted=%v opt=%v", dist, alg, k, w, opt)
	m.nw = func() *learner {
		c := knn.NewKnnClassifier(dist, alg, k)
		c.Weighted = w
		c.AllowOptimisations = opt
		l := newLearner(c, nil)
		if reload {
			l.load = func(p string) error {
				r, err := knn.ReloadKNNClassifier(p)
				if err == nil {
					*c = *r
				}
				return err
			}
		}
		return l
	}
	k2, o2 := 1+t.D(9), t.D(2) == 1
	m.alt = func() *learner {
		c := knn.NewKnnClassifier("manhattan", "linear", k2)
		c.Weighted, c.AllowOptimisations = !w, o2
		return newLearner(c, nil)
	}
}

func rules(t *T) (string, trees.RuleGenerator, bool) {
	switch t.D(4) {
	case 1:
		return "gini", new(trees.GiniCoefficientRuleGenerator), true
	case 2:
		return "gainratio", new(trees.InformationGainRatioRuleGenerator), true
	case 3:
		return "random", trees.NewRandomTree(1).Rule, false
	}
	return "gain", new(trees.InformationGainRuleGenerator), true
}

func (m *modelCase) id3(t *T) {
	n, r, det := rules(t)
	prune := 0.0
	if t.P(1, 3) {
		prune = []float64{0.3, 0.5, 0.6}[t.D(3)]
		m.o.minRows = 8
		m.o.maxRows = 14
		det = false
		m.pruned = true
	}
	m.det = det
	m.conf = fmt.Sprintf("rule %s prune %v", n, prune)
	m.nw = func() *learner { return newLearner(trees.NewID3DecisionTreeFromRule(prune, r), nil) }
}

func (m *modelCase) randomTree(t *T) {
	n := 1 + t.D(2)
	if t.P(1, 4) {
		n = 3 + t.D(3) // there may be fewer
	}
	m.conf = fmt.Sprintf("%d attributes", n)
	m.nw = func() *learner { return newLearner(trees.NewRandomTree(n), nil) }
}

func (m *modelCase) treenode(t *T) {
	n, r, det := rules(t)
	m.det = det
	m.conf = "rule " + n
	m.nw = func() *learner {
		l := &learner{}
		root := &trees.DecisionTreeNode{}
		l.raw = root
		l.fit = func(g base.FixedDataGrid) error {
			*root = *trees.InferID3Tree(g, r)
			return nil
		}
		l.predict = func(g base.FixedDataGrid) ([]string, error) {
			out, err := root.Predict(g)
			if err != nil {
				return nil, err
			}
			return readPred(out), nil
		}
		l.save, l.load = root.Save, root.Load
		return l
	}
}

// svcConf draws a supported combination of loss, penalty and form.
func svcConf(t *T) (string, string, bool, float64) {
	c := []struct {
		l, p string
		d    bool
	}{{"l2", "l2", true}, {"l2", "l2", false}, {"l1", "l2", true}, {"l2", "l1", false}}[t.D(4)]
	return c.l, c.p, c.d, []float64{1, 0.1, 10}[t.D(3)]
}

func (m *modelCase) svc(t *T) {
	m.crand = true
	m.o.kinds = []int{kFloat}
	m.o.classKind = kFloat
	m.o.minCls, m.o.maxCls = 2, 2
	l, p, d, c := svcConf(t)
	m.conf = fmt.Sprintf("loss %s penalty %s dual %v C %v", l, p, d, c)
	m.nw = func() *learner {
		s, err := linear_models.NewLinearSVC(l, p, d, c, 1e-4)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return newLearner(s, nil)
	}
	if t.P(1, 3) {
		// several models may be made from the same parameters
		par := &linear_models.LinearSVCParams{C: c, Eps: 1e-4, Dual: d}
		if par.SetKindFromStrings(l, p) != nil {
			panic("harness: parameters")
		}
		if t.P(1, 2) {
			par.ClassWeights = []float64{0.5, 2}
		}
		m.conf += fmt.Sprintf(" weights %v", par.ClassWeights)
		m.nw = func() *learner {
			s, err := linear_models.NewLinearSVCFromParams(par)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return newLearner(s, nil)
		}
	}
	m.alt = func() *learner {
		if t.P(1, 2) {
			s, err := linear_models.NewLinearSVCFromParams(&linear_models.LinearSVCParams{SolverType: linear_models.L2R_L1LOSS_SVC_DUAL, ClassWeights: []float64{1, 3, 5}, C: 2, Eps: 1e-3, Dual: true})
			if err != nil {
				panic("harness: " + err.Error())
			}
			return newLearner(s, nil)
		}
		s, err := linear_models.NewLinearSVC("l2", "l1", false, 3, 1e-2)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return newLearner(s, nil)
	}
}

func (m *modelCase) multi(t *T) {
	m.crand = true
	m.o.kinds = []int{kFloat}
	l, p, d, c := svcConf(t)
	m.conf = fmt.Sprintf("loss %s penalty %s dual %v C %v", l, p, d, c)
	if m.kind == "ova" {
		m.nw = func() *learner {
			o := meta.NewOneVsAllModel(func(string) base.Classifier {
				s, err := linear_models.NewLinearSVC(l, p, d, c, 1e-4)
				if err != nil {
					panic("harness: " + err.Error())
				}
				return s
			})
			return newLearner(o, nil)
		}
		return
	}
	var w map[string]float64
	if t.P(1, 3) {
		w = map[string]float64{}
		for i, v := range plainVals[:4] {
			w[v] = 0.1 + 0.7*float64(i)
		}
		m.conf += " weighted"
	}
	m.nw = func() *learner {
		return newLearner(ensemble.NewMultiLinearSVC(l, p, d, c, 1e-4, w), nil)
	}
	m.alt = func() *learner {
		return newLearner(ensemble.NewMultiLinearSVC("l2", "l1", false, 3, 1e-2, map[string]float64{"aa": 7, "other": 5}), nil)
	}
}

func (m *modelCase) bagged(t *T) {
	m.ens = true
	m.o.minRows = 4
	n := 1 + t.D(4)
	if t.P(1, 30) {
		n = 8 + t.D(30)
	}
	mk := make([]func() base.Classifier, n)
	kind := t.D(4)
	feat := 0
	var names []string
	if t.P(2, 3) {
		feat = 1 + t.D(2)
	}
	for i := range mk {
		switch kind {
		case 0:
			names = append(names, "id3")
			mk[i] = func() base.Classifier { return trees.NewID3DecisionTree(0) }
		case 1:
			m.o.kinds = []int{kFloat}
			k := 1 + t.D(3)
			alg := []string{"linear", "kdtree"}[t.D(2)]
			names = append(names, "knn-"+alg)
			mk[i] = func() base.Classifier { return knn.NewKnnClassifier("euclidean", alg, k) }
		case 2:
			m.o.kinds = []int{kBin}
			names = append(names, "nb")
			mk[i] = func() base.Classifier { return naive.NewBernoulliNBClassifier() }
		case 3:
			names = append(names, "randomtree")
			mk[i] = func() base.Classifier { return trees.NewRandomTree(1) }
		}
	}
	if kind == 0 || kind == 3 {
		if feat > 0 {
			feat = 2
		}
	}
	m.conf = fmt.Sprintf("%s, %d random features", strings.Join(names, "+"), feat)
	m.nw = func() *learner {
		b := new(meta.BaggedModel)
		b.RandomFeatures = feat
		for _, f := range mk {
			b.AddModel(f())
		}
		return newLearner(b, nil)
	}
	m.alt = func() *learner {
		b := new(meta.BaggedModel)
		b.RandomFeatures = feat + 3
		for _, f := range mk {
			b.AddModel(f())
		}
		return newLearner(b, nil)
	}
}

// trainData draws the training table of a case and fixes what the model kind
// needs beyond the generator's options.
func (t *T) trainData(m *modelCase) *table {
	tb := t.genTable(m.o)
	c := tb.classCol()
	if m.kind == "knn" && len(m.o.kinds) > 1 {
		// something to measure distances by
		n := 0
		for _, c := range tb.cols {
			if c.kind == kFloat && !c.class {
				n++
			}
		}
		if n == 0 {
			m.o.kinds = []int{kFloat}
			return t.trainData(m)
		}
	}
	if m.o.classKind == kFloat && len(tb.rows) > 0 {
		switch m.kind {
		case "knn":
			for r := range tb.rows {
				tb.rows[r][c] = fcell(float64(t.D(4)))
			}
		case "svc":
			for r := range tb.rows {
				tb.rows[r][c] = fcell(float64((int(row0(tb.rows[r][0], tb.cols[0])) + t.D(4)/3) & 1))
			}
			if t.D(4) > 0 {
				tb.rows[0][c], tb.rows[len(tb.rows)-1][c] = fcell(0), fcell(1)
			}
		case "cartc", "logistic":
			k := 2 + t.D(2)
			for r := range tb.rows {
				tb.rows[r][c] = fcell(float64(t.D(k)))
			}
		}
	}
	return tb
}

func (tb *table) classCol() int {
	for i, c := range tb.cols {
		if c.class {
			return i
		}
	}
	return -1
}

// moreRows draws further rows with the columns of tb, some of them copies.
func (t *T) moreRows(tb *table, o gopt, n int) *table {
	r := &table{cols: tb.cols}
	for i := 0; i < n; i++ {
		if len(tb.rows) > 0 && t.P(1, 2) {
			r.rows = append(r.rows, append([]string{}, tb.rows[t.D(len(tb.rows))]...))
			continue
		}
		row := make([]string, len(tb.cols))
		for j, c := range tb.cols {
			switch c.kind {
			case kFloat:
				if c.class && len(tb.rows) > 0 {
					row[j] = tb.rows[t.D(len(tb.rows))][j]
				} else {
					row[j] = fcell(t.genFloat(o.floats))
				}
			case kCat:
				k := t.D(len(c.vals))
				row[j] = ccell(k, c.vals[k])
			default:
				row[j] = bcell(t.P(1, 2))
			}
		}
		r.rows = append(r.rows, row)
	}
	return r.clone()
}

// fitted draws a case, trains it and returns everything around it. Training
// and prediction run without faults; a library panic or error here is a
// violation of the property under test only where it says so, so the caller
// passes what to do with one.
type fitted struct {
	m     *modelCase
	train *table
	tg    *vgrid
	l     *learner
}

func (t *T) fitCase(kinds ...string) *fitted {
	m := t.genModel(kinds...)
	tb := t.trainData(m)
	f := &fitted{m: m, train: tb}
	t.Descf("model %s (%s)", m.kind, m.conf)
	tb.describe(t, "training data")
	f.tg = t.root(tb, true)
	f.l = m.nw()
	return f
}
