package main

import (
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{ID: "P01", Run: runP01,
		Rule: "a trained model is asked about the same rows as a whole, one by one, in subsets, repeated and reordered, through views, through a dataset that delivers rows in a drawn order from reused memory, and again after other predictions; the answer of a row must stay the same, and neither the model nor any dataset may change",
		Real: "every learner and predictor, views", Stub: "a caller-supplied dataset delivers the rows"})
	register(&Property{ID: "P02", Run: runP02,
		Rule: "training, prediction, evaluation, filter training, sorting, clustering, conversion and export read a caller-supplied dataset that fails at a drawn pass and row; whenever the failure was delivered the operation must report an error and not panic",
		Real: "every operation of the library that iterates a dataset and can report errors", Stub: "a caller-supplied dataset injects the failure"})
	register(&Property{ID: "P07", Run: runP07,
		Rule: "the rows of a prediction are asked about again with the columns in another order, in a new dataset or through a view, under drawn hash-table orders",
		Real: "training and prediction of all models, base.InstancesView", Stub: "none"})
}

// ---------------------------------------------------------------- P01

func runP01(t *T) {
	f := t.trained(allKinds...)
	if f == nil {
		return
	}
	k := f.m.kind
	train := t.snap("training data", f.tg.g)
	tb := t.moreRows(f.train, f.m.o, t.few(8))
	tb.describe(t, "test data")
	g := t.root(tb, false) // models may depend on the order of columns
	tb = g.expect()
	ref, err, pi := t.answer(f.l, g.g)
	if pi != nil {
		t.Fail("prediction-panics:"+k+"@"+pi.Where, "predicting panicked: %v", pi)
	}
	if err != nil {
		t.Probe("unpredictable:" + k)
		if t.verbose {
			t.Logf("unpredictable: %v", err)
		}
		return
	}
	if len(ref) != len(tb.rows) {
		t.Fail("prediction-rows:"+k, "%d rows, %d predictions", len(tb.rows), len(ref))
	}
	t.Nontrivial()
	t.Logf("answers %q", ref)
	if t.P(1, 4) {
		ref = t.rowwise(f, tb)
		if ref == nil {
			return
		}
	}
	check := func(what string, g base.FixedDataGrid, rows []int) {
		a, err, pi := t.answer(f.l, g)
		if pi != nil {
			t.Fail("prediction-panics:"+k+"@"+pi.Where, "predicting %s panicked: %v", what, pi)
		}
		if err != nil {
			t.Fail("prediction-error:"+k, "predicting %s failed: %v", what, err)
		}
		if len(a) != len(rows) {
			t.Fail("prediction-rows:"+k, "%s: %d rows, %d predictions", what, len(rows), len(a))
		}
		for i, r := range rows {
			if a[i] != ref[r] {
				t.Fail("row-differs:"+k, "%s: row %s is predicted %q instead of %q", what, showRow(tb.rows[r]), a[i], ref[r])
			}
		}
	}
	all := make([]int, len(tb.rows))
	for i := range all {
		all[i] = i
	}
	for i, n := 0, 1+t.D(4); i < n; i++ {
		switch t.D(7) {
		case 0:
			check("again", g.g, all)
		case 1:
			r := t.D(len(all))
			t.Descf("row %d alone", r)
			check("alone", t.root(tb.pickRows([]int{r}), false).g, []int{r})
		case 2:
			p := t.perm(len(all))
			p = p[:1+t.D(len(p))]
			if t.P(1, 3) {
				p = append(p, p[0])
			}
			t.Descf("rows %v as a new dataset", p)
			check("as part of another batch", t.root(tb.pickRows(p), false).g, p)
		case 3:
			p := t.perm(len(all))
			p = p[:1+t.D(len(p))]
			t.Descf("rows %v as a view", p)
			var v base.FixedDataGrid
			t.Must("NewInstancesViewFromVisible", func() { v = base.NewInstancesViewFromVisible(g.g, p, g.g.AllAttributes()) })
			check("in a view", v, p)
		case 4:
			sg := t.newSimGrid(g.g)
			sg.order = t.perm(len(all))
			sg.reuse = t.P(1, 2)
			t.Descf("rows delivered in order %v, memory reused: %v", sg.order, sg.reuse)
			check("delivered in another order", sg, all)
		case 5:
			// something else in between
			o := t.root(t.moreRows(f.train, f.m.o, 1+t.D(4)), true)
			t.answer(f.l, o.g)
			t.Descf("another prediction in between")
			check("after another prediction", g.g, all)
		case 6:
			// the training data itself
			t.answer(f.l, f.tg.g)
			t.Descf("the training data in between")
			check("after predicting the training data", g.g, all)
		}
	}
	if d := diff(tb, t.snap("test data", g.g), cmpOpt{}); d != "" {
		t.Fail("data-changed:"+k, "predicting changed the dataset: %s", d)
	}
	if d := diff(train, t.snap("training data", f.tg.g), cmpOpt{}); d != "" {
		t.Fail("data-changed:"+k, "predicting changed the training data: %s", d)
	}
}

// ---------------------------------------------------------------- P07

// reorder is the same table with its columns in another order.
func (tb *table) reorder(p []int) *table {
	ref := &table{}
	for _, i := range p {
		ref.cols = append(ref.cols, tb.cols[i])
	}
	ref = ref.clone()
	for _, row := range tb.rows {
		var r []string
		for _, i := range p {
			r = append(r, row[i])
		}
		ref.rows = append(ref.rows, r)
	}
	return ref
}

// nameKinds are the models that keep the columns they were trained on.
var nameKinds = []string{"bagged", "forest", "id3", "knn", "linreg", "nb", "neural", "randomtree", "treenode"}

func runP07(t *T) {
	var kinds []string
	for _, k := range allKinds {
		if k != "iforest" {
			// (documented to treat the class as one more column)
			kinds = append(kinds, k)
		}
	}
	f := t.trained(kinds...)
	if f == nil {
		return
	}
	k := f.m.kind
	named := false
	for _, n := range nameKinds {
		named = named || n == k
	}
	tb := t.moreRows(f.train, f.m.o, t.few(8))
	tb.describe(t, "test data")
	g := t.root(tb, false)
	tb = g.expect()
	ref, err, pi := t.answer(f.l, g.g)
	if pi != nil || err != nil || len(ref) != len(tb.rows) {
		t.Probe("unpredictable:" + k) // P01 reports it
		return
	}
	var sure []string
	if k == "knn" {
		// (which of equally near rows are found may depend on anything)
		sure = neighbourAnswers(f.train, tb, f.m.knnK, f.m.knnDist, f.m.knnW)
	}
	t.Nontrivial()
	for i, n := 0, 1+t.D(3); i < n; i++ {
		var v base.FixedDataGrid
		p := make([]int, len(tb.cols))
		for i := range p {
			p[i] = i
		}
		if named && t.P(2, 3) {
			p = t.perm(len(tb.cols))
		}
		o := tb.reorder(p)
		how := "columns"
		if c := o.classCol(); c >= 0 && t.P(1, 2) {
			// other values of the class
			how = "class"
			for r := range o.rows {
				switch {
				case o.cols[c].kind == kFloat:
					o.rows[r][c] = fcell(float64(t.D(5) - 1))
				case t.P(3, 4):
					o.rows[r][c] = tb.rows[t.D(len(tb.rows))][p[c]]
				default:
					o.rows[r][c] = f.train.rows[t.D(len(f.train.rows))][f.train.col(o.cols[c].name)]
				}
			}
		}
		switch {
		case how == "columns" && t.P(1, 2):
			var as []base.Attribute
			for _, i := range p {
				as = append(as, base.GetAttributeByName(g.g, tb.cols[i].name))
			}
			t.Descf("a view with the columns in order %v", p)
			t.Must("NewInstancesViewFromAttrs", func() { v = base.NewInstancesViewFromAttrs(g.g, as) })
		default:
			o.describe(t, "asked about again")
			v = t.root(o, named && t.P(1, 2)).g
		}
		t.Probe(how + ":" + k)
		a, err, pi := t.answer(f.l, v)
		if pi != nil {
			t.Fail("panic:"+how+":"+k+"@"+pi.Where, "predicting with other %s panicked: %v", how, pi)
		}
		if err != nil {
			t.Fail("error:"+how+":"+k, "predicting with other %s failed: %v", how, err)
		}
		if len(a) != len(ref) {
			t.Fail("rows:"+k, "%d rows, %d predictions", len(ref), len(a))
		}
		for r := range ref {
			if a[r] != ref[r] && (sure == nil || sure[r] != "") {
				t.Fail(how+":"+k, "row %s is predicted %q with the columns in order %v and class values %v, %q otherwise", showRow(tb.rows[r]), a[r], p, showRow(o.rows[r]), ref[r])
			}
		}
	}
}

// rowwise asks about every row alone; this is then the reference.
func (t *T) rowwise(f *fitted, tb *table) []string {
	var ref []string
	for r := range tb.rows {
		a, err, pi := t.answer(f.l, t.root(tb.pickRows([]int{r}), false).g)
		if pi != nil {
			t.Fail("prediction-panics:"+f.m.kind+"@"+pi.Where, "predicting one row panicked: %v", pi)
		}
		if err != nil {
			t.Fail("prediction-error:"+f.m.kind, "predicting one row failed: %v", err)
		}
		if len(a) != 1 {
			t.Fail("prediction-rows:"+f.m.kind, "one row, %d predictions", len(a))
		}
		ref = append(ref, a[0])
	}
	return ref
}

// ---------------------------------------------------------------- P02

func runP02(t *T) {
	name := ""
	var g base.FixedDataGrid
	var op func(g base.FixedDataGrid) error
	models := func() *fitted {
		for {
			f := t.fitCase(allKinds...)
			if f.m.errs {
				return f
			}
		}
	}
	plain := func(o gopt) *vgrid { return t.genView(o, t.D(2), viewOpt{keepClass: true}) }
	switch t.D(10) {
	case 0, 1: // training
		f := models()
		name = "Fit " + f.m.kind
		g = f.tg.g
		op = func(g base.FixedDataGrid) error { return f.m.nw().fit(g) }
	case 2, 3: // prediction
		f := models()
		if f.m.kind == "cartc" || f.m.kind == "cartr" { // can't report errors
			return
		}
		var err error
		if pi := t.Try(func() { err = f.l.fit(f.tg.g) }); pi != nil || err != nil {
			t.Probe("untrainable")
			return
		}
		name = "Predict " + f.m.kind
		g = t.root(t.moreRows(f.train, f.m.o, t.few(6)), true).g
		op = func(g base.FixedDataGrid) error { _, e := f.l.predict(g); return e }
		if t.P(1, 4) {
			// some models read their training data when they predict
			name = "Fit and Predict " + f.m.kind
			p := g
			g = f.tg.g
			op = func(g base.FixedDataGrid) error {
				l := f.m.nw()
				e := l.fit(g)
				if e == nil {
					_, e = l.predict(p)
				}
				return e
			}
		} else if id3, ok := f.l.raw.(*trees.ID3DecisionTree); ok && t.P(1, 3) {
			name = "PredictProba"
			g = t.root(t.moreRows(f.train, f.m.o, 1), true).g
			op = func(g base.FixedDataGrid) error { _, e := id3.PredictProba(g); return e }
		}
	case 4: // exports
		v := plain(t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, floats: t.D(2), prec: -1}))
		ex := exporters()[t.D(3)]
		name = "export " + ex.name
		g = v.g
		op = func(g base.FixedDataGrid) error { return ex.str(g, t.NewWriter()) }
	case 5: // filters
		v := plain(gopt{minCols: 1, maxCols: 3, minRows: 2, maxRows: 10, floats: 1, prec: -1, kinds: []int{kFloat}, classKind: kCat, minCls: 2, maxCls: 3})
		g = v.g
		which := t.D(3)
		name = []string{"Train BinningFilter", "Train ChiMergeFilter", "read a filtered dataset"}[which]
		op = func(g base.FixedDataGrid) error {
			fa := base.NonClassFloatAttributes(g)
			if len(fa) == 0 {
				return errShape
			}
			switch which {
			case 1:
				f := filters.NewChiMergeFilter(g, 0.9)
				for _, a := range fa {
					if e := f.AddAttribute(a); e != nil {
						return e
					}
				}
				return f.Train()
			}
			f := filters.NewBinningFilter(g, 3)
			for _, a := range fa {
				if e := f.AddAttribute(a); e != nil {
					return e
				}
			}
			e := f.Train()
			if which == 0 || e != nil {
				return e
			}
			l := base.NewLazilyFilteredInstances(g, f)
			return l.MapOverRows(base.ResolveAllAttributes(l), func([][]byte, int) (bool, error) { return true, nil })
		}
	case 6: // sorting
		v := plain(t.anyTable(gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 8, floats: t.D(2), prec: -1}))
		g = v.g
		lazy := t.P(1, 2)
		dir := []base.SortDirection{base.Ascending, base.Descending}[t.D(2)]
		name = "Sort"
		if lazy {
			name = "LazySort"
		}
		op = func(g base.FixedDataGrid) (e error) {
			specs := base.ResolveAllAttributes(g)
			if lazy {
				_, e = base.LazySort(g, dir, specs)
			} else {
				_, e = base.Sort(g, dir, specs)
			}
			return
		}
	case 7: // clustering
		v := plain(gopt{minCols: 1, maxCols: 3, minRows: 2, maxRows: 10, floats: t.D(2), prec: -1, kinds: []int{kFloat}, classKind: -1})
		g = v.g
		switch t.D(3) {
		case 0:
			name = "Fit mixture"
			op = func(g base.FixedDataGrid) error {
				em, e := clustering.NewExpectationMaximization(1)
				if e != nil {
					return e
				}
				return em.Fit(g)
			}
		case 1:
			name = "Predict mixture"
			em, e := clustering.NewExpectationMaximization(1)
			if e == nil {
				e = em.Fit(v.g)
			}
			if e != nil {
				return
			}
			op = func(g base.FixedDataGrid) error { _, e := em.Predict(g); return e }
		case 2:
			name = "DBSCAN"
			eps := []float64{0.5, 2, 10}[t.D(3)]
			op = func(g base.FixedDataGrid) error {
				_, e := clustering.DBSCAN(g, clustering.DBSCANParameters{
					ClusterParameters: clustering.ClusterParameters{Attributes: g.AllAttributes(), Metric: pairwise.NewEuclidean()},
					Eps:               eps, MinCount: 2})
				return e
			}
		}
	case 8: // cross-validation
		f := t.fitCase("knn", "nb", "id3", "randomtree", "treenode", "bagged", "forest", "multisvc", "ova")
		cls, ok := f.l.raw.(base.Classifier)
		if !ok {
			return
		}
		name = "cross-validate " + f.m.kind
		g = f.tg.g
		op = func(g base.FixedDataGrid) error {
			_, e := evaluation.GenerateCrossFoldValidationConfusionMatrices(g, cls, 2)
			return e
		}
	case 9: // conversion
		v := plain(gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 8, floats: t.D(2), prec: -1, kinds: []int{kFloat}, classKind: -1})
		g = v.g
		name = "ConvertAllRowsToMat64"
		op = func(g base.FixedDataGrid) error {
			_, e := base.ConvertAllRowsToMat64(base.NonClassFloatAttributes(g), g)
			return e
		}
	}
	if t.P(1, 4) {
		name += " through a view"
		direct := op
		op = func(g base.FixedDataGrid) error {
			return direct(base.NewInstancesViewFromAttrs(g, g.AllAttributes()))
		}
	}
	t.Descf("operation %s", name)
	_, rows := g.Size()
	sg := t.newSimGrid(g)
	t.cplan(-1, -1)
	var err error
	if pi := t.Try(func() { err = op(sg) }); pi != nil || err != nil {
		t.Probe("impossible:" + name)
		if t.verbose {
			t.Logf("impossible: %v %v", err, pi)
		}
		return
	}
	t.Nontrivial()
	passes := sg.passes
	if passes == 0 {
		t.Probe("reads by position:" + name)
		return
	}
	for i, n := 0, 1+t.F(3); i < n; i++ {
		sg := t.newSimGrid(g)
		sg.failAt = t.F(passes)
		sg.failAf = t.F(rows + 1)
		sg.reuse = t.FP(1, 2)
		if t.FP(1, 4) {
			sg.failAf = rows
		}
		t.cplan(-1, -1)
		pi := t.Try(func() { err = op(sg) })
		if !sg.fired {
			continue
		}
		if pi != nil {
			t.Fail("panics:"+name+"@"+pi.Where, "%s: the dataset failed in pass %d after %d of %d rows and the library panicked: %v", name, sg.failAt, sg.failAf, rows, pi)
		}
		if err == nil {
			t.Fail("error-hidden:"+name, "%s: the dataset failed in pass %d of %d after %d of %d rows and the operation reported success", name, sg.failAt, passes, sg.failAf, rows)
		}
	}
}
