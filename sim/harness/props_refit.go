package main

import (
	"math/rand"
	"runtime"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/filters"
)

func init() {
	register(&Property{ID: "P04", Run: runP04,
		Rule: "a learner is taken through a drawn history of trainings on other data, trainings interrupted by a failing dataset, and predictions, and is then trained on the final data; it must answer like a new learner of the same configuration trained on that data only, with the random source seeded alike",
		Real: "every learner and predictor", Stub: "a caller-supplied dataset injects read failures during earlier trainings"})
}

func runP04(t *T) {
	switch t.D(6) {
	case 0:
		t.retrainFilter()
		return
	case 1:
		t.refitMixture()
		return
	}
	m := t.genModel(allKinds...)
	t.Descf("model %s (%s)", m.kind, m.conf)
	final := t.trainData(m)
	final.describe(t, "final training data")
	more := t.moreRows(final, m.o, t.few(6))
	more.describe(t, "test data")
	seed := int64(1 + t.D(1<<20))
	p := t.root(more, false).g
	g := t.root(final, false).g
	last := func(l *learner) (ans []string, err error, pi *PanicInfo) {
		rand.Seed(seed)
		t.cplan(-1, -1)
		runtime.VerifFIFO(true)
		defer runtime.VerifFIFO(false)
		pi = t.Try(func() {
			if err = l.fit(g); err == nil {
				ans, err = l.predict(p)
			}
		})
		return
	}
	a0, e0, p0 := last(m.nw())
	t.Logf("fresh: %q %v %v", a0, e0, p0)
	if p0 != nil {
		t.Probe("fresh-panics:" + m.kind)
		return
	}
	t.Nontrivial()
	l := m.nw()
	t.cplan(-1, -1)
	if m.saves && m.alt != nil && t.P(1, 6) {
		// the settings come from the file
		l = m.alt()
		t.Descf("an object with other settings")
		tb := t.trainData(m)
		tb.describe(t, "earlier data")
		if !t.earlierLoad(m, l, t.root(tb, false).g, false) {
			return
		}
	}
	for i, n := 0, 1+t.D(3); i < n; i++ {
		var tb *table
		switch t.D(3) {
		case 0:
			tb = t.moreRows(final, m.o, 1+t.D(12))
		case 1:
			tb = t.trainData(m)
		case 2:
			tb = final
		}
		tb.describe(t, "earlier data")
		var x base.FixedDataGrid = t.root(tb, false).g
		if m.saves && t.P(1, 5) {
			if !t.earlierLoad(m, l, x, true) {
				return
			}
			continue
		}
		if t.FP(1, 3) {
			sg := t.newSimGrid(x)
			sg.failAt = t.F(3)
			sg.failAf = t.F(len(tb.rows) + 1)
			t.Descf("the dataset fails in pass %d after %d rows", sg.failAt, sg.failAf)
			x = sg
		}
		var err error
		if pi := t.Try(func() { err = l.fit(x) }); pi != nil {
			// a model whose training panicked is not in a defined state
			t.Probe("earlier-panics:" + m.kind)
			return
		}
		if err == nil && t.P(1, 2) {
			t.Try(func() { l.predict(x) })
		}
	}
	a, e, pi := last(l)
	if pi != nil {
		t.Fail("panics:"+m.kind+"@"+pi.Where, "training a used %s again panicked: %v", m.kind, pi)
	}
	if (e == nil) != (e0 == nil) {
		t.Fail("differs:"+m.kind, "training again ended with %v, a new %s with %v", e, m.kind, e0)
	}
	if !sameStrs(a, a0) {
		t.Fail("differs:"+m.kind, "a %s trained again answers %q, a new one %q", m.kind, a, a0)
	}
	if t.P(1, 4) {
		// whatever was done to that object is nobody else's business
		a, _, _ := last(m.nw())
		if !sameStrs(a, a0) {
			t.Fail("spills:"+m.kind, "a new %s answers %q, one made before another was used answered %q", m.kind, a, a0)
		}
	}
}

// earlierLoad loads a model of the same configuration, trained on x, into l,
// possibly from a damaged or failing file. It reports false if that panicked.
func (t *T) earlierLoad(m *modelCase, l *learner, x base.FixedDataGrid, fail bool) bool {
	d := t.NewDisk()
	p := d.Path("model")
	src := m.nw()
	var err error
	if pi := t.Try(func() {
		if err = src.fit(x); err == nil {
			d.With(func() { err = src.save(p) })
		}
	}); pi != nil || err != nil {
		t.Probe("no-file:" + m.kind)
		return fail
	}
	if fail && t.FP(1, 3) {
		d.Mark()
		probe := m.nw()
		if t.Try(func() { d.With(func() { err = probe.load(p) }) }) != nil || err != nil {
			t.Probe("no-file:" + m.kind)
			return true
		}
		ops := d.Ops()
		d.Mark()
		at, fk := d.ArmOne(ops, "open", "read", "seek", "write")
		t.Descf("loading a %s, %s at operation %d of %d", m.kind, fk, at, len(ops))
	} else {
		d.Mark()
		d.short = t.P(1, 2)
		t.Descf("loading a %s", m.kind)
	}
	if pi := t.Try(func() { d.With(func() { err = l.load(p) }) }); pi != nil {
		t.Probe("earlier-panics:" + m.kind)
		return false
	}
	if err != nil {
		t.Probe("load-failed")
	} else {
		t.Probe("loaded")
	}
	return true
}

// retrainFilter trains one filter after each of several additions, some of the
// trainings interrupted, and compares it with one trained once.
func (t *T) retrainFilter() {
	o := gopt{minCols: 1, maxCols: 4, minRows: 2, maxRows: 12, floats: t.D(2), prec: -1, classKind: kCat, minCls: 2, maxCls: 4,
		degenerate: t.P(1, 4), unusedVals: t.P(1, 4), classFirst: t.P(1, 3)}
	which := t.D(4)
	name := []string{"BinaryConvertFilter", "FloatConvertFilter", "BinningFilter", "ChiMergeFilter"}[which]
	disc := which >= 2
	if disc {
		o.learn = true
	}
	t.enlarge(&o, "fewrows", "fewcols", "fewvals", "classes", "long")
	tb := t.trainData(&modelCase{o: o})
	tb.describe(t, "data")
	bins, sig := 1+t.D(5), []float64{0.5, 0.9, 0.95, 0.99}[t.D(4)]
	t.Descf("%s, %d bins, significance %v", name, bins, sig)
	nw := func(g base.FixedDataGrid) (base.Filter, func(base.Attribute) error) {
		switch which {
		case 0:
			f := filters.NewBinaryConvertFilter()
			return f, f.AddAttribute
		case 1:
			f := filters.NewFloatConvertFilter()
			return f, f.AddAttribute
		case 2:
			f := filters.NewBinningFilter(g, bins)
			return f, f.AddAttribute
		}
		f := filters.NewChiMergeFilter(g, sig)
		return f, f.AddAttribute
	}
	g := t.root(tb, false).g
	var attrs []base.Attribute
	for _, a := range g.AllAttributes() {
		if _, ok := a.(*base.FloatAttribute); ok || !disc {
			attrs = append(attrs, a)
		}
	}
	if len(attrs) == 0 {
		return
	}
	var once []string
	if pi := t.Try(func() {
		f, add := nw(g)
		for _, a := range attrs {
			if err := add(a); err != nil {
				panic(err)
			}
		}
		if err := f.Train(); err != nil {
			panic(err)
		}
		once = readAll(base.NewLazilyFilteredInstances(g, f))
	}); pi != nil {
		t.Probe("fresh-panics:" + name)
		return
	}
	t.Nontrivial()
	sg := t.newSimGrid(g)
	f, add := nw(sg)
	for i, a := range attrs {
		var err error
		if pi := t.Try(func() { err = add(a) }); pi != nil || err != nil {
			t.Fail("panics:"+name, "adding attribute %d to a %s that has been trained: %v%v", i, name, err, pi)
		}
		for n := t.D(3); n > 0; n-- {
			sg.failAt = -1
			if t.FP(1, 3) {
				sg.failAt, sg.failAf = sg.passes+t.F(2), t.F(len(tb.rows)+1)
				t.Descf("a training after attribute %d fails", i)
			} else {
				t.Descf("a training after attribute %d", i)
			}
			if pi := t.Try(func() { f.Train() }); pi != nil {
				t.Probe("earlier-panics:" + name)
				if sg.failAt < 0 {
					t.Fail("panics:"+name, "training the %s panicked: %v", name, pi)
				}
			}
		}
	}
	sg.failAt = -1
	var got []string
	if pi := t.Try(func() {
		if err := f.Train(); err != nil {
			panic(err)
		}
		got = readAll(base.NewLazilyFilteredInstances(g, f))
	}); pi != nil {
		t.Fail("panics:"+name, "training the %s again panicked: %v", name, pi)
	}
	if !sameStrs(got, once) {
		t.Fail("differs:"+name, "a %s trained again yields %q, one trained once %q", name, got, once)
	}
}

// refitMixture fits one mixture model again and again.
func (t *T) refitMixture() {
	o := gopt{kinds: []int{kFloat}, minCols: 1, maxCols: 3, minRows: 4, maxRows: 14, floats: t.D(2), prec: -1, classKind: -1}
	t.enlarge(&o, "fewrows")
	final := t.trainData(&modelCase{o: o})
	final.describe(t, "final data")
	k, seed := 1+t.D(3), int64(1+t.D(1<<20))
	t.Descf("%d components", k)
	g := t.root(final, false).g
	last := func(em *clustering.ExpectationMaximization) (out []string, err error, pi *PanicInfo) {
		rand.Seed(seed)
		pi = t.Try(func() {
			if err = em.Fit(g); err != nil {
				return
			}
			var m clustering.ClusterMap
			if m, err = em.Predict(g); err == nil {
				_, n := g.Size()
				out, err = showClusters(m, n, true)
			}
		})
		return
	}
	nw := func() *clustering.ExpectationMaximization {
		em, err := clustering.NewExpectationMaximization(k)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return em
	}
	a0, e0, p0 := last(nw())
	if p0 != nil {
		t.Probe("fresh-panics:mixture")
		return
	}
	t.Nontrivial()
	em := nw()
	for i, n := 0, 1+t.D(3); i < n; i++ {
		o.minCols, o.maxCols = 1, 4
		tb := t.trainData(&modelCase{o: o})
		if t.P(1, 2) {
			tb = final
		}
		tb.describe(t, "earlier data")
		sg := t.newSimGrid(t.root(tb, false).g)
		if t.FP(1, 3) {
			sg.failAt, sg.failAf = 0, t.F(len(tb.rows)+1)
		}
		var err error
		if pi := t.Try(func() { err = em.Fit(sg) }); pi != nil {
			t.Probe("earlier-panics:mixture")
			return
		}
		if err == nil && t.P(1, 2) {
			t.Try(func() { em.Predict(sg) })
		}
	}
	a, e, pi := last(em)
	if pi != nil {
		t.Fail("panics:mixture@"+pi.Where, "fitting a used mixture again panicked: %v", pi)
	}
	if (e == nil) != (e0 == nil) || !sameStrs(a, a0) {
		t.Fail("differs:mixture", "a mixture fitted again answers %q (%v), a new one %q (%v)", a, e, a0, e0)
	}
}
