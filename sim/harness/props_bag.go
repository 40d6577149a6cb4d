package main

import (
	"fmt"
	"runtime"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{ID: "B01", Run: runB01,
		Rule: "bagged ensembles of scripted members with drawn votes (few distinct values, so ties and near ties abound) predict under drawn processor counts, schedules, pre-emptions and map orders, repeatedly and from several tasks at once; every answer must be among the most frequent votes and the same every time, and every member is asked once per prediction; random forests are checked against the votes of their own trees",
		Real: "BaggedModel, RandomForest, trees, views", Stub: "scripted ensemble members"})
	register(&Property{ID: "B02", Run: runB02,
		Rule: "recording members note what they are trained on and shown: row count, every row a projection of a source row, the exact number of distinct features plus every class column, and the same columns and all rows in order when predicting; under drawn schedules, processor counts, refits and damaged random sequences",
		Real: "BaggedModel, sampling, views", Stub: "recording ensemble members; the random source is seeded and partly replaced"})
	register(&Property{ID: "B03", Run: runB03,
		Rule: "bagged ensembles of 0 to 12 scripted members of drawn slowness and real random forests train and predict with 1 to 8 processors under drawn schedules; an operation that exceeds its step budget, blocks for ever, leaves a task behind or returns before every member has finished is a violation",
		Real: "BaggedModel, RandomForest, trees, sampling", Stub: "members that take a drawn number of scheduling points"})
	register(&Property{ID: "B04", Run: runB04,
		Rule: "drawn members of bagged ensembles, forests, one-versus-all models and multi-class SVMs fail to train or predict on a drawn call, by themselves or because their data cannot be read; the ensemble must report an error, must not panic, deadlock or leave tasks behind, and must work again once the cause is gone",
		Real: "BaggedModel, RandomForest, OneVsAllModel, MultiLinearSVC and their members", Stub: "scripted failing members, a caller-supplied failing dataset"})
	register(&Property{ID: "B06", Run: runB06,
		Rule: "a one-versus-all model is trained with recording members and drawn confidences: one member per class value, each shown every row once with the features unchanged and the class turned into 1 for its own value and 0 for others; the answer is a class of the highest confidence; under drawn map orders and row delivery orders",
		Real: "OneVsAllModel, its filter, views", Stub: "recording members with drawn confidences; a caller-supplied dataset"})
}

// member is a scripted ensemble member.
type member struct {
	base.BaseClassifier
	t       *T
	id      int
	slow    int
	votes   map[int][]string // by number of rows
	classed bool             // answers have several class columns to choose from
	failFit map[int]bool
	failPrd map[int]bool
	inFit   int
	inPred  int
	done    int // completed trainings
	fits    []*table
	preds   []*table
	early   bool // was asked to predict before its training ended
	late    bool
	record  bool
	iter    bool // reads by iteration
	nfit    int
	npred   int
}

func (m *member) work() {
	for i := 0; i < m.slow; i++ {
		runtime.VerifPoint()
	}
}

func (m *member) Fit(g base.FixedDataGrid) error {
	k := m.nfit
	m.nfit++
	m.inFit++
	defer func() { m.inFit-- }()
	if m.record {
		m.fits = append(m.fits, memberSnap(g, m.iter))
	}
	m.work()
	if m.failFit[k] {
		m.t.Fault("member-fit-error")
		return errScript
	}
	m.work()
	m.done++
	return nil
}

func (m *member) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	k := m.npred
	m.npred++
	m.inPred++
	defer func() { m.inPred-- }()
	if m.inFit != 0 || m.done == 0 {
		m.early = true
	}
	if m.record {
		m.preds = append(m.preds, memberSnap(g, m.iter))
	}
	m.work()
	if m.failPrd[k] {
		m.t.Fault("member-predict-error")
		return nil, errScript
	}
	ret := base.GeneratePredictionVector(g)
	_, n := ret.Size()
	v := m.votes[n]
	for i := 0; i < n; i++ {
		base.SetClass(ret, i, v[i])
		if m.slow > 3 && i == n/2 {
			runtime.VerifPoint()
		}
	}
	m.work()
	return ret, nil
}
func (m *member) String() string                                            { return fmt.Sprintf("member %d", m.id) }
func (m *member) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (m *member) Save(string) error                                         { return nil }
func (m *member) Load(string) error                                         { return nil }
func (m *member) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (m *member) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

// bagData draws a training table with one categorical class column.
func bagOpt(t *T) gopt {
	o := gopt{minCols: 1, maxCols: 5, minRows: 1, maxRows: 10, floats: t.D(2), classKind: kCat, minCls: 1, maxCls: 5, classFirst: true, prec: -1}
	if t.P(1, 4) {
		o.names = 1
	}
	t.enlarge(&o, "fewrows", "rows", "fewcols", "cols", "fewvals", "classes", "long")
	return o
}

// many is n, or sometimes a much larger number of members.
func (t *T) many(n int) int {
	if t.P(1, 30) {
		n = 12 + t.D(60)
		t.allow(10)
		if t.P(1, 8) {
			n = 128 + t.D(160)
		}
	}
	return n
}

// bag builds an ensemble of scripted members.
func (t *T) bag(tb *table, batches []*table, nm int) (*meta.BaggedModel, []*member) {
	b := new(meta.BaggedModel)
	vals := tb.cols[tb.classCol()].vals
	var ms []*member
	for i := 0; i < nm; i++ {
		m := &member{t: t, id: i, votes: map[int][]string{}}
		if t.P(1, 2) {
			m.slow = t.D(6)
		}
		m.iter = t.P(1, 2)
		ms = append(ms, m)
		b.AddModel(m)
	}
	for _, bt := range batches {
		n := len(bt.rows)
		for _, m := range ms {
			m.votes[n] = make([]string, n)
		}
		for r := 0; r < n; r++ {
			k := 1 + t.D(3)
			pal := make([]string, k)
			for j := range pal {
				pal[j] = vals[t.D(len(vals))]
			}
			for _, m := range ms {
				m.votes[n][r] = pal[t.D(k)]
			}
		}
	}
	feats := len(tb.cols) - len(tb.classNames())
	if t.P(2, 3) {
		b.RandomFeatures = t.D(feats + 1)
	}
	t.Descf("%d members, %d random features", nm, b.RandomFeatures)
	for _, m := range ms {
		if len(batches) > 0 {
			t.Descf("member %d: slow %d votes %q", m.id, m.slow, m.votes[len(batches[0].rows)])
		}
	}
	return b, ms
}

func (t *T) batches(tb *table, o gopt) ([]*table, []base.FixedDataGrid) {
	var bs []*table
	var gs []base.FixedDataGrid
	seen := map[int]bool{}
	for i, n := 0, 1+t.D(2); i < n; i++ {
		k := t.D(7)
		if t.P(1, 40) {
			k = 60 + t.D(240)
			t.allow(5)
		}
		bt := t.moreRows(tb, o, k)
		if seen[len(bt.rows)] {
			continue
		}
		seen[len(bt.rows)] = true
		v := t.root(bt, false)
		bs = append(bs, v.expect())
		gs = append(gs, v.g)
	}
	return bs, gs
}

// sharedBatches cuts a dataset into training data and batches that share its
// attributes, as filters need it.
func (t *T) sharedBatches(tb *table, o gopt) (*vgrid, []*table, []base.FixedDataGrid) {
	train := len(tb.rows)
	all := tb.clone()
	sizes := []int{t.D(6)}
	if k := t.D(6); k != sizes[0] {
		sizes = append(sizes, k)
	}
	for _, k := range sizes {
		all.rows = append(all.rows, t.moreRows(tb, o, k).rows...)
	}
	v := t.root(all, t.P(1, 3))
	ref := v.expect()
	cut := func(from, n int) (base.FixedDataGrid, *table) {
		var idx []int
		for i := 0; i < n; i++ {
			idx = append(idx, from+i)
		}
		return base.NewInstancesViewFromVisible(v.g, idx, v.g.AllAttributes()), ref.pickRows(idx)
	}
	g, r := cut(0, train)
	tg := &vgrid{g: g, ref: r, kind: "view"}
	tg.fixClass()
	var bs []*table
	var gs []base.FixedDataGrid
	at := train
	for _, k := range sizes {
		g, r := cut(at, k)
		bs, gs = append(bs, r), append(gs, g)
		at += k
	}
	return tg, bs, gs
}

// top lists the most frequent votes of a row.
func top(votes []string) map[string]bool {
	n := map[string]int{}
	best := 0
	for _, v := range votes {
		n[v]++
		if n[v] > best {
			best = n[v]
		}
	}
	r := map[string]bool{}
	for v, k := range n {
		if k == best {
			r[v] = true
		}
	}
	return r
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func runB01(t *T) {
	if t.P(1, 5) {
		t.realVotes()
		return
	}
	o := bagOpt(t)
	tb := t.genTable(o)
	tg := t.root(tb, false)
	tb = tg.expect()
	bs, gs := t.batches(tb, o)
	nm := t.many(t.D(10))
	b, ms := t.bag(tb, bs, nm)
	t.sched(true)
	if err := t.bagFit(b, tg.g); err != nil {
		t.Fail("fit-error", "training failed: %v", err)
	}
	t.Nontrivial()
	first := map[int][]string{}
	for round, n := 0, 1+t.D(3); round < n; round++ {
		cpus := t.sched(true)
		bi := t.D(len(gs))
		callers := 1
		if t.P(1, 3) {
			callers = 2 + t.D(2)
		}
		t.Descf("batch %d: %d callers, %d processors", bi, callers, cpus)
		before := make([]int, nm)
		for i, m := range ms {
			before[i] = m.npred
		}
		outs := make([][]string, callers)
		errs := make([]error, callers)
		var fs []func()
		for c := 0; c < callers; c++ {
			c := c
			fs = append(fs, func() {
				g, err := b.Predict(gs[bi])
				if errs[c] = err; err == nil {
					outs[c] = readPred(g)
				}
			})
		}
		if callers == 1 {
			t.Must("Predict", fs[0])
		} else {
			t.Tasks(fs...)
		}
		for c := range outs {
			if errs[c] != nil {
				t.Fail("predict-error", "prediction failed: %v", errs[c])
			}
			if nm == 0 {
				continue
			}
			if len(outs[c]) != len(bs[bi].rows) {
				t.Fail("rows", "%d answers for %d rows", len(outs[c]), len(bs[bi].rows))
			}
			for r, got := range outs[c] {
				var vs []string
				for _, m := range ms {
					vs = append(vs, m.votes[len(bs[bi].rows)][r])
				}
				if w := top(vs); !w[got] {
					t.Fail("not-the-majority", "row %d: votes %q, answer %q", r, vs, got)
				}
			}
			if p := first[bi]; p == nil {
				first[bi] = outs[c]
			} else if !sameStrs(p, outs[c]) {
				t.Fail("answer-depends-on-schedule", "the same members answered %q and %q for the same rows", p, outs[c])
			}
		}
		for i, m := range ms {
			if m.npred-before[i] != callers {
				t.Fail("asked-wrongly", "member %d was asked %d times in %d predictions", i, m.npred-before[i], callers)
			}
		}
	}
}

func (t *T) bagFit(b *meta.BaggedModel, g base.FixedDataGrid) (err error) {
	t.Must("Fit", func() { err = b.Fit(g) })
	return
}

// realVotes compares forests with the votes of their own trees.
func (t *T) realVotes() {
	t.sched(true)
	f := t.trained("forest", "bagged")
	if f == nil {
		return
	}
	var ms []base.Classifier
	switch m := f.l.raw.(type) {
	case *ensemble.RandomForest:
		ms = m.Model.Models
	case *meta.BaggedModel:
		ms = m.Models
	}
	for _, m := range ms {
		switch m.(type) {
		case *trees.ID3DecisionTree, *trees.RandomTree:
		default:
			return // other members need their own selection of columns
		}
	}
	if len(ms) == 0 {
		return
	}
	tb := t.moreRows(f.train, f.m.o, t.few(8))
	tb.describe(t, "test data")
	g := t.root(tb, false)
	n := len(tb.rows)
	votes := make([][]string, n)
	for i, m := range ms {
		var out base.FixedDataGrid
		var err error
		if pi := t.Try(func() { out, err = m.Predict(g.g) }); pi != nil || err != nil {
			t.Probe("member-cannot-predict")
			return
		}
		for r, v := range readPred(out) {
			votes[r] = append(votes[r], v)
		}
		_ = i
	}
	t.Nontrivial()
	var ref []string
	for round, k := 0, 1+t.D(3); round < k; round++ {
		t.sched(true)
		out, err, pi := t.answer(f.l, g.g)
		if pi != nil || err != nil {
			t.Fail("predict-error", "the members can predict, the ensemble can't: %v %v", pi, err)
		}
		if len(out) != n {
			t.Fail("rows", "%d answers for %d rows", len(out), n)
		}
		for r := range out {
			if !top(votes[r])[out[r]] {
				t.Fail("not-the-majority", "%s: row %s: trees say %q, answer %q", f.m.kind, showRow(tb.rows[r]), votes[r], out[r])
			}
		}
		if ref == nil {
			ref = out
		} else if !sameStrs(ref, out) {
			t.Fail("answer-depends-on-schedule", "the same trees answered %q and %q for the same rows", ref, out)
		}
	}
}

// ---------------------------------------------------------------- B02

func runB02(t *T) {
	o := bagOpt(t)
	if t.P(1, 6) {
		o.nClass = 2
	}
	if t.P(1, 6) {
		o.minRows = 0
	}
	tb := t.genTable(o)
	tg := t.root(tb, false)
	tb = tg.expect()
	oneClass := len(tb.classNames()) == 1
	var bs []*table
	var gs []base.FixedDataGrid
	if oneClass {
		bs, gs = t.batches(tb, o)
	}
	nm := t.many(t.D(9))
	if len(tb.classNames()) == 0 {
		return
	}
	b, ms := t.bag(tb, bs, nm)
	for _, m := range ms {
		m.record = true
	}
	t.badRand()
	fits := 1
	if t.P(1, 4) {
		fits = 2
	}
	for k := 0; k < fits; k++ {
		src := tg.g
		want := tb
		if k > 0 || t.P(1, 4) {
			n := t.D(10)
			if o.minRows > n {
				n = o.minRows
			}
			v := t.root(t.moreRows(tb, o, n), false)
			src, want = v.g, v.expect()
			if t.P(1, 2) && len(want.rows) > 0 {
				p := t.perm(len(want.rows))
				src = base.NewInstancesViewFromVisible(src, p, src.AllAttributes())
				want = want.pickRows(p)
			}
		}
		if t.P(1, 4) {
			sg := t.newSimGrid(src)
			sg.order = t.perm(len(want.rows))
			sg.reuse = t.P(1, 2)
			src = sg
		}
		want.describe(t, "training data")
		t.sched(true)
		if err := t.bagFit(b, src); err != nil {
			t.Fail("fit-error", "training failed: %v", err)
		}
		t.Nontrivial()
		for _, m := range ms {
			if len(m.fits) != k+1 || m.done != k+1 || m.inFit != 0 {
				t.Fail("trained-wrongly", "member %d was trained %d times (%d to the end) by %d trainings", m.id, len(m.fits), m.done, k+1)
			}
			t.sample(m, want, m.fits[k], b.RandomFeatures)
		}
		if !oneClass {
			continue
		}
		for i, n := 0, 1+t.D(2); i < n; i++ {
			bi := t.D(len(gs))
			g := gs[bi]
			if t.P(1, 3) {
				// the columns of the prediction data may be arranged differently
				g = t.shuffledColumns(g)
			}
			if t.P(1, 4) {
				sg := t.newSimGrid(g)
				sg.order = t.perm(len(bs[bi].rows))
				sg.reuse = t.P(1, 2)
				g = sg
			}
			before := make([]int, nm)
			for j, m := range ms {
				before[j] = len(m.preds)
			}
			callers := 1 + t.D(2)
			t.sched(true)
			errs := make([]error, callers)
			var fs []func()
			for c := range errs {
				c := c
				fs = append(fs, func() { _, errs[c] = b.Predict(g) })
			}
			if callers == 1 {
				t.Must("Predict", fs[0])
			} else {
				t.Tasks(fs...)
			}
			for _, err := range errs {
				if err != nil {
					t.Fail("predict-error", "prediction failed: %v", err)
				}
			}
			for j, m := range ms {
				if len(m.preds)-before[j] != callers {
					t.Fail("asked-wrongly", "member %d was asked %d times in %d predictions", j, len(m.preds)-before[j], callers)
				}
				for _, p := range m.preds[before[j]:] {
					f := m.fits[k]
					if a, b := colNames(f), colNames(p); !sameStrs(a, b) {
						t.Fail("prediction-columns", "member %d was trained with columns %q and is shown %q", m.id, a, b)
					}
					var idx []int
					for _, c := range p.cols {
						idx = append(idx, bs[bi].col(c.name))
					}
					w := bs[bi].pick(idx)
					if d := diff(w, p, cmpOpt{ordered: true}); d != "" {
						t.Fail("prediction-rows", "member %d is shown other data than the caller gave: %s", m.id, d)
					}
				}
			}
		}
	}
}

func (t *T) shuffledColumns(g base.FixedDataGrid) base.FixedDataGrid {
	as := g.AllAttributes()
	p := t.perm(len(as))
	r := make([]base.Attribute, len(as))
	for i, j := range p {
		r[i] = as[j]
	}
	return base.NewInstancesViewFromAttrs(g, r)
}

func colNames(tb *table) (r []string) {
	for _, c := range tb.cols {
		r = append(r, c.name)
	}
	return
}

// sample checks what a member was trained on.
func (t *T) sample(m *member, src, got *table, feats int) {
	if len(got.rows) != len(src.rows) {
		t.Fail("sample-size", "member %d was trained on %d rows of %d", m.id, len(got.rows), len(src.rows))
	}
	seen := map[string]bool{}
	nf := 0
	var idx []int
	for _, c := range got.cols {
		if seen[c.name] {
			t.Fail("column-twice", "member %d was shown column %q twice", m.id, c.name)
		}
		seen[c.name] = true
		j := src.col(c.name)
		if j < 0 {
			t.Fail("foreign-column", "member %d was shown column %q", m.id, c.name)
		}
		if src.cols[j].class != c.class {
			t.Fail("class-column", "member %d sees class column %v of %q", m.id, c.class, c.name)
		}
		if !c.class {
			nf++
		}
		idx = append(idx, j)
	}
	all := 0
	for _, c := range src.cols {
		if c.class && !seen[c.name] {
			t.Fail("class-column", "member %d doesn't see class column %q", m.id, c.name)
		}
		if !c.class {
			all++
		}
	}
	want := feats
	if feats == 0 {
		want = all
	}
	if nf != want {
		t.Fail("feature-count", "member %d was trained with %d features instead of %d", m.id, nf, want)
	}
	p := src.pick(idx)
	for _, r := range got.rows {
		if !contains(p.rows, r) {
			t.Fail("foreign-row", "member %d was trained on row %s which is no training row", m.id, showRow(r))
		}
	}
}

// ---------------------------------------------------------------- B03

func runB03(t *T) {
	t.badRand()
	if t.P(1, 3) {
		t.realProgress()
		return
	}
	o := bagOpt(t)
	tb := t.genTable(o)
	tg := t.root(tb, false)
	tb = tg.expect()
	bs, gs := t.batches(tb, o)
	nm := t.many(t.D(13))
	b, ms := t.bag(tb, bs, nm)
	for _, m := range ms {
		if t.P(1, 6) {
			m.slow = 20 + t.D(200)
		}
	}
	callers := 1 + t.D(3)
	rounds := 1 + t.D(3)
	cpus := t.sched(true)
	t.Descf("%d processors, %d callers, %d rounds", cpus, callers, rounds)
	if t.P(1, 25) {
		b.RandomFeatures = len(tb.cols) - len(tb.classNames()) + 1 + t.D(3)
		t.Descf("%d random features, which is too many", b.RandomFeatures)
		t.Nontrivial()
		if t.bagFit(b, tg.g) == nil {
			t.whole(ms, "training")
		}
		return
	}
	for round := 0; round < rounds; round++ {
		if round == 0 || t.P(1, 3) {
			if err := t.bagFit(b, tg.g); err != nil {
				t.Fail("fit-error", "training failed: %v", err)
			}
			t.whole(ms, "training")
		}
		t.Nontrivial()
		g := gs[t.D(len(gs))]
		errs := make([]error, callers)
		var fs []func()
		for c := range errs {
			c := c
			fs = append(fs, func() { _, errs[c] = b.Predict(g) })
		}
		if callers == 1 {
			t.Must("Predict", fs[0])
		} else {
			t.Tasks(fs...)
		}
		for _, err := range errs {
			if err != nil {
				t.Fail("predict-error", "prediction failed: %v", err)
			}
		}
		t.whole(ms, "prediction")
	}
}

func (t *T) whole(ms []*member, what string) {
	for _, m := range ms {
		if m.inFit != 0 || m.inPred != 0 {
			t.Fail("returned-early", "%s returned while member %d is still working", what, m.id)
		}
		if m.done != m.nfit || m.done == 0 {
			t.Fail("returned-early", "%s returned and member %d was trained %d times, %d to the end", what, m.id, m.nfit, m.done)
		}
		if m.early {
			t.Fail("untrained-member", "member %d was asked before its training ended", m.id)
		}
	}
}

func (t *T) realProgress() {
	f := t.fitCase("forest", "bagged")
	cpus := t.sched(true)
	t.Descf("%d processors", cpus)
	var err error
	if pi := t.Try(func() { err = f.l.fit(f.tg.g) }); pi != nil {
		t.Fail("panic:fit@"+pi.Where, "training panicked: %v", pi)
	}
	if err != nil {
		t.Probe("untrainable")
		return
	}
	t.Nontrivial()
	g := t.root(t.moreRows(f.train, f.m.o, t.D(8)), false)
	callers := 1 + t.D(3)
	t.sched(true)
	if callers == 1 {
		t.Must("Predict", func() { f.l.predict(g.g) })
		return
	}
	var fs []func()
	for c := 0; c < callers; c++ {
		fs = append(fs, func() { f.l.predict(g.g) })
	}
	t.Tasks(fs...)
}

// ---------------------------------------------------------------- B04

func runB04(t *T) {
	switch t.D(6) {
	case 0, 1, 2:
		t.failBag()
	case 3:
		t.failOva()
	default:
		t.failData()
	}
}

func (t *T) failBag() {
	o := bagOpt(t)
	tb := t.genTable(o)
	tg := t.root(tb, false)
	tb = tg.expect()
	bs, gs := t.batches(tb, o)
	nm := t.many(1 + t.D(10))
	b, ms := t.bag(tb, bs, nm)
	// which members fail, at what call
	nf := 1 + t.F(3)
	if t.F(5) == 4 {
		nf = nm
	}
	fitting := t.F(2) == 0
	at := t.F(2)
	hit := map[int]bool{}
	for i := 0; i < nf; i++ {
		m := ms[t.F(nm)]
		if nf == nm {
			m = ms[i]
		}
		if fitting {
			m.failFit = map[int]bool{at: true}
		} else {
			m.failPrd = map[int]bool{at: true}
		}
		hit[m.id] = true
	}
	t.Descf("members %v fail, training %v, call %d", hit, fitting, at)
	for k := 0; k < 3; k++ {
		t.sched(true)
		err := t.bagFit(b, tg.g)
		if fitting && k == at {
			if err == nil {
				t.Fail("error-hidden:bagged fit", "%d members failed to train and the ensemble reported success", len(hit))
			}
			continue
		}
		if err != nil {
			t.Fail("fit-error", "no member failed to train and the ensemble reports %v", err)
		}
		if k > at {
			break
		}
	}
	if fitting && at == 0 || !fitting {
		t.Nontrivial()
	}
	for k := 0; k < 3; k++ {
		g := gs[t.D(len(gs))]
		t.sched(true)
		var err error
		t.Must("Predict", func() { _, err = b.Predict(g) })
		if !fitting && k == at {
			if err == nil {
				t.Fail("error-hidden:bagged predict", "%d members failed to predict and the ensemble reported success", len(hit))
			}
			continue
		}
		if err != nil {
			t.Fail("predict-error", "no member failed to predict and the ensemble reports %v", err)
		}
	}
}

// ovaMember is a scripted member of a one-versus-all model.
type ovaMember struct {
	base.BaseClassifier
	t       *T
	cls     string
	conf    map[int][]float64 // confidences by number of rows
	failFit bool
	failPrd map[int]bool
	fits    []*table
	preds   []*table
	iter    bool
}

func (m *ovaMember) Fit(g base.FixedDataGrid) error {
	m.fits = append(m.fits, memberSnap(g, m.iter))
	if m.failFit {
		m.t.Fault("member-fit-error")
		return errScript
	}
	return nil
}

func (m *ovaMember) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	k := len(m.preds)
	m.preds = append(m.preds, memberSnap(g, m.iter))
	if m.failPrd[k] {
		m.t.Fault("member-predict-error")
		return nil, errScript
	}
	ret := base.GeneratePredictionVector(g)
	spec := base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
	_, n := ret.Size()
	for i := 0; i < n; i++ {
		ret.Set(spec, i, base.PackFloatToBytes(m.conf[n][i]))
	}
	return ret, nil
}
func (m *ovaMember) String() string                                            { return "member " + m.cls }
func (m *ovaMember) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (m *ovaMember) Save(string) error                                         { return nil }
func (m *ovaMember) Load(string) error                                         { return nil }
func (m *ovaMember) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (m *ovaMember) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

// ova builds a one-versus-all model of scripted members for the data.
func (t *T) ova(tb *table, batches []*table) (*meta.OneVsAllModel, *[]*ovaMember, map[string]map[int][]float64) {
	vals := tb.cols[tb.classCol()].vals
	conf := map[string]map[int][]float64{}
	for _, v := range vals {
		conf[v] = map[int][]float64{}
	}
	levels := []float64{0, 1, 0.5, 0.25, 0.75}
	if t.P(1, 4) {
		levels = []float64{0, 1, 1 - 1.0/(1<<40), 0.5, 0.5 + 1.0/(1<<45)}
	} else if t.P(1, 4) {
		levels = []float64{0, 1.0 / (1 << 60), 1.0 / (1 << 50), 1.0 / (1 << 30), 0}
	}
	for _, bt := range batches {
		n := len(bt.rows)
		for _, v := range vals {
			conf[v][n] = make([]float64, n)
			for r := range conf[v][n] {
				conf[v][n][r] = levels[t.D(5)]
			}
		}
	}
	ms := &[]*ovaMember{}
	o := meta.NewOneVsAllModel(func(cls string) base.Classifier {
		m := &ovaMember{t: t, cls: cls, conf: conf[cls], failPrd: map[int]bool{}, iter: t.P(1, 2)}
		*ms = append(*ms, m)
		return m
	})
	return o, ms, conf
}

func ovaOpt(t *T) gopt {
	o := bagOpt(t)
	o.minCls, o.maxCls = 2, 5
	if t.P(1, 60) {
		t.enlarge(&o, "manyclasses")
	}
	return o
}

func (t *T) failOva() {
	o := ovaOpt(t)
	tb := t.genTable(o)
	if len(tb.cols[tb.classCol()].vals) < 2 {
		return
	}
	tg := t.root(tb, false)
	tb = tg.expect()
	bs, gs := t.batches(tb, o)
	vals := tb.cols[tb.classCol()].vals
	bad := vals[t.F(len(vals))]
	fitting := t.F(2) == 0
	at := t.F(2)
	t.Descf("the member of %q fails, training %v, call %d", bad, fitting, at)
	conf := map[string]map[int][]float64{}
	_, _, conf = t.ova(tb, bs)
	calls := 0
	var last *ovaMember
	m := meta.NewOneVsAllModel(func(cls string) base.Classifier {
		x := &ovaMember{t: t, cls: cls, conf: conf[cls]}
		if cls == bad {
			x.failFit = fitting && calls == at
			calls++
			if !fitting {
				x.failPrd = map[int]bool{at: true}
			}
			last = x
		}
		return x
	})
	_ = last
	for k := 0; k <= at+1; k++ {
		var err error
		t.Must("Fit", func() { err = m.Fit(tg.g) })
		if fitting && k == at {
			if err == nil {
				t.Fail("error-hidden:ova fit", "the member of class %q failed to train and the model reported success", bad)
			}
			t.Nontrivial()
		} else if err != nil {
			t.Fail("fit-error", "no member failed to train and the model reports %v", err)
		}
		if !fitting {
			break
		}
	}
	for k := 0; k < 3; k++ {
		var err error
		g := gs[t.D(len(gs))]
		t.Must("Predict", func() { _, err = m.Predict(g) })
		if !fitting && k == at {
			if err == nil {
				t.Fail("error-hidden:ova predict", "the member of class %q failed to predict and the model reported success", bad)
			}
			t.Nontrivial()
		} else if err != nil {
			t.Fail("predict-error", "no member failed to predict and the model reports %v", err)
		}
	}
}

// failData: real ensembles whose members fail because of their data.
func (t *T) failData() {
	f := t.fitCase("bagged", "forest", "ova", "multisvc")
	test := t.root(t.moreRows(f.train, f.m.o, t.few(5)), false)
	t.sched(true)
	// a clean pass tells how often the data is read
	sg := t.newSimGrid(f.tg.g)
	var err error
	if pi := t.Try(func() { err = f.l.fit(sg) }); pi != nil || err != nil {
		t.Probe("untrainable:" + f.m.kind)
		return
	}
	ps := t.newSimGrid(test.g)
	if _, err, pi := t.answer(f.l, ps); pi != nil || err != nil {
		t.Probe("unpredictable:" + f.m.kind)
		return
	}
	t.Nontrivial()
	attempt := func(what string, passes, rows int, g base.FixedDataGrid, op func(base.FixedDataGrid) error) {
		if passes == 0 {
			return
		}
		x := t.newSimGrid(g)
		x.failAt = t.F(passes)
		x.failAf = t.F(rows + 1)
		t.sched(true)
		var err error
		pi := t.Try(func() { err = op(x) })
		if !x.fired {
			return
		}
		if pi != nil {
			t.Fail("panic:"+what+" "+f.m.kind+"@"+pi.Where, "%s: the data couldn't be read and the library panicked: %v", what, pi)
		}
		if err == nil {
			t.Fail("error-hidden:"+what+" "+f.m.kind, "%s: the data of a member couldn't be read and the ensemble reported success", what)
		}
	}
	attempt("fit", sg.passes, len(f.train.rows), f.tg.g, func(g base.FixedDataGrid) error { return f.m.nw().fit(g) })
	attempt("predict", ps.passes, len(test.expect().rows), test.g, func(g base.FixedDataGrid) error {
		_, e := f.l.predict(g)
		return e
	})
	// members with nothing to learn from
	if t.P(1, 3) && f.m.kind != "multisvc" && f.m.kind != "ova" {
		e := t.root(f.train.pickRows(nil), false)
		l := f.m.nw()
		if pi := t.Try(func() { err = l.fit(e.g) }); pi != nil {
			t.Fail("panic:fit empty "+f.m.kind+"@"+pi.Where, "training on no rows panicked: %v", pi)
		}
	}
	if _, err, pi := t.answer(f.l, test.g); pi != nil || err != nil {
		t.Fail("broken-afterwards:"+f.m.kind, "once the data could be read again: %v %v", pi, err)
	}
}

// ---------------------------------------------------------------- B06

func runB06(t *T) {
	o := ovaOpt(t)
	o.unusedVals = t.P(1, 4)
	tb := t.genTable(o)
	if len(tb.cols[tb.classCol()].vals) < 2 {
		return
	}
	tg, bs, gs := t.sharedBatches(tb, o)
	tb = tg.expect()
	ci := tb.classCol()
	vals := tb.cols[ci].vals
	m, msp, conf := t.ova(tb, bs)
	tb.describe(t, "training data")
	src := tg.g
	want := tb
	if t.P(1, 3) && len(tb.rows) > 0 {
		p := t.perm(len(tb.rows))
		src = base.NewInstancesViewFromVisible(src, p, src.AllAttributes())
		want = tb.pickRows(p)
	}
	if t.P(1, 3) {
		s := t.newSimGrid(src)
		s.order = t.perm(len(want.rows))
		s.reuse = t.P(1, 2)
		src = s
	}
	fits := 1 + t.D(2)
	var err error
	for k := 0; k < fits; k++ {
		*msp = nil
		t.Must("Fit", func() { err = m.Fit(src) })
		if err != nil {
			t.Fail("fit-error", "training failed: %v", err)
		}
	}
	t.Nontrivial()
	seen := map[string]bool{}
	for _, x := range *msp {
		if seen[x.cls] {
			t.Fail("member-twice", "two members for class %q", x.cls)
		}
		seen[x.cls] = true
	}
	for _, v := range vals {
		if !seen[v] {
			t.Fail("member-missing", "no member for class %q", v)
		}
	}
	relabel := func(tb *table, cls string, got *table) string {
		if len(got.rows) != len(tb.rows) {
			return fmt.Sprintf("%d rows instead of %d", len(got.rows), len(tb.rows))
		}
		if len(got.cols) != len(tb.cols) {
			return fmt.Sprintf("%d columns instead of %d", len(got.cols), len(tb.cols))
		}
		gc := -1
		for i, c := range got.cols {
			if c.class {
				if gc >= 0 {
					return "two class columns"
				}
				gc = i
			}
		}
		if gc < 0 {
			return "no class column"
		}
		if got.cols[gc].kind != kFloat {
			return fmt.Sprintf("class column %v", got.cols[gc])
		}
		for r, row := range tb.rows {
			w := 0.0
			if row[ci] == ccell(valIndex(vals, cls), cls) {
				w = 1
			}
			if g := cellFloat(got.rows[r][gc]); g != w {
				return fmt.Sprintf("row %d of class %s is labelled %v", r, showCell(row[ci]), g)
			}
			for i, c := range tb.cols {
				if i == ci {
					continue
				}
				j := got.col(c.name)
				if j < 0 {
					return fmt.Sprintf("column %q is missing", c.name)
				}
				if got.rows[r][j] != row[i] {
					return fmt.Sprintf("row %d column %q is %s instead of %s", r, c.name, showCell(got.rows[r][j]), showCell(row[i]))
				}
			}
		}
		return ""
	}
	for _, x := range *msp {
		if len(x.fits) != 1 {
			t.Fail("trained-wrongly", "the member of class %q was trained %d times", x.cls, len(x.fits))
		}
		if d := relabel(want, x.cls, x.fits[0]); d != "" {
			t.Fail("training-data", "the member of class %q was trained on other data: %s", x.cls, d)
		}
	}
	for k, n := 0, 1+t.D(3); k < n; k++ {
		bi := t.D(len(gs))
		g := gs[bi]
		if t.P(1, 3) {
			s := t.newSimGrid(g)
			s.order = t.perm(len(bs[bi].rows))
			s.reuse = t.P(1, 2)
			g = s
		}
		var out base.FixedDataGrid
		before := map[string]int{}
		for _, x := range *msp {
			before[x.cls] = len(x.preds)
		}
		t.Must("Predict", func() { out, err = m.Predict(g) })
		if err != nil {
			t.Fail("predict-error", "prediction failed: %v", err)
		}
		ans := readPred(out)
		nr := len(bs[bi].rows)
		if len(ans) != nr {
			t.Fail("rows", "%d answers for %d rows", len(ans), nr)
		}
		for _, x := range *msp {
			if len(x.preds)-before[x.cls] != 1 {
				t.Fail("asked-wrongly", "the member of class %q was asked %d times", x.cls, len(x.preds)-before[x.cls])
			}
			p := x.preds[len(x.preds)-1]
			if d := relabel(bs[bi], x.cls, p); d != "" {
				t.Fail("prediction-data", "the member of class %q is shown other data: %s", x.cls, d)
			}
		}
		for r := range ans {
			best := 0.0
			for _, v := range vals {
				if c := conf[v][nr][r]; c > best {
					best = c
				}
			}
			if best == 0 {
				continue // documented as undefined
			}
			if c, ok := conf[ans[r]]; !ok || c[nr][r] != best {
				t.Fail("not-the-most-confident", "row %d: confidences %v, answer %q", r, confRow(conf, vals, nr, r), ans[r])
			}
		}
	}
}

func confRow(c map[string]map[int][]float64, vals []string, n, r int) string {
	s := ""
	for _, v := range vals {
		s += fmt.Sprintf("%q:%v ", v, c[v][n][r])
	}
	return s
}

func valIndex(vals []string, v string) int {
	for i, x := range vals {
		if x == v {
			return i
		}
	}
	return -1
}
