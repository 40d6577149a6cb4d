package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/verifsim"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
)

func init() {
	register(&Property{ID: "P03", Run: runP03,
		Rule: "a learner is trained, a clustering, discretisation or conversion fitted, a dataset sorted, divided, viewed or converted, a confusion matrix counted: once on a plain dataset with hash tables walked in a fixed order, then on a caller-supplied dataset with the same rows at the same positions which delivers them in a drawn order from reused memory, with hash tables walked in drawn orders; the results must be equal",
		Real: "every learner, filter, clustering, view and dataset utility", Stub: "a caller-supplied dataset delivers the rows"})
}

// delivOp is one operation on a dataset and its result as text. Where ties
// make several results right, the result names what they have in common.
type delivOp struct {
	name string
	o    gopt
	run  func(g base.FixedDataGrid) ([]string, error)
}

func showTable(tb *table, sorted bool) []string {
	var out, rows []string
	for _, c := range tb.cols {
		out = append(out, c.String())
	}
	for _, r := range tb.rows {
		rows = append(rows, strings.Join(r, " "))
	}
	if sorted {
		sort.Strings(rows)
	}
	return append(out, rows...)
}

// readAll reads a dataset by iteration.
func readAll(g base.FixedDataGrid) []string {
	tb, problem := rawMap(g)
	if problem != "" {
		return []string{"! " + problem}
	}
	return showTable(tb, false)
}

func showClusters(m clustering.ClusterMap, rows int, all bool) ([]string, error) {
	var out []string
	seen := map[int]bool{}
	for c, ps := range m {
		ps = append([]int{}, ps...)
		sort.Ints(ps)
		for _, p := range ps {
			if p < 0 || p >= rows {
				return nil, fmt.Errorf("! cluster %d has row %d of %d", c, p, rows)
			}
			if seen[p] {
				return nil, fmt.Errorf("! row %d is twice in the clusters %v", p, m)
			}
			seen[p] = true
		}
		if len(ps) > 0 {
			out = append(out, fmt.Sprintf("%d:%v", c, ps))
		}
	}
	if all && len(seen) != rows {
		return nil, fmt.Errorf("! %d of %d rows are in the clusters %v", len(seen), rows, m)
	}
	sort.Strings(out)
	return out, nil
}

func (t *T) delivOp() *delivOp {
	op := &delivOp{o: gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 14, floats: t.D(2), prec: -1, classKind: kCat, minCls: 2, maxCls: 4,
		degenerate: t.P(1, 4), unusedVals: t.P(1, 4), classFirst: t.P(1, 3)}}
	floats := func() { op.o.kinds = []int{kFloat} }
	sub := t.D(1 << 16)
	pick := func(n int) int { k := sub % n; sub /= n; return k }
	switch t.D(11) {
	case 0:
		op.name = "DBSCAN"
		floats()
		op.o.classKind = -1
		p := clustering.DBSCANParameters{Eps: []float64{0.5, 1, 2, 4}[pick(4)], MinCount: 1 + pick(4)}
		p.Metric = []pairwise.PairwiseDistanceFunc{pairwise.NewEuclidean(), pairwise.NewManhattan(), pairwise.NewChebyshev()}[pick(3)]
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			q := p
			q.Attributes = g.AllAttributes()
			m, err := clustering.DBSCAN(g, q)
			if err != nil {
				return nil, err
			}
			_, n := g.Size()
			return showClusters(m, n, false)
		}
	case 1:
		op.name = "mixture"
		floats()
		op.o.classKind = -1
		op.o.minRows = 4
		op.o.degenerate = false
		k, seed := 1+pick(3), int64(1+pick(1000))
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			rand.Seed(seed)
			em, err := clustering.NewExpectationMaximization(k)
			if err != nil {
				return nil, err
			}
			if err := em.Fit(g); err != nil {
				return nil, err
			}
			m, err := em.Predict(g)
			if err != nil {
				return nil, err
			}
			_, n := g.Size()
			return showClusters(m, n, true)
		}
	case 2, 3:
		chi := pick(2) == 0
		op.name = "BinningFilter"
		op.o.minRows = 2
		op.o.learn = true
		bins, sig := 1+pick(5), []float64{0.5, 0.9, 0.95, 0.99}[pick(4)]
		if chi {
			op.name = "ChiMergeFilter"
			op.o.maxRows = 24
			op.o.floats = 0
		}
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			var f base.Filter
			var add func(base.Attribute) error
			if chi {
				c := filters.NewChiMergeFilter(g, sig)
				f, add = c, c.AddAttribute
			} else {
				c := filters.NewBinningFilter(g, bins)
				f, add = c, c.AddAttribute
			}
			n := 0
			for _, a := range g.AllAttributes() {
				if _, ok := a.(*base.FloatAttribute); ok {
					if err := add(a); err != nil {
						return nil, err
					}
					n++
				}
			}
			if n == 0 {
				return nil, errShape
			}
			if err := f.Train(); err != nil {
				return nil, err
			}
			return readAll(base.NewLazilyFilteredInstances(g, f)), nil
		}
	case 4:
		toFloat := pick(2) == 0
		op.name = "BinaryConvertFilter"
		if toFloat {
			op.name = "FloatConvertFilter"
		}
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			var f base.Filter
			if toFloat {
				f = filters.NewFloatConvertFilter()
			} else {
				f = filters.NewBinaryConvertFilter()
			}
			for _, a := range g.AllAttributes() {
				f.AddAttribute(a)
			}
			if err := f.Train(); err != nil {
				return nil, err
			}
			return readAll(base.NewLazilyFilteredInstances(g, f)), nil
		}
	case 5:
		op.name = "LazySort"
		op.o.maxCols = 3
		dir := []base.SortDirection{base.Ascending, base.Descending}[pick(2)]
		n := 1 + pick(3)
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			specs := base.ResolveAllAttributes(g)
			if n < len(specs) {
				specs = specs[:n]
			}
			s, err := base.LazySort(g, dir, specs)
			if err != nil {
				return nil, err
			}
			tb, problem := rawMap(s)
			if problem != "" {
				return []string{"! " + problem}, nil
			}
			// rows with equal keys may come in any order
			keys := &table{cols: tb.cols[:len(specs)]}
			for _, r := range tb.rows {
				keys.rows = append(keys.rows, r[:len(specs)])
			}
			return append(showTable(keys, false), showTable(tb, true)...), nil
		}
	case 6:
		op.name = "views"
		dup := pick(2) == 0
		step := 1 + pick(3)
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			as := g.AllAttributes()
			_, n := g.Size()
			var vis []int
			for i := n - 1; i >= 0; i -= step {
				vis = append(vis, i)
			}
			if dup {
				vis = append(vis, 0)
			}
			m := map[int]int{}
			for i := 0; i < n; i++ {
				m[i] = n - 1 - i
			}
			out := readAll(base.NewInstancesViewFromVisible(g, vis, as[:1+(len(as)-1)/2]))
			out = append(out, readAll(base.NewInstancesViewFromRows(g, m))...)
			return append(out, readAll(base.NewInstancesViewFromAttrs(g, as[len(as)/2:]))...), nil
		}
	case 7:
		op.name = "decomposition"
		at := pick(8)
		th := float64(pick(7)) + 0.25
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			as := g.AllAttributes()
			a := as[at%len(as)]
			var m map[string]base.FixedDataGrid
			if _, ok := a.(*base.FloatAttribute); ok {
				m = base.DecomposeOnNumericAttributeThreshold(g, a, th)
			} else {
				m = base.DecomposeOnAttributeValues(g, a)
			}
			var out []string
			for k, d := range m {
				out = append(out, fmt.Sprintf("%q %q", k, readAll(d)))
			}
			sort.Strings(out)
			return out, nil
		}
	case 8:
		op.name = "distributions"
		at := pick(8)
		th := float64(pick(7)) + 0.25
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			as := g.AllAttributes()
			a := as[at%len(as)]
			var m map[string]map[string]int
			if _, ok := a.(*base.FloatAttribute); ok {
				m = base.GetClassDistributionAfterThreshold(g, a, th)
			} else {
				m = base.GetClassDistributionAfterSplit(g, a)
			}
			return []string{fmt.Sprint(base.GetClassDistribution(g), base.GetClassDistributionByCategoricalValue(g), m)}, nil
		}
	case 9:
		op.name = "ConvertAllRowsToMat64"
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			fa := base.NonClassFloatAttributes(g)
			if len(fa) == 0 {
				return nil, errShape
			}
			ms, err := base.ConvertAllRowsToMat64(fa, g)
			if err != nil {
				return nil, err
			}
			var out []string
			for _, m := range ms {
				out = append(out, fmt.Sprintf("%x", m.RawMatrix().Data))
			}
			return out, nil
		}
	case 10:
		op.name = "confusion matrix"
		shift := pick(5)
		op.run = func(g base.FixedDataGrid) ([]string, error) {
			// the reference is a plain view of the same rows in another order
			_, n := g.Size()
			var vis []int
			for i := 0; i < n; i++ {
				vis = append(vis, (i+shift)%n)
			}
			src := g
			if sg, ok := g.(*simGrid); ok {
				src = sg.FixedDataGrid
			}
			ref := base.NewInstancesViewFromVisible(src, vis, src.AllAttributes())
			c, err := evaluation.GetConfusionMatrix(ref, g)
			if err != nil {
				return nil, err
			}
			d, err := evaluation.GetConfusionMatrix(g, ref)
			if err != nil {
				return nil, err
			}
			sum := 0
			for _, m := range c {
				for _, k := range m {
					sum += k
				}
			}
			if sum != n {
				return nil, fmt.Errorf("! %d rows were counted as %d", n, sum)
			}
			return []string{fmt.Sprint(c), fmt.Sprint(d),
				fmt.Sprintf("%x %x %x %x", evaluation.GetAccuracy(c), evaluation.GetMacroPrecision(c), evaluation.GetMacroRecall(c), evaluation.GetMicroPrecision(c)),
				evaluation.GetSummary(c), evaluation.ShowConfusionMatrix(c)}, nil
		}
	}
	dims := []string{"fewrows", "fewcols", "long"}
	if op.o.kinds == nil {
		dims = append(dims, "fewvals")
	}
	if op.o.classKind == kCat {
		dims = append(dims, "classes")
	}
	t.enlarge(&op.o, dims...)
	return op
}

// orderFree are the learners which don't process rows one after the other.
var orderFree = map[string]bool{"nb": true, "id3": true, "cartc": true, "cartr": true}

func runP03(t *T) {
	var tb *table
	var name string
	var run func(g base.FixedDataGrid) ([]string, error)
	ordered := true
	if t.P(1, 2) {
		op := t.delivOp()
		tb = t.genTable(op.o)
		name, run = op.name, op.run
	} else {
		m := t.genModel(allKinds...)
		tb = t.trainData(m)
		more := t.moreRows(tb, m.o, t.few(6))
		name = "training of a " + m.kind
		ordered = orderFree[m.kind]
		seed := int64(1 + t.D(1<<20))
		t.Descf("model %s (%s)", m.kind, m.conf)
		more.describe(t, "test data")
		run = func(g base.FixedDataGrid) ([]string, error) {
			perm := verifsim.NoPermute
			verifsim.NoPermute = true
			p := t.root(more, false).g
			verifsim.NoPermute = perm
			rand.Seed(seed)
			t.cplan(-1, -1)
			runtime.VerifFIFO(true)
			defer runtime.VerifFIFO(false)
			l := m.nw()
			if err := l.fit(g); err != nil {
				return nil, err
			}
			return l.predict(p)
		}
	}
	t.Descf("operation %s", name)
	tb.describe(t, "data")
	once := func(drawn bool, i int) (out []string, err error, pi *PanicInfo) {
		verifsim.NoPermute = true
		v := t.root(tb, false)
		g := v.g
		before := t.snap("data", g)
		var x base.FixedDataGrid = g
		if drawn {
			sg := t.newSimGrid(g)
			sg.reuse = t.P(3, 4)
			if ordered && t.P(3, 4) {
				sg.order = t.perm(len(tb.rows))
			}
			if sg.reuse || sg.order != nil {
				x = sg
			}
			t.Descf("delivered in order %v, memory reused: %v", sg.order, sg.reuse)
		}
		verifsim.NoPermute = !drawn
		pi = t.Try(func() { out, err = run(x) })
		verifsim.NoPermute = true
		runtime.VerifFIFO(false)
		if d := diff(before, t.snap("data", g), cmpOpt{}); d != "" {
			t.Fail("data-changed:"+name, "%s changed the dataset: %s", name, d)
		}
		verifsim.NoPermute = false
		return
	}
	a0, e0, p0 := once(false, 0)
	bad := func(err error) bool { return err != nil && strings.HasPrefix(err.Error(), "! ") }
	if bad(e0) {
		t.Fail("inconsistent:"+name, "%s: %v", name, e0)
	}
	if e0 != nil || p0 != nil {
		t.Probe("impossible:" + name)
		t.Logf("impossible: %v %v", e0, p0)
	}
	t.Nontrivial()
	t.Logf("canonical: %q", a0)
	for i, n := 0, 1+t.D(3); i < n; i++ {
		a, e, p := once(true, i)
		if bad(e) {
			t.Fail("inconsistent:"+name, "%s: %v", name, e)
		}
		if (e == nil) != (e0 == nil) || (p == nil) != (p0 == nil) {
			t.Fail("differs:"+name, "%s ended with (%v, %v) and with (%v, %v)", name, e0, p0, e, p)
		}
		if !sameStrs(a, a0) {
			t.Fail("differs:"+name, "%s gave %q and %q", name, a0, a)
		}
	}
}
