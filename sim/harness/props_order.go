package main

import (
	"math"
	"math/rand"
	"runtime"
	"sort"

	"gonum.org/v1/gonum/mat"

	"github.com/sjwhitworth/golearn/verifsim"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/kdtree"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
)

func init() {
	register(&Property{ID: "P05", Run: runP05,
		Rule: "a learner is trained, a filter fitted, a dataset sorted or counted on the same rows stored in several drawn orders, delivered in drawn orders from reused memory; the answers for fixed rows must be equal. Nearest-neighbour answers are compared with an exhaustive search as well",
		Real: "naive Bayes, nearest neighbours with both searches, ID3 and CART trees, binning and conversion filters, sorting, distributions", Stub: "a caller-supplied dataset delivers the rows"})
	register(&Property{ID: "P06", Run: runP06,
		Rule: "the same points are clustered by density stored in several drawn orders, delivered in drawn orders from reused memory with hash tables walked in drawn orders; every result is compared with the definition",
		Real: "clustering.DBSCAN, base.ConvertAllRowsToMat64, pairwise metrics", Stub: "a caller-supplied dataset delivers the rows"})
}

// inOrder is the table with its rows in another order.
func (tb *table) inOrder(p []int) *table {
	c := tb.clone()
	c.rows = nil
	for _, i := range p {
		c.rows = append(c.rows, tb.rows[i])
	}
	return c
}

// delivered wraps a dataset so that rows arrive in a drawn way, or doesn't.
func (t *T) delivered(g base.FixedDataGrid) base.FixedDataGrid {
	if !t.P(1, 2) {
		return g
	}
	_, n := g.Size()
	sg := t.newSimGrid(g)
	sg.reuse = t.P(3, 4)
	if t.P(3, 4) {
		sg.order = t.perm(n)
	}
	t.Descf("delivered in order %v, memory reused: %v", sg.order, sg.reuse)
	return sg
}

// defDistance is the distance of two points by its definition.
func defDistance(name string, a, b []float64) (d float64) {
	switch name {
	case "cosine":
		var ab, aa, bb float64
		for i := range a {
			ab += a[i] * b[i]
			aa += a[i] * a[i]
			bb += b[i] * b[i]
		}
		return 1 - ab/math.Sqrt(aa)/math.Sqrt(bb)
	case "chebyshev":
		for i := range a {
			d = math.Max(d, math.Abs(a[i]-b[i]))
		}
	case "manhattan":
		for i := range a {
			d += math.Abs(a[i] - b[i])
		}
	case "euclidean":
		for i := range a {
			d = math.Hypot(d, a[i]-b[i])
		}
	default:
		panic(name)
	}
	return d
}

// alike says whether two distances are the same but for rounding.
func alike(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-7*(math.Abs(a)+math.Abs(b))
}

// distances are the metrics with a definition here.
func (t *T) drawDistance() (string, pairwise.PairwiseDistanceFunc) {
	switch t.D(3) {
	case 0:
		return "euclidean", pairwise.NewEuclidean()
	case 1:
		return "manhattan", pairwise.NewManhattan()
	}
	return "chebyshev", pairwise.NewChebyshev()
}

// neighbourAnswers finds the answers of a nearest-neighbour classifier by an
// exhaustive search; "" where a tie leaves it open.
func neighbourAnswers(train, test *table, k int, d string, weighted bool) []string {
	vec := func(tb *table, r int, names []string) (v []float64) {
		for _, n := range names {
			v = append(v, cellFloat(tb.rows[r][tb.col(n)]))
		}
		return
	}
	var names []string
	cc := train.classCol()
	for i, c := range train.cols {
		if i != cc && c.kind == kFloat {
			names = append(names, c.name)
		}
	}
	var out []string
	for r := range test.rows {
		q := vec(test, r, names)
		type near struct {
			d float64
			c string
		}
		var ns []near
		for i := range train.rows {
			c := train.rows[i][cc]
			if train.cols[cc].kind == kCat {
				c = showCell(c)
			}
			ns = append(ns, near{defDistance(d, q, vec(train, i, names)), c})
		}
		open := false
		for _, x := range ns {
			open = open || math.IsNaN(x.d)
		}
		sort.SliceStable(ns, func(i, j int) bool { return ns[i].d < ns[j].d })
		for i := 0; i < k && i+1 < len(ns); i++ {
			open = open || !(ns[i+1].d-ns[i].d > 1e-7*(1+ns[i+1].d))
		}
		if open {
			out = append(out, "")
			continue
		}
		votes := map[string]float64{}
		for _, n := range ns[:k] {
			if weighted {
				votes[n.c] += 1 / n.d
			} else {
				votes[n.c]++
			}
		}
		best, bv := "", -1.0
		for _, n := range ns[:k] {
			v := votes[n.c]
			if n.c != best && best != "" && math.Abs(v-bv) <= 1e-7*bv && weighted {
				open = true
			}
			if v > bv {
				best, bv = n.c, v
			}
		}
		if open {
			best = ""
		}
		out = append(out, best)
	}
	return out
}

// searchTree compares the search tree with an exhaustive search: the rows it
// finds are as near as those nearest to the target, in increasing distance.
func (t *T) searchTree() {
	n, w := t.R(1, 14), t.R(1, 4)
	if t.P(1, 20) {
		n = 40 + t.D(160)
		t.allow(20)
	}
	mode := []int{0, 0, 1, 5, 6}[t.D(5)]
	vec := func() []float64 {
		v := make([]float64, w)
		for i := range v {
			v[i] = t.genFloat(mode)
		}
		return v
	}
	rows := make([][]float64, n)
	for i := range rows {
		if i > 0 && t.P(1, 6) {
			rows[i] = rows[t.D(i)]
			continue
		}
		rows[i] = vec()
	}
	dn, d := t.drawDistance()
	t.Descf("%d points %v", n, rows)
	var targets [][]float64
	var ks []int
	for i := t.R(1, 5); i > 0; i-- {
		v := vec()
		if t.P(1, 4) {
			v = append([]float64{}, rows[t.D(n)]...)
		}
		targets = append(targets, v)
		ks = append(ks, t.R(1, n))
	}
	t.Nontrivial()
	for i, m := 0, 1+t.D(3); i < m; i++ {
		p := t.perm(n)
		data := make([][]float64, n)
		for j, k := range p {
			data[j] = append([]float64{}, rows[k]...)
		}
		tree := kdtree.New()
		var err error
		t.Must("building a search tree", func() { err = tree.Build(data) })
		if err != nil {
			t.Fail("tree-error", "building a search tree: %v", err)
		}
		for q, v := range targets {
			k := ks[q]
			t.Descf("the %d nearest to %v, %T, points in order %v", k, v, d, p)
			var at []int
			var ds []float64
			t.Must("searching a tree", func() { at, ds, err = tree.Search(k, d, v) })
			if err != nil {
				t.Fail("tree-error", "searching a tree: %v", err)
			}
			if len(at) != k || len(ds) != k {
				t.Fail("tree-count", "%d rows and %d distances instead of %d", len(at), len(ds), k)
			}
			dist := func(x []float64) float64 {
				return d.Distance(mat.NewDense(w, 1, v), mat.NewDense(w, 1, x))
			}
			var all []float64
			for _, x := range data {
				all = append(all, dist(x))
			}
			sort.Float64s(all)
			seen := map[int]bool{}
			for j, r := range at {
				if r < 0 || r >= n || seen[r] {
					t.Fail("tree-rows", "the rows found are %v of %d", at, n)
				}
				seen[r] = true
				if x := dist(data[r]); x != ds[j] || x != all[j] {
					t.Fail("tree-search", "neighbour %d is row %d at %v, given as %v; the search of all rows has %v", j, r, x, ds[j], all[:k])
				}
				if x := defDistance(dn, v, data[r]); !alike(x, ds[j]) && x < 1e300 && (x > 1e-150 || ds[j] > 1e-150) {
					t.Fail("tree-distance", "the %s distance of %v and %v is %v, given as %v", dn, v, data[r], x, ds[j])
				}
			}
		}
	}
}

// regression compares the nearest-neighbour regressor with an exhaustive
// search, for rows stored in several orders.
func (t *T) regression() {
	n, w := t.R(1, 14), t.R(1, 4)
	mode := []int{0, 0, 1, 5}[t.D(4)]
	vec := func() []float64 {
		v := make([]float64, w)
		for i := range v {
			v[i] = t.genFloat(mode)
		}
		return v
	}
	var rows [][]float64
	var labels []float64
	for i := 0; i < n; i++ {
		if i > 0 && t.P(1, 6) {
			rows = append(rows, rows[t.D(i)])
		} else {
			rows = append(rows, vec())
		}
		labels = append(labels, float64(t.D(64)-32))
	}
	dn := []string{"euclidean", "manhattan"}[t.D(2)]
	t.Descf("%d points %v, values %v, %s", n, rows, labels, dn)
	type query struct {
		v    []float64
		k    int
		want float64
	}
	var qs []query
	for i := t.R(1, 5); i > 0; i-- {
		q := query{v: vec(), k: t.R(1, n)}
		if t.P(1, 4) {
			q.v = append([]float64{}, rows[t.D(n)]...)
		}
		at := t.perm(n)
		d := make([]float64, n)
		for j := range d {
			d[j] = defDistance(dn, q.v, rows[j])
		}
		sort.Slice(at, func(i, j int) bool { return d[at[i]] < d[at[j]] })
		open := false
		for _, j := range at {
			// (ties at the border are left open, unless they don't matter)
			open = open || math.IsNaN(d[j]) || j != at[q.k-1] && alike(d[j], d[at[q.k-1]]) && labels[j] != labels[at[q.k-1]]
		}
		if open {
			continue
		}
		for _, j := range at[:q.k] {
			q.want += labels[j]
		}
		q.want /= float64(q.k)
		qs = append(qs, q)
	}
	if len(qs) == 0 {
		return
	}
	t.Nontrivial()
	for i, m := 0, 1+t.D(3); i < m; i++ {
		p := t.perm(n)
		var data, vals []float64
		for _, k := range p {
			data = append(data, rows[k]...)
			vals = append(vals, labels[k])
		}
		c := knn.NewKnnRegressor(dn)
		t.Must("fitting a regressor", func() { c.Fit(vals, data, n, w) })
		for _, q := range qs {
			t.Descf("the value at %v by the %d nearest, points in order %v", q.v, q.k, p)
			var x float64
			t.Must("predicting a value", func() { x = c.Predict(mat.NewDense(1, w, append([]float64{}, q.v...)), q.k) })
			if math.Abs(x-q.want) > 1e-9 {
				t.Fail("regressor", "the mean of the %d nearest is %v, predicted %v", q.k, q.want, x)
			}
		}
	}
}

func runP05(t *T) {
	if t.P(1, 12) {
		t.regression()
		return
	}
	if t.P(1, 5) {
		t.searchTree()
		return
	}
	var tb *table
	var name string
	var run func(g base.FixedDataGrid, p []int) ([]string, error)
	var open []string // "" where the answer is left open
	var want []string
	if t.P(1, 3) {
		op := t.orderOp()
		tb = t.genTable(op.o)
		name = op.name
		run = func(g base.FixedDataGrid, p []int) ([]string, error) { return op.run(g) }
	} else {
		m := t.genModel("nb", "id3", "cartc", "knn", "knn")
		if m.pruned || m.conf == "rule random prune 0" {
			return
		}
		if m.o.floats == 6 && m.kind == "knn" {
			m.o.floats = 1
		}
		if m.kind == "id3" {
			// (which of two equally good thresholds is the better one is a question
			// of rounding)
			m.o.kinds = []int{kCat, kBin}
		}
		tb = t.trainData(m)
		more := t.moreRows(tb, m.o, t.few(6))
		name = "training of a " + m.kind
		t.Descf("model %s (%s)", m.kind, m.conf)
		if m.kind == "knn" {
			// few ties
			cc := tb.classCol()
			for _, x := range []*table{tb, more} {
				for _, r := range x.rows {
					for i, c := range x.cols {
						if i != cc && c.kind == kFloat {
							r[i] = fcell(cellFloat(r[i]) + float64(t.D(1<<20))/(1<<21))
						}
					}
				}
			}
			want = neighbourAnswers(tb, more, m.knnK, m.knnDist, m.knnW)
			open = want
		}
		more.describe(t, "test data")
		run = func(g base.FixedDataGrid, p []int) ([]string, error) {
			perm := verifsim.NoPermute
			verifsim.NoPermute = true
			ev := t.root(more, false).g
			verifsim.NoPermute = perm
			rand.Seed(1)
			t.cplan(-1, -1)
			runtime.VerifFIFO(true)
			defer runtime.VerifFIFO(false)
			l := m.nw()
			if err := l.fit(g); err != nil {
				return nil, err
			}
			return l.predict(ev)
		}
	}
	t.Descf("operation %s", name)
	tb.describe(t, "data")
	once := func(p []int, drawn bool) (out []string, err error, pi *PanicInfo) {
		var g base.FixedDataGrid = t.root(tb.inOrder(p), false).g
		if drawn {
			t.Descf("rows stored in order %v", p)
			g = t.delivered(g)
		}
		verifsim.NoPermute = !drawn
		pi = t.Try(func() { out, err = run(g, p) })
		verifsim.NoPermute = false
		runtime.VerifFIFO(false)
		return
	}
	id := make([]int, len(tb.rows))
	for i := range id {
		id[i] = i
	}
	a0, e0, p0 := once(id, false)
	if e0 != nil || p0 != nil {
		t.Probe("impossible:" + name)
		t.Logf("impossible: %v %v", e0, p0)
	}
	t.Nontrivial()
	t.Logf("canonical: %q", a0)
	judge := func(a, b []string, what string) {
		bad := len(a) != len(b)
		for i := 0; !bad && i < len(a); i++ {
			bad = a[i] != b[i] && (open == nil || open[i] != "")
		}
		if bad {
			t.Fail(what+":"+name, "%s gave %q and %q", name, b, a)
		}
	}
	if want != nil && e0 == nil && p0 == nil {
		judge(a0, want, "neighbours")
	}
	for i, n := 0, 1+t.D(3); i < n; i++ {
		a, e, p := once(t.perm(len(tb.rows)), true)
		if (e == nil) != (e0 == nil) || (p == nil) != (p0 == nil) {
			t.Fail("order:"+name, "%s ended with (%v, %v) and with the rows in another order with (%v, %v)", name, e0, p0, e, p)
		}
		judge(a, a0, "order")
	}
}

// orderOp are the operations of delivOp whose results, as sets of rows, don't
// depend on where the rows are stored.
func (t *T) orderOp() *delivOp {
	for {
		op := t.delivOp()
		switch op.name {
		case "BinningFilter", "ChiMergeFilter", "BinaryConvertFilter", "FloatConvertFilter", "ConvertAllRowsToMat64":
			run := op.run
			op.run = func(g base.FixedDataGrid) ([]string, error) {
				out, err := run(g)
				sort.Strings(out)
				return out, err
			}
		case "LazySort", "distributions":
		default:
			continue
		}
		if t.P(1, 12) {
			// more rows and more different values
			op.o.minRows, op.o.maxRows, op.o.floats = 30, 150, 0
			t.allow(20)
		}
		return op
	}
}

// clusterMaps compares partitions drawn at random and relabelled.
func (t *T) clusterMaps() {
	n, k := t.D(9), t.R(1, 5)
	label := make([]int, n)
	for i := range label {
		label[i] = t.D(k)
	}
	ids := func() []int {
		p := t.perm(k)
		for i := range p {
			p[i] = p[i]*3 + t.D(3)
		}
		return p
	}
	mk := func(label, id []int, order []int, empty bool) clustering.ClusterMap {
		m := clustering.ClusterMap{}
		for _, p := range order {
			if p < len(label) {
				m[id[label[p]]] = append(m[id[label[p]]], p)
			}
		}
		if empty {
			for _, i := range id {
				if _, ok := m[i]; !ok {
					m[i] = nil
				}
			}
		}
		return m
	}
	empty := t.P(1, 4)
	id := ids()
	a := mk(label, id, t.perm(n), empty)
	other := append([]int{}, label...)
	change := t.D(4)
	switch {
	case change == 1 && n > 0:
		other[t.D(n)] = t.D(k)
	case change == 2 && n > 0:
		other = other[:n-1]
	case change == 3 && n > 0:
		i := t.D(n)
		j := t.D(n)
		other[i], other[j] = other[j], other[i]
	}
	b := mk(other, ids(), t.perm(n), empty)
	twice := t.P(1, 6) && n > 0
	if twice {
		// a point in two clusters, or twice in one
		p := t.D(n)
		c := id[t.D(k)]
		a[c] = append(a[c], p)
	}
	t.Descf("maps %v and %v", a, b)
	t.Nontrivial()
	same := len(a) == len(b) && len(label) == len(other) && !twice
	for i := range other {
		for j := range other {
			same = same && (label[i] == label[j]) == (other[i] == other[j])
		}
	}
	for i := 0; i < 2; i++ {
		var eq, qe bool
		var err, rre error
		t.Must("comparing clusterings", func() {
			eq, err = a.Equals(b)
			qe, rre = b.Equals(a)
		})
		if eq != same || (err == nil) != same || qe != same || (rre == nil) != same {
			t.Fail("cluster-equals", "clusterings %v and %v are the same: %v, called (%v, %v) and (%v, %v)", a, b, same, eq, err, qe, rre)
		}
		var inv map[int]int
		t.Must("inverting a clustering", func() { inv, err = a.Invert() })
		if twice != (err != nil) {
			t.Fail("cluster-invert", "inverting %v: %v", a, err)
		}
		if err == nil {
			if len(inv) != n {
				t.Fail("cluster-invert", "%v inverted is %v", a, inv)
			}
			for p, c := range inv {
				if p < 0 || p >= n || c != id[label[p]] {
					t.Fail("cluster-invert", "%v inverted is %v", a, inv)
				}
			}
		}
	}
}

func runP06(t *T) {
	if t.P(1, 16) {
		t.clusterMaps()
		return
	}
	o := gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 14, kinds: []int{kFloat}, classKind: -1, floats: []int{0, 0, 1, 6}[t.D(4)], prec: -1, degenerate: t.P(1, 4)}
	if t.P(1, 3) {
		o.maxCols = 1
	}
	if t.P(1, 40) {
		o.minRows, o.maxRows = 20, 60
		t.allow(20)
	}
	tb := t.genTable(o)
	n := len(tb.rows)
	p := clustering.DBSCANParameters{Eps: []float64{0.5, 1, 1, 2, 4}[t.D(5)], MinCount: 1 + t.D(6)}
	dn, metric := t.drawDistance()
	p.Metric = metric
	tb.describe(t, "points")
	t.Descf("within %v of %d points, %T", p.Eps, p.MinCount, p.Metric)
	t.Nontrivial()
	// the definition
	var vecs []*mat.Dense
	tb = t.root(tb, false).ref // the columns in the order of the dataset
	for _, r := range tb.rows {
		var v []float64
		for _, c := range r {
			v = append(v, cellFloat(c))
		}
		vecs = append(vecs, mat.NewDense(1, len(v), v))
	}
	near := make([][]bool, n)
	for i := range near {
		near[i] = make([]bool, n)
		for j := range near[i] {
			d := defDistance(dn, vecs[i].RawRowView(0), vecs[j].RawRowView(0))
			if alike(d, p.Eps) {
				// (a question of rounding)
				d = metric.Distance(vecs[i], vecs[j])
				if !alike(d, p.Eps) {
					t.Fail("cluster-distance", "the %s distance of points %d and %d is %v, given as %v", dn, i, j, p.Eps, d)
				}
			}
			near[i][j] = i == j || d <= p.Eps
		}
	}
	core := make([]bool, n)
	comp := make([]int, n)
	for i := range core {
		k := 0
		for j := range near[i] {
			if near[i][j] {
				k++
			}
		}
		core[i] = k >= p.MinCount
		comp[i] = -1
	}
	comps := 0
	var walk func(i int)
	walk = func(i int) {
		comp[i] = comps
		for j := range near[i] {
			if near[i][j] && core[j] && comp[j] < 0 {
				walk(j)
			}
		}
	}
	for i := range core {
		if core[i] && comp[i] < 0 {
			walk(i)
			comps++
		}
	}
	for k, m := 0, 2+t.D(3); k < m; k++ {
		ord := t.perm(n)
		if k == 0 {
			for i := range ord {
				ord[i] = i
			}
		}
		t.Descf("points stored in order %v", ord)
		g := t.delivered(t.root(tb.inOrder(ord), false).g)
		var cm clustering.ClusterMap
		var err error
		q := p
		q.Attributes = g.AllAttributes()
		pi := t.Try(func() { cm, err = clustering.DBSCAN(g, q) })
		if pi != nil {
			t.Fail("panic@"+pi.Where, "clustering: %v", pi)
		}
		if err != nil {
			t.Fail("cluster-error", "clustering reported %v", err)
		}
		in := make([]int, n)
		for i := range in {
			in[i] = -1
		}
		var ids []int
		for id := range cm {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		owner := make([]int, comps)
		for i := range owner {
			owner[i] = -1
		}
		for _, id := range ids {
			c := -1
			for _, r := range cm[id] {
				if r < 0 || r >= n {
					t.Fail("cluster-row", "cluster %d has row %d of %d", id, r, n)
				}
				x := ord[r]
				if in[x] >= 0 {
					t.Fail("cluster-twice", "point %d is in two clusters, or twice in one: %v", x, cm)
				}
				in[x] = id
				if core[x] {
					if c >= 0 && c != comp[x] {
						t.Fail("cluster-joined", "points which are out of reach of each other share cluster %d: %v", id, cm)
					}
					c = comp[x]
				}
			}
			if c < 0 {
				t.Fail("cluster-without-core", "cluster %d has no point with enough others near it: %v", id, cm)
			}
			if owner[c] >= 0 {
				t.Fail("cluster-split", "points within reach of each other are in clusters %d and %d: %v", owner[c], id, cm)
			}
			owner[c] = id
		}
		for x := 0; x < n; x++ {
			ok, y0 := false, -1
			for y := 0; y < n; y++ {
				if near[x][y] && core[y] {
					y0 = y
					ok = ok || owner[comp[y]] == in[x] && in[x] >= 0
				}
			}
			if in[x] >= 0 && !ok {
				t.Fail("cluster-out-of-reach", "point %d is in cluster %d, none of whose dense points is near it: %v", x, in[x], cm)
			}
			if in[x] < 0 && y0 >= 0 {
				t.Fail("cluster-missed", "point %d is near the dense point %d of cluster %d and in no cluster: %v", x, y0, in[y0], cm)
			}
		}
		for _, id := range owner {
			if id < 0 {
				t.Fail("cluster-missing", "a cluster was not found: %v", cm)
			}
		}
	}
}
