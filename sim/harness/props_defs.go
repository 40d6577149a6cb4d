package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{ID: "N03", Run: runN03,
		Rule: "classes of drawn rows and drawn predictions are counted and scored under drawn map orders, several times and from several tasks at once; every score and every printed count is compared with its definition over the rows",
		Real: "evaluation (matrix, scores, printed forms), base (datasets, prediction vectors)", Stub: "hash tables are walked in drawn orders"})
	register(&Property{ID: "N04", Run: runN04,
		Rule: "a linear regression is fitted to rows delivered in drawn orders from reused memory and asked about rows delivered in other ways; its answers are compared with a least-squares solution found here by elimination",
		Real: "linear_models.LinearRegression, base, gonum", Stub: "a caller-supplied dataset delivers the rows"})
	register(&Property{ID: "N05", Run: runN05,
		Rule: "a binning or chi-square filter is trained on some rows of a dataset delivered in drawn orders from reused memory with hash tables walked in drawn orders, and read for all of its rows; the label of every value is compared with the interval it lies in, the intervals of the chi-square filter with the algorithm's definition",
		Real: "filters, base (filtered datasets, sorting, distributions)", Stub: "a caller-supplied dataset delivers the rows"})
	register(&Property{ID: "N07", Run: runN07,
		Rule: "the splitting rules are asked about rows delivered in drawn orders with hash tables walked in drawn orders, and whole CART trees grown; the quality of every split chosen is compared with the best among all candidates, found from the definitions",
		Real: "trees (rules, entropy, Gini, CART), base (distributions)", Stub: "a caller-supplied dataset delivers the rows"})
}

func same64(a, b float64) bool {
	return a == b || a != a && b != b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func runN03(t *T) {
	t.sched(false)
	kind := []int{kCat, kCat, kBin}[t.D(3)]
	o := gopt{minCols: 0, maxCols: 2, minRows: 1, maxRows: 14, classKind: kind, nClass: 1, minCls: 1, maxCls: 5, floats: 0, prec: -1, unusedVals: true, classFirst: true, degenerate: t.P(1, 5)}
	t.enlarge(&o, "fewrows", "classes")
	tb := t.genTable(o)
	cc := tb.classCol()
	n := len(tb.rows)
	pt := &table{cols: tb.cols[cc : cc+1]}
	lbl := func(c string) string { return c[strings.IndexByte(c, ':')+1:] }
	known := t.P(1, 2)
	for r := range tb.rows {
		var c string
		switch {
		case t.P(1, 2):
			c = tb.rows[r][cc]
		case known || kind == kBin:
			c = tb.rows[t.D(n)][cc]
		default:
			k := t.D(len(tb.cols[cc].vals))
			c = ccell(k, tb.cols[cc].vals[k])
		}
		pt.rows = append(pt.rows, []string{c})
	}
	tb.describe(t, "rows")
	pt.describe(t, "predictions")
	t.Nontrivial()
	ref, gen := t.root(tb, false).g, t.root(pt, false).g
	text := func(g base.FixedDataGrid, r int) string { return base.GetClass(g, r) }
	var a, p []string
	t.Must("reading classes", func() {
		for r := 0; r < n; r++ {
			a = append(a, text(ref, r))
			p = append(p, text(gen, r))
			if kind == kCat && (a[r] != lbl(tb.rows[r][cc]) || p[r] != lbl(pt.rows[r][0])) {
				t.Fail("class", "row %d is of class %q and predicted %q, read as %q and %q", r, lbl(tb.rows[r][cc]), lbl(pt.rows[r][0]), a[r], p[r])
			}
		}
	})
	count := func(f func(a, p string) bool) (x float64) {
		for r := range a {
			if f(a[r], p[r]) {
				x++
			}
		}
		return
	}
	var refs, all []string
	subset := true
	for r := range a {
		if !slices.Contains(refs, a[r]) {
			refs = append(refs, a[r])
		}
		if !slices.Contains(all, a[r]) {
			all = append(all, a[r])
		}
	}
	for r := range p {
		if !slices.Contains(all, p[r]) {
			all = append(all, p[r])
			subset = false
		}
	}
	sort.Strings(all)
	ask := func() {
		var c evaluation.ConfusionMatrix
		var err error
		t.Must("counting", func() { c, err = evaluation.GetConfusionMatrix(ref, gen) })
		if err != nil {
			t.Fail("count", "counting %d rows: %v", n, err)
		}
		is := func(what string, got, want float64) {
			if !same64(got, want) {
				t.Fail("score:"+strings.Fields(what)[0], "%s is %v instead of %v; classes %q predicted %q", what, got, want, a, p)
			}
		}
		t.Must("scoring", func() {
			sum := 0.0
			for x := range c {
				for y := range c[x] {
					sum += float64(c[x][y])
					if k := count(func(a, p string) bool { return a == x && p == y }); float64(c[x][y]) != k {
						t.Fail("count", "%d rows of %q predicted %q instead of %v", c[x][y], x, y, k)
					}
				}
			}
			is("total of the matrix", sum, float64(n))
			right := count(func(a, p string) bool { return a == p })
			is("accuracy", evaluation.GetAccuracy(c), right/float64(n))
			is("micro-precision", evaluation.GetMicroPrecision(c), right/float64(n))
			is("micro-recall", evaluation.GetMicroRecall(c), right/float64(n))
			var mp, mr float64
			for _, k := range all {
				tp := count(func(a, p string) bool { return a == k && p == k })
				fp := count(func(a, p string) bool { return a != k && p == k })
				fn := count(func(a, p string) bool { return a == k && p != k })
				tn := count(func(a, p string) bool { return a != k && p != k })
				is("true-positives of "+k, evaluation.GetTruePositives(k, c), tp)
				is("false-positives of "+k, evaluation.GetFalsePositives(k, c), fp)
				is("false-negatives of "+k, evaluation.GetFalseNegatives(k, c), fn)
				is("true-negatives of "+k, evaluation.GetTrueNegatives(k, c), tn)
				pr, re := tp/(tp+fp), tp/(tp+fn)
				is("precision of "+k, evaluation.GetPrecision(k, c), pr)
				is("recall of "+k, evaluation.GetRecall(k, c), re)
				is("F1 of "+k, evaluation.GetF1Score(k, c), 2*pr*re/(pr+re))
				mp += pr
				if slices.Contains(refs, k) {
					mr += re
				}
			}
			if subset {
				is("macro-precision", evaluation.GetMacroPrecision(c), mp/float64(len(refs)))
			}
			is("macro-recall", evaluation.GetMacroRecall(c), mr/float64(len(refs)))
		})
		var s, sh string
		t.Must("printing scores", func() { s, sh = evaluation.GetSummary(c), evaluation.ShowConfusionMatrix(c) })
		for _, l := range strings.Split(s, "\n") {
			f := strings.Fields(l)
			if len(f) != 7 || !slices.Contains(refs, f[0]) {
				continue
			}
			k := f[0]
			tp := count(func(a, p string) bool { return a == k && p == k })
			fp := count(func(a, p string) bool { return a != k && p == k })
			fn := count(func(a, p string) bool { return a == k && p != k })
			tn := count(func(a, p string) bool { return a != k && p != k })
			w := fmt.Sprintf("%s %.0f %.0f %.0f %.4f %.4f %.4f", k, tp, fp, tn, tp/(tp+fp), tp/(tp+fn), 2*(tp/(tp+fp))*(tp/(tp+fn))/(tp/(tp+fp)+tp/(tp+fn)))
			if strings.Join(f, " ") != w {
				t.Fail("summary", "the summary says %q instead of %q", f, w)
			}
		}
		if w := fmt.Sprintf("%.4f", count(func(a, p string) bool { return a == p })/float64(n)); !strings.Contains(s, w) {
			t.Fail("summary", "the accuracy %s isn't in the summary %q", w, s)
		}
		// every count of the matrix is shown in the line of its class
		var cols []string
		shown := 0.0
		for i, l := range strings.Split(sh, "\n") {
			f := strings.Fields(l)
			if i == 0 && len(f) > 2 {
				cols = f[2:]
				continue
			}
			if len(f) != len(cols)+1 || !slices.Contains(refs, f[0]) {
				continue
			}
			for j, x := range f[1:] {
				w := count(func(a, p string) bool { return a == f[0] && p == cols[j] })
				if x != strconv.Itoa(int(w)) {
					t.Fail("shown", "the matrix is shown with %s rows of %q predicted %q instead of %v:\n%s", x, f[0], cols[j], w, sh)
				}
				shown += w
			}
		}
		if shown != float64(n) {
			t.Fail("shown", "the matrix shows %v of %d rows:\n%s", shown, n, sh)
		}
	}
	ask()
	if t.P(1, 6) {
		t.Tasks(ask, ask)
		t.Probe("concurrent")
	}
}

// leastSquares solves the normal equations of rows with a constant column; ok
// is false where rounding would decide the outcome.
func leastSquares(x [][]float64, y []float64) (b []float64, ok bool) {
	n := len(x[0])
	m := make([][]float64, n)
	for i := range m {
		m[i] = make([]float64, n+1)
		for r := range x {
			for j := range m {
				m[i][j] += x[r][i] * x[r][j]
			}
			m[i][n] += x[r][i] * y[r]
		}
	}
	// scaled to a diagonal of ones
	s := make([]float64, n)
	for i := range m {
		s[i] = math.Sqrt(m[i][i])
		if s[i] == 0 {
			return nil, false
		}
	}
	for i := range m {
		for j := range m {
			m[i][j] /= s[i] * s[j]
		}
		m[i][n] /= s[i]
	}
	for i := range m {
		k := i
		for j := i; j < n; j++ {
			if math.Abs(m[j][i]) > math.Abs(m[k][i]) {
				k = j
			}
		}
		m[i], m[k] = m[k], m[i]
		if math.Abs(m[i][i]) < 1e-4 {
			return nil, false
		}
		for j := range m {
			if j != i {
				f := m[j][i] / m[i][i]
				for l := i; l <= n; l++ {
					m[j][l] -= f * m[i][l]
				}
			}
		}
	}
	for i := range m {
		b = append(b, m[i][n]/m[i][i]/s[i])
	}
	return b, true
}

func runN04(t *T) {
	t.sched(false)
	o := gopt{minCols: 0, maxCols: 4, minRows: 1, maxRows: 14, classKind: kFloat, nClass: 1, floats: t.D(2), prec: -1, classFirst: true}
	if t.P(2, 3) {
		o.kinds = []int{kFloat}
	}
	if t.P(1, 16) {
		o.classKind, o.minCls, o.maxCls = []int{kCat, kBin}[t.D(2)], 1, 3
	}
	t.enlarge(&o, "fewrows", "fewcols")
	tb := t.genTable(o)
	cc := tb.classCol()
	if o.classKind == kFloat {
		for r := range tb.rows {
			tb.rows[r][cc] = fcell(float64(t.D(2001)-1000) / 8)
		}
	}
	more := t.moreRows(tb, o, t.few(8))
	var xs []int
	for i, c := range tb.cols {
		if i != cc && c.kind == kFloat {
			xs = append(xs, i)
			// columns are in all kinds of units
			if t.P(1, 6) {
				f := []float64{1e-8, 1e-5, 1e-3, 1e4, 1e7}[t.D(5)]
				for _, tb := range []*table{tb, more} {
					for _, row := range tb.rows {
						row[i] = fcell(cellFloat(row[i]) * f)
					}
				}
			}
		}
	}
	tb.describe(t, "training rows")
	more.describe(t, "further rows")
	g := t.delivered(t.root(tb, false).g)
	row := func(tb *table, r int) []float64 {
		v := []float64{1}
		for _, i := range xs {
			v = append(v, cellFloat(tb.rows[r][i]))
		}
		return v
	}
	lr := linear_models.NewLinearRegression()
	var err error
	pi := t.Try(func() { err = lr.Fit(g) })
	if pi != nil {
		t.Fail("panic@"+pi.Where, "fitting a regression: %v", pi)
	}
	if o.classKind != kFloat {
		t.Probe("no number to predict")
		t.Nontrivial()
		if err == nil {
			t.Fail("not-a-number", "a regression was fitted to a class column which has no numbers")
		}
		return
	}
	few := len(tb.rows) < len(xs)+1
	if few != (err != nil) {
		t.Fail("fit-error", "fitting %d coefficients to %d rows: %v", len(xs)+1, len(tb.rows), err)
	}
	if few {
		t.Probe("too few rows")
		return
	}
	var x [][]float64
	var y []float64
	for r := range tb.rows {
		x = append(x, row(tb, r))
		y = append(y, cellFloat(tb.rows[r][cc]))
	}
	b, ok := leastSquares(x, y)
	if !ok {
		t.Probe("no single solution")
		return
	}
	t.Nontrivial()
	scale := 1.0
	for _, v := range y {
		scale = math.Max(scale, math.Abs(v))
	}
	for _, of := range []*table{tb, more} {
		g := t.delivered(t.root(of, false).g)
		check := func(g base.FixedDataGrid) {
			var p base.FixedDataGrid
			var err error
			t.Must("predicting", func() { p, err = lr.Predict(g) })
			if err != nil {
				t.Fail("predict-error", "predicting: %v", err)
			}
			var got []float64
			t.Must("reading answers", func() {
				s := base.ResolveAttributes(p, p.AllClassAttributes())
				_, n := p.Size()
				for r := 0; r < n; r++ {
					got = append(got, base.UnpackBytesToFloat(p.Get(s[0], r)))
				}
			})
			if len(got) != len(of.rows) {
				t.Fail("predict-rows", "%d answers for %d rows", len(got), len(of.rows))
			}
			for r := range of.rows {
				e, m := 0.0, scale
				for i, v := range row(of, r) {
					e += b[i] * v
					m = math.Max(m, math.Abs(b[i]*v))
				}
				if !(math.Abs(got[r]-e) <= 1e-6*m) {
					t.Fail("least-squares", "row %v is answered with %v, the least-squares solution %v says %v", row(of, r), got[r], b, e)
				}
			}
		}
		check(g)
		if t.P(1, 6) {
			p := t.root(of, false).g
			ask := func() { check(p) }
			t.Tasks(ask, ask)
			t.Probe("concurrent")
		}
	}
}

// chiEntry is an interval of the chi-square filter: its lower end and the
// classes of the rows in it.
type chiEntry struct {
	v float64
	n map[string]float64
}

func chiStat(a, b chiEntry) (x float64) {
	tot := func(e chiEntry) (s float64) {
		for _, k := range sortedKeys64(e.n) {
			s += e.n[k]
		}
		return
	}
	ta, tb := tot(a), tot(b)
	ks := map[string]float64{}
	for k := range a.n {
		ks[k] = 0
	}
	for k := range b.n {
		ks[k] = 0
	}
	for _, k := range sortedKeys64(ks) {
		c := a.n[k] + b.n[k]
		for _, y := range [][2]float64{{a.n[k], ta}, {b.n[k], tb}} {
			e := c * y[1] / (ta + tb)
			x += (y[0] - e) * (y[0] - e) / math.Max(e, 0.5)
		}
	}
	return
}

func sortedKeys64(m map[string]float64) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// chiBelow is the share of the chi-square distribution below a value.
func chiBelow(k int, x float64) float64 {
	switch k {
	case 0:
		return 0 // (there is no difference between one and the same class)
	case 1:
		return math.Erf(math.Sqrt(x / 2))
	case 2:
		return 1 - math.Exp(-x/2)
	}
	f := float64(k - 2)
	return chiBelow(k-2, x) - math.Pow(x/2, f/2)*math.Exp(-x/2)/math.Gamma(f/2+1)
}

// chiIntervals merges the values of a column by the definition; ok is false
// where rounding would decide the outcome.
func chiIntervals(vals []float64, classes []string, sig float64) (es []chiEntry, ok bool) {
	at := make([]int, len(vals))
	for i := range at {
		at[i] = i
	}
	sort.SliceStable(at, func(i, j int) bool { return vals[at[i]] < vals[at[j]] })
	all := map[string]bool{}
	for _, i := range at {
		if len(es) == 0 || es[len(es)-1].v != vals[i] {
			es = append(es, chiEntry{vals[i], map[string]float64{}})
		}
		es[len(es)-1].n[classes[i]]++
		all[classes[i]] = true
	}
	for len(es) > 2 {
		var x []float64
		low := math.Inf(1)
		for i := 0; i+1 < len(es); i++ {
			x = append(x, chiStat(es[i], es[i+1]))
			low = math.Min(low, x[i])
		}
		if s := chiBelow(len(all)-1, low); math.Abs(s-sig) < 0.02 {
			return nil, false
		} else if s >= sig {
			break
		}
		var out []chiEntry
		merges := 0
		for i := range es {
			if i > 0 && x[i-1] <= low+1e-9 {
				if low > 1e-12 {
					merges++
				}
				for k, c := range es[i].n {
					out[len(out)-1].n[k] += c
				}
				continue
			}
			out = append(out, chiEntry{es[i].v, map[string]float64{}})
			for k, c := range es[i].n {
				out[len(out)-1].n[k] += c
			}
		}
		if merges > 1 {
			return nil, false
		}
		es = out
	}
	return es, true
}

func runN05(t *T) {
	t.sched(false)
	chi := t.P(1, 2)
	o := gopt{minCols: 1, maxCols: 3, minRows: 1, maxRows: 16, classKind: kCat, nClass: 1, minCls: 1, maxCls: 3, floats: []int{0, 0, 1, 5, 6}[t.D(5)], prec: -1, learn: t.P(1, 2), degenerate: t.P(1, 8), classFirst: true}
	if t.P(1, 2) {
		o.kinds = []int{kFloat}
	}
	if !chi && t.P(1, 4) {
		o.classKind = kFloat
	}
	t.enlarge(&o, "fewrows")
	tb := t.genTable(o)
	n := len(tb.rows)
	tg := t.root(tb, false)
	tb.describe(t, "rows")
	var g base.FixedDataGrid = tg.g
	// the rows trained on
	vis := t.subset(n, 1, nil)
	if t.P(1, 3) {
		vis = t.perm(n)
	}
	var tr base.FixedDataGrid
	t.Must("making a view", func() {
		tr = base.NewInstancesViewFromVisible(g, append([]int{}, vis...), g.AllAttributes())
	})
	tr = t.delivered(tr)
	bins, sig := t.R(1, 7), []float64{0.5, 0.8, 0.9, 0.95, 0.99}[t.D(5)]
	t.Descf("trained on rows %v, chi-square %v, significance %v, %d bins", vis, chi, sig, bins)
	var f base.Filter
	if chi {
		f = filters.NewChiMergeFilter(tr, sig)
	} else {
		f = filters.NewBinningFilter(tr, bins)
	}
	on := map[string]bool{}
	var err error
	t.Must("preparing a filter", func() {
		for _, a := range g.AllAttributes() {
			if fa, ok := a.(*base.FloatAttribute); ok && t.P(4, 5) && !t.isClass(g, a) {
				on[fa.GetName()] = true
				if err == nil {
					err = f.AddAttribute(a)
				}
			}
		}
	})
	if err == nil {
		t.Must("training a filter", func() { err = f.Train() })
	}
	if err != nil {
		t.Fail("train-error", "training a filter: %v", err)
	}
	var l base.FixedDataGrid
	t.Must("filtering", func() { l = base.NewLazilyFilteredInstances(g, f) })
	t.Nontrivial()
	cc := tb.classCol()
	for i, c := range tb.cols {
		var got, labels []string
		name := c.name
		pi := t.Try(func() {
			for _, a := range l.AllAttributes() {
				if a.GetName() != name {
					continue
				}
				s, err := l.GetAttribute(a)
				if err != nil {
					t.Fail("column", "column %q of the filtered dataset: %v", name, err)
				}
				for r := 0; r < n; r++ {
					got = append(got, a.GetStringFromSysVal(l.Get(s, r)))
				}
				if ca, ok := a.(*base.CategoricalAttribute); ok {
					labels = ca.GetValues()
				}
				if on[name] != (a.GetType() == base.CategoricalType) && c.kind == kFloat {
					t.Fail("column", "column %q, to be put in bins: %v, is now %v", name, on[name], a)
				}
			}
		})
		if pi != nil {
			t.Fail("panic@"+pi.Where, "reading column %q of the filtered dataset, put in bins %v: %v", name, on[name], pi)
		}
		if len(got) != n {
			t.Fail("column", "column %q is read %d times for %d rows", name, len(got), n)
		}
		if !on[name] {
			continue
		}
		var vals []float64
		var cls []string
		for _, r := range vis {
			vals = append(vals, cellFloat(tb.rows[r][i]))
			cls = append(cls, tb.rows[r][cc])
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, v := range vals {
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
		at := func(r int) int {
			for k, x := range labels {
				if x == got[r] {
					return k
				}
			}
			t.Fail("label", "row %d of column %q has the label %q which isn't one of %q", r, name, got[r], labels)
			return 0
		}
		if !chi {
			w := (hi - lo) / float64(bins)
			if !(w > 1e-100) {
				for r := range got {
					if at(r) != 0 {
						t.Fail("bin", "column %q is %v in all rows trained on, row %d has the label %q of %q", name, lo, r, got[r], labels)
					}
				}
				continue
			}
			if len(labels) != bins+1 {
				t.Fail("bins", "column %q from %v to %v in %d bins has the labels %q", name, lo, hi, bins, labels)
			}
			for k, s := range labels {
				x, err := strconv.ParseFloat(s, 64)
				if e := lo + float64(k)*w; err != nil || math.Abs(x-e) > 1 {
					t.Fail("label", "bin %d from %v is labelled %q", k, e, s)
				}
			}
			for r := range got {
				x := (cellFloat(tb.rows[r][i]) - lo) / w
				ok := false
				for _, y := range []float64{x - 1e-6, x, x + 2e-4} {
					k := math.Max(0, math.Min(float64(bins), math.Floor(y)))
					ok = ok || int(k) == at(r)
				}
				if !ok {
					t.Fail("bin", "column %q from %v to %v in %d bins: %v in row %d has the label %q of %q", name, lo, hi, bins, cellFloat(tb.rows[r][i]), r, got[r], labels)
				}
			}
			continue
		}
		es, ok := chiIntervals(vals, cls, sig)
		if !ok {
			t.Probe("chi-open")
			continue
		}
		t.Probe(fmt.Sprintf("chi-intervals-%d", min(len(es), 5)))
		if len(es) != len(labels) {
			t.Fail("intervals", "column %q has %d intervals %q instead of %d %v", name, len(labels), labels, len(es), es)
		}
		for k, s := range labels {
			if x, err := strconv.ParseFloat(s, 64); err != nil || math.Abs(x-es[k].v) > 1e-6 {
				t.Fail("interval", "interval %d from %v is labelled %q", k, es[k].v, s)
			}
		}
		for r := range got {
			v := cellFloat(tb.rows[r][i])
			k := 0
			for k+1 < len(es) && es[k+1].v <= v {
				k++
			}
			if at(r) != k {
				t.Fail("interval", "%v in row %d of column %q has the label %q of %q", v, r, name, got[r], labels)
			}
		}
	}
}

func (t *T) isClass(g base.FixedDataGrid, a base.Attribute) bool {
	for _, c := range g.AllClassAttributes() {
		if c == a {
			return true
		}
	}
	return false
}

// plog is a share of entropy.
func plog(n, of float64) float64 {
	if n == 0 {
		return 0
	}
	return -n / of * math.Log2(n/of)
}

// splitScores are the information gain, gain ratio and negated average Gini
// index of dividing rows into parts.
func splitScores(part, class []string) (gain, ratio, gini float64) {
	n := float64(len(part))
	ps, cs, pc := map[string]float64{}, map[string]float64{}, map[[2]string]float64{}
	for i := range part {
		ps[part[i]]++
		cs[class[i]]++
		pc[[2]string{part[i], class[i]}]++
	}
	var sizes, joint, whole float64
	for _, k := range sortedKeys64(cs) {
		whole += plog(cs[k], n)
	}
	for _, p := range sortedKeys64(ps) {
		sizes += plog(ps[p], n)
		g := 1.0
		for _, k := range sortedKeys64(cs) {
			x := pc[[2]string{p, k}]
			joint += plog(x, n)
			g -= x / ps[p] * x / ps[p]
		}
		gini += ps[p] / n * g
	}
	gain = whole - (joint - sizes)
	ratio = 0
	if sizes > 0 {
		ratio = gain / sizes
	}
	return gain, ratio, -gini
}

func runN07(t *T) {
	t.sched(false)
	if t.P(1, 3) {
		t.cartSplits()
		return
	}
	o := gopt{minCols: 1, maxCols: 4, minRows: 2, maxRows: 14, classKind: []int{kCat, kCat, kBin}[t.D(3)], nClass: 1, minCls: 2, maxCls: 3, floats: []int{0, 0, 1, 6}[t.D(4)], prec: -1, classFirst: true, learn: t.P(1, 2), degenerate: t.P(1, 6), unusedVals: true}
	if t.P(1, 3) {
		o.kinds = []int{kFloat}
	}
	t.enlarge(&o, "fewrows", "fewcols")
	tb := t.genTable(o)
	tb.describe(t, "rows")
	cc := tb.classCol()
	n := len(tb.rows)
	var class []string
	for _, r := range tb.rows {
		class = append(class, r[cc])
	}
	t.Nontrivial()
	which := t.D(3)
	var rule trees.RuleGenerator
	var pick func(as []base.Attribute, g base.FixedDataGrid) *trees.DecisionTreeRule
	switch which {
	case 0:
		r := new(trees.InformationGainRuleGenerator)
		rule, pick = r, r.GetSplitRuleFromSelection
	case 1:
		r := new(trees.InformationGainRatioRuleGenerator)
		rule, pick = r, r.GetSplitRuleFromSelection
	default:
		r := new(trees.GiniCoefficientRuleGenerator)
		rule, pick = r, r.GetSplitRuleFromSelection
	}
	what := []string{"information gain", "gain ratio", "Gini index"}[which]
	score := func(part []string) float64 {
		a, b, c := splitScores(part, class)
		return []float64{a, b, c}[which]
	}
	// the candidates: for a column of numbers, thresholds of least entropy
	type cand struct{ lo, hi float64 }
	cands := map[string]*cand{}
	gains := map[string]float64{}
	parts := func(i int, th float64) (p []string) {
		for _, r := range tb.rows {
			if tb.cols[i].kind != kFloat {
				p = append(p, r[i])
			} else if cellFloat(r[i]) > th {
				p = append(p, "1")
			} else {
				p = append(p, "0")
			}
		}
		return
	}
	for i, c := range tb.cols {
		if i == cc {
			continue
		}
		if c.kind != kFloat {
			s := score(parts(i, 0))
			cands[c.name] = &cand{s, s}
			continue
		}
		var vs []float64
		for _, r := range tb.rows {
			vs = append(vs, cellFloat(r[i]))
		}
		sort.Float64s(vs)
		best := math.Inf(-1)
		var ths []float64
		for k := 0; k+1 < n; k++ {
			th := (vs[k] + vs[k+1]) / 2
			if vs[k] == vs[k+1] {
				continue
			}
			ths = append(ths, th)
			g, _, _ := splitScores(parts(i, th), class)
			best = math.Max(best, g)
		}
		gains[c.name] = best
		for _, th := range ths {
			g, _, _ := splitScores(parts(i, th), class)
			if g < best-1e-9 {
				continue
			}
			s := score(parts(i, th))
			if cands[c.name] == nil {
				cands[c.name] = &cand{s, s}
			}
			cands[c.name].lo = math.Min(cands[c.name].lo, s)
			cands[c.name].hi = math.Max(cands[c.name].hi, s)
		}
	}
	for k, m := 0, 1+t.D(2); k < m; k++ {
		root := t.root(tb, false)
		g := t.delivered(root.g)
		var r *trees.DecisionTreeRule
		sel := map[string]bool{}
		t.Must("choosing a split", func() {
			if t.P(1, 2) {
				for _, a := range base.NonClassAttributes(g) {
					sel[a.GetName()] = true
				}
				r = rule.GenerateSplitRule(g)
				return
			}
			as := base.NonClassAttributes(g)
			var few []base.Attribute
			for _, i := range t.subset(len(as), 1, nil) {
				few = append(few, as[i])
				sel[as[i].GetName()] = true
			}
			r = pick(few, g)
		})
		best := math.Inf(-1)
		at := ""
		for _, c := range tb.cols {
			if x := cands[c.name]; sel[c.name] && x != nil && x.lo > best {
				best, at = x.lo, c.name
			}
		}
		t.Descf("%s, columns %v, best %q with %v", what, sel, at, best)
		if r == nil || r.SplitAttr == nil {
			if at != "" && (best > 1e-9 || which == 2) {
				t.Fail("no-split:"+what, "no column is chosen by %s although %q has %v", what, at, best)
			}
			continue
		}
		name := r.SplitAttr.GetName()
		if !sel[name] || cands[name] == nil {
			t.Fail("no-candidate:"+what, "column %q is chosen by %s although it can't be divided", name, what)
		}
		i := tb.col(name)
		if tb.cols[i].kind == kFloat {
			p := parts(i, r.SplitVal)
			if gn, _, _ := splitScores(p, class); !(gn >= gains[name]-1e-9) {
				t.Fail("threshold", "column %q is divided at %v, which gains %v, another threshold %v", name, r.SplitVal, gn, gains[name])
			}
		}
		if s := score(parts(i, r.SplitVal)); !(s >= best-1e-9) {
			t.Fail("not-best:"+what, "by %s column %q is chosen, which has %v; column %q has %v", what, name, s, at, best)
		}
	}
}

// cartLoss is the impurity of rows.
func cartLoss(crit string, rs []cartRow) (x float64) {
	n := map[float64]float64{}
	mean := 0.0
	for _, r := range rs {
		n[r.y]++
		mean += r.y / float64(len(rs))
	}
	switch crit {
	case "mse":
		for _, r := range rs {
			x += (r.y - mean) * (r.y - mean) / float64(len(rs))
		}
		return
	case "mae":
		for _, r := range rs {
			x += math.Abs(r.y-mean) / float64(len(rs))
		}
		return
	}
	var ys []float64
	for y := range n {
		ys = append(ys, y)
	}
	sort.Float64s(ys)
	for _, y := range ys {
		if p := n[y] / float64(len(rs)); crit == "gini" {
			x += p * (1 - p)
		} else {
			x += plog(n[y], float64(len(rs)))
		}
	}
	return
}

func cartSplit(crit string, rs []cartRow, i int, th float64) (loss float64, l, r []cartRow) {
	for _, x := range rs {
		if x.x[i] < th {
			l = append(l, x)
		} else {
			r = append(r, x)
		}
	}
	if len(l) == 0 || len(r) == 0 {
		return math.Inf(1), l, r
	}
	n := float64(len(rs))
	return cartLoss(crit, l)*float64(len(l))/n + cartLoss(crit, r)*float64(len(r))/n, l, r
}

// bestSplit is the least loss any split leaves.
func bestSplit(crit string, rs []cartRow) (loss float64, how string) {
	loss = math.Inf(1)
	for i := range rs[0].x {
		var vs []float64
		for _, r := range rs {
			vs = append(vs, r.x[i])
		}
		sort.Float64s(vs)
		for k := 0; k+1 < len(vs); k++ {
			if vs[k] == vs[k+1] {
				continue
			}
			th := (vs[k] + vs[k+1]) / 2
			if x, _, _ := cartSplit(crit, rs, i, th); x < loss {
				loss, how = x, fmt.Sprintf("x%d < %v", i, th)
			}
		}
	}
	return
}

func (t *T) cartBest(c cart, crit string, rs []cartRow, root bool, depth, most int, path string) {
	_, l := c.kid(true)
	_, r := c.kid(false)
	whole := cartLoss(crit, rs)
	got, lr, rr := cartSplit(crit, rs, c.feature(), c.threshold())
	best, how := bestSplit(crit, rs)
	if root && !l && !r && (len(lr) == 0 || len(rr) == 0 || c.feature() == 0 && c.threshold() == 0 && c.answer(true) == c.answer(false) && best >= whole-1e-9*(1+whole)) {
		if best < whole-1e-9*(1+whole) {
			t.Fail("undivided:"+crit, "the root isn't divided although %s brings %s from %v to %v", how, crit, whole, best)
		}
		return
	}
	if !(got <= best+1e-9*(1+whole)) {
		t.Fail("not-best:"+crit, "the rows below%s are divided by x%d < %v, which leaves %s %v of %v, %s leaves %v", path, c.feature(), c.threshold(), crit, got, whole, how, best)
	}
	for _, left := range []bool{true, false} {
		sub, op := rr, ">="
		if left {
			sub, op = lr, "<"
		}
		p := fmt.Sprintf("%s x%d%s%v", path, c.feature(), op, c.threshold())
		if k, ok := c.kid(left); ok {
			t.cartBest(k, crit, sub, false, depth+1, most, p)
			continue
		}
		if len(sub) == 0 || most >= 0 && depth >= most {
			continue
		}
		w := cartLoss(crit, sub)
		if b, how := bestSplit(crit, sub); b < w-1e-9*(1+whole) {
			t.Fail("undivided:"+crit, "the branch%s ends although %s brings %s from %v to %v", p, how, crit, w, b)
		}
	}
}

func (t *T) cartSplits() {
	labels := t.P(1, 2)
	o := gopt{minCols: 1, maxCols: 3, minRows: 2, maxRows: 12, kinds: []int{kFloat}, classKind: kFloat, nClass: 1, floats: []int{0, 0, 1}[t.D(3)], prec: -1, degenerate: t.P(1, 8)}
	tb := t.genTable(o)
	cc := tb.classCol()
	k := t.R(1, 4)
	for r := range tb.rows {
		if labels || t.P(1, 2) {
			tb.rows[r][cc] = fcell(float64(t.D(k)))
		} else {
			tb.rows[r][cc] = fcell(float64(t.D(64)) / 4)
		}
	}
	depth := []int{-1, -1, 1, 2, 3}[t.D(5)]
	tb.describe(t, "training rows")
	crit := []string{"mae", "mse"}[t.D(2)]
	if labels {
		crit = []string{"gini", "entropy"}[t.D(2)]
	}
	var ls []int64
	for _, i := range t.perm(k) {
		ls = append(ls, int64(i))
	}
	t.Descf("%s, depth %d, labels %v", crit, depth, ls)
	t.Nontrivial()
	g := t.delivered(t.root(tb, false).g)
	var names []string
	var c cart
	var err error
	text := ""
	t.Must("growing a tree", func() {
		for _, s := range base.ResolveAttributes(g, base.NonClassFloatAttributes(g)) {
			names = append(names, s.GetAttribute().GetName())
		}
		if labels {
			x := trees.NewDecisionTreeClassifier(crit, int64(depth), ls)
			if err = x.Fit(g); err == nil {
				c, text = cart{reflect.ValueOf(x.RootNode).Elem()}, x.String()
			}
			return
		}
		x := trees.NewDecisionTreeRegressor(crit, int64(depth))
		if err = x.Fit(g); err == nil {
			c, text = cart{reflect.ValueOf(x.RootNode).Elem()}, x.String()
		}
	})
	if err != nil {
		t.Fail("cart-grow", "growing a tree: %v", err)
	}
	t.Descf("%s", strings.ReplaceAll(text, "\n", " "))
	var rs []cartRow
	for _, r := range tb.rows {
		x := cartRow{y: cellFloat(r[cc])}
		for _, n := range names {
			x.x = append(x.x, cellFloat(r[tb.col(n)]))
		}
		rs = append(rs, x)
	}
	t.cartBest(c, crit, rs, true, 1, depth, "")
}
