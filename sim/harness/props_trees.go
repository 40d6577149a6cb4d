package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
)

func init() {
	register(&Property{ID: "T01", Run: runT01,
		Rule: "a decision tree is grown by a drawn rule from rows delivered in a drawn order, with hash tables walked in drawn orders and, for random trees, a drawn random sequence; its nodes are compared with the training rows that reach them, its answers (also those of several tasks asking at once) with a walk down the tree, and pruning it with drawn rows must not make it less accurate on them nor depend on delivery",
		Real: "trees (growing, rules, pruning, prediction), base (distributions, decomposition, views)", Stub: "a caller-supplied dataset delivers the rows; the random source is seeded"})
	register(&Property{ID: "T02", Run: runT02,
		Rule: "a classification or regression tree is grown to a drawn depth from rows delivered in a drawn order, with hash tables walked in drawn orders; every end of a branch is compared with the training rows that reach it, the answers (also those of several tasks asking at once) and the reported accuracy with a walk down the tree",
		Real: "trees (CART classifier and regressor), base (views, conversion)", Stub: "a caller-supplied dataset delivers the rows"})
	register(&Property{ID: "T03", Run: runT03,
		Rule: "isolation forests of drawn size, depth and sample are trained with drawn random sequences on rows delivered in drawn orders; the scores of these and further rows, asked for in other orders, are translated back into numbers of splits, which must be possible ones, agree for rows that no split can tell apart, and, for one tree over rows that differ in one column, add up to a whole tree over the whole sample",
		Real: "trees (isolation forest), base", Stub: "a caller-supplied dataset delivers the rows; the shared random source is seeded"})
}

// treeVal is the branch a cell takes below a node.
func treeVal(n *trees.DecisionTreeNode, c string) string {
	if n.SplitRule.SplitAttr.GetType() == base.Float64Type {
		if cellFloat(c) > n.SplitRule.SplitVal {
			return "1"
		}
		return "0"
	}
	return n.SplitRule.SplitAttr.GetStringFromSysVal(packCell(c))
}

// treeWalk finds the leaf of a row; "" if it has a value the tree doesn't know.
func treeWalk(n *trees.DecisionTreeNode, tb *table, r int) string {
	for n.Children != nil {
		n2 := n.Children[treeVal(n, tb.rows[r][tb.col(n.SplitRule.SplitAttr.GetName())])]
		if n2 == nil {
			return ""
		}
		n = n2
	}
	return n.Class
}

func copyTree(n *trees.DecisionTreeNode) *trees.DecisionTreeNode {
	c := *n
	if n.Children != nil {
		c.Children = map[string]*trees.DecisionTreeNode{}
		for k, x := range n.Children {
			c.Children[k] = copyTree(x)
		}
	}
	return &c
}

func sortedKids(n *trees.DecisionTreeNode) (ks []string) {
	for k := range n.Children {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// treeNodes compares every node with the rows that reach it.
func (t *T) treeNodes(n *trees.DecisionTreeNode, tb *table, rows []int, used map[string]bool, sure bool, path string) {
	cc := tb.classCol()
	counts := map[string]int{}
	most := 0
	for _, r := range rows {
		c := treeClass(tb, r)
		counts[c]++
		most = max(most, counts[c])
	}
	at := "the root"
	if path != "" {
		at = "the node" + path
	}
	if d := fmt.Sprint(sortedCounts(n.ClassDist)); d != fmt.Sprint(sortedCounts(counts)) {
		t.Fail("node-counts", "%s counts the classes %s, the training rows there are %s", at, d, sortedCounts(counts))
	}
	if counts[n.Class] != most {
		t.Fail("node-class", "%s stands for class %q of the training rows %s there", at, n.Class, sortedCounts(counts))
	}
	if n.Children == nil {
		if len(counts) < 2 || !sure {
			return
		}
		// an attribute that tells the classes apart must have been used
		for i, c := range tb.cols {
			if i == cc || used[c.name] {
				continue
			}
			if c.kind == kFloat {
				type pt struct {
					f float64
					c string
				}
				var ps []pt
				for _, r := range rows {
					ps = append(ps, pt{cellFloat(tb.rows[r][i]), treeClass(tb, r)})
				}
				sort.Slice(ps, func(a, b int) bool { return ps[a].f < ps[b].f })
				k := 0 // the first row of another class
				for k < len(ps) && ps[k].c == ps[0].c {
					k++
				}
				pure := ps[k-1].f < ps[k].f
				for _, p := range ps[k:] {
					pure = pure && p.c == ps[k].c
				}
				if pure {
					t.Fail("unsplit", "%s is a leaf for the training rows %s although column %q divides their classes between %v and %v", at, sortedCounts(counts), c.name, ps[k-1].f, ps[k].f)
				}
				continue
			}
			groups := map[string]string{}
			clean := true
			for _, r := range rows {
				v := tb.rows[r][i]
				if k, ok := groups[v]; ok && k != treeClass(tb, r) {
					clean = false
				}
				groups[v] = treeClass(tb, r)
			}
			if clean {
				t.Fail("unsplit", "%s is a leaf for the training rows %s although column %q tells their classes apart", at, sortedCounts(counts), c.name)
			}
		}
		return
	}
	name := n.SplitRule.SplitAttr.GetName()
	i := tb.col(name)
	if i < 0 || i == cc {
		t.Fail("split-column", "%s is divided by %q", at, name)
	}
	groups := map[string][]int{}
	for _, r := range rows {
		v := treeVal(n, tb.rows[r][i])
		groups[v] = append(groups[v], r)
	}
	u := map[string]bool{name: true}
	for k := range used {
		u[k] = true
	}
	for _, k := range sortedKids(n) {
		if len(groups[k]) == 0 {
			t.Fail("node-rows", "%s has a branch %q of %q which no training row takes", at, k, name)
		}
		t.treeNodes(n.Children[k], tb, groups[k], u, sure, path+" "+name+"="+k)
	}
	for k := range groups {
		if n.Children[k] == nil {
			t.Fail("node-rows", "%s has no branch for the training rows with %q %q", at, name, k)
		}
	}
}

func treeClass(tb *table, r int) string {
	c := tb.classCol()
	return tb.cols[c].newAttr().GetStringFromSysVal(packCell(tb.rows[r][c]))
}

// partOf tells whether a is b with some branches cut off.
func partOf(a, b *trees.DecisionTreeNode) bool {
	if a.Class != b.Class {
		return false
	}
	if a.Children == nil {
		return true
	}
	if len(a.Children) != len(b.Children) || a.SplitRule != b.SplitRule {
		return false
	}
	for k := range a.Children {
		if b.Children[k] == nil || !partOf(a.Children[k], b.Children[k]) {
			return false
		}
	}
	return true
}

func runT01(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 14, classKind: []int{kCat, kCat, kBin}[t.D(3)], minCls: 1, maxCls: 4, nClass: 1,
		kinds: [][]int{{kFloat, kCat}, {kCat}, {kFloat}, {kFloat, kCat, kBin}}[t.D(4)], floats: t.D(2), prec: -1,
		learn: t.P(1, 2), degenerate: t.P(1, 6), unusedVals: t.P(1, 3)}
	if t.P(1, 3) {
		o.prec = 0
	}
	t.enlarge(&o, "fewrows", "fewcols", "long", "fewvals")
	tb := t.genTable(o)
	more := t.moreRows(tb, o, t.few(8))
	name, rule, sure := rules(t)
	if name == "random" {
		rule = trees.NewRandomTree(1 + t.D(3)).Rule
	}
	seed := int64(1 + t.D(1<<20))
	tb.describe(t, "training rows")
	more.describe(t, "pruning rows")
	t.Descf("rule %s", name)
	grow := func() *trees.DecisionTreeNode {
		g := t.delivered(t.root(tb, false).g)
		rand.Seed(seed)
		var n *trees.DecisionTreeNode
		t.Must("growing a tree", func() {
			if name == "random" && t.P(1, 2) {
				rt := trees.NewRandomTree(rule.(*trees.RandomTreeRuleGenerator).Attributes)
				if err := rt.Fit(g); err != nil {
					t.Fail("grow", "%v", err)
				}
				n = rt.Root
				return
			}
			n = trees.InferID3Tree(g, rule)
		})
		return n
	}
	n := grow()
	var text string
	t.Must("printing a tree", func() { text = n.String() })
	t.Descf("%s", strings.ReplaceAll(text, "\n", " "))
	rows := make([]int, len(tb.rows))
	for i := range rows {
		rows[i] = i
	}
	t.treeNodes(n, tb, rows, map[string]bool{}, sure, "")
	if n.Children != nil {
		t.Nontrivial()
		t.Probe("grown-" + name)
	}
	m := grow()
	if s := m.String(); s != text {
		t.Fail("grow-again", "the same rows gave the tree %s and delivered another way %s", text, s)
	}
	// its answers are those of a walk down the tree
	answers := func(n *trees.DecisionTreeNode, of *table) []string {
		g := t.delivered(t.root(of, false).g)
		var out base.FixedDataGrid
		var err error
		t.Must("predicting", func() { out, err = n.Predict(g) })
		if err != nil {
			t.Fail("predict", "%v", err)
		}
		a := readPred(out)
		for r := range of.rows {
			if w := treeWalk(n, of, r); w != "" && w != a[r] {
				t.Fail("walk", "row %d ends in a leaf of class %q and is answered with %q", r, w, a[r])
			}
		}
		return a
	}
	right := func(a []string) (k int) {
		for r := range a {
			if a[r] == treeClass(more, r) {
				k++
			}
		}
		return
	}
	answers(n, tb)
	before := right(answers(n, more))
	// pruning
	p, q := copyTree(n), copyTree(n)
	t.Must("pruning", func() { p.Prune(t.delivered(t.root(more, false).g)) })
	if !partOf(p, n) {
		t.Fail("prune-part", "%s was pruned to %s", text, p)
	}
	after := right(answers(p, more))
	known := true
	for r := range more.rows {
		known = known && treeWalk(n, more, r) != ""
	}
	// rows with values the tree doesn't know take a branch they weren't
	// pruned with
	if known && after < before {
		t.Fail("prune-accuracy", "pruning made a tree answer %d instead of %d of the %d pruning rows correctly: %s became %s", after, before, len(more.rows), text, p)
	}
	if p.String() != text {
		t.Probe("pruned")
	}
	t.Must("pruning", func() {
		if t.P(1, 2) {
			(&trees.RandomTree{Root: q}).Prune(t.delivered(t.root(more, false).g))
		} else {
			q.Prune(t.delivered(t.root(more, false).g))
		}
	})
	if p.String() != q.String() {
		t.Fail("prune-again", "%s was pruned to %s and with the rows delivered another way to %s", text, p, q)
	}
	if t.P(1, 4) {
		g := t.root(more, false).g
		want := fmt.Sprintf("%q", readPredOf(t, n, g))
		ask := func() {
			out, err := n.Predict(g)
			if err != nil {
				t.Fail("predict", "%v", err)
			}
			if a := fmt.Sprintf("%q", readPred(out)); a != want {
				t.Fail("concurrent", "asked by several tasks at once the tree answered %s instead of %s", a, want)
			}
		}
		t.Tasks(ask, ask, ask)
		t.Probe("concurrent")
	}
}

func readPredOf(t *T, n *trees.DecisionTreeNode, g base.FixedDataGrid) []string {
	var a []string
	t.Must("predicting", func() {
		out, err := n.Predict(g)
		if err != nil {
			t.Fail("predict", "%v", err)
		}
		a = readPred(out)
	})
	return a
}

// cart is a tree of either kind, read through its exported fields.
type cart struct{ v reflect.Value }

func (c cart) kid(left bool) (cart, bool) {
	n := "Right"
	if left {
		n = "Left"
	}
	p := c.v.FieldByName(n)
	if p.IsNil() {
		return cart{}, false
	}
	return cart{p.Elem()}, true
}

func (c cart) feature() int       { return int(c.v.FieldByName("Feature").Int()) }
func (c cart) threshold() float64 { return c.v.FieldByName("Threshold").Float() }

// answer is what the end of a branch stands for.
func (c cart) answer(left bool) float64 {
	n := "Right"
	if left {
		n = "Left"
	}
	if f := c.v.FieldByName(n + "Label"); f.IsValid() {
		return float64(f.Int())
	}
	return c.v.FieldByName(n + "Pred").Float()
}

func (c cart) walk(row []float64) float64 {
	for {
		left := row[c.feature()] < c.threshold()
		k, ok := c.kid(left)
		if !ok {
			return c.answer(left)
		}
		c = k
	}
}

type cartRow struct {
	x []float64
	y float64
}

// cartNode compares the ends of the branches below a node with the training
// rows that reach them.
func (t *T) cartNode(c cart, rows []cartRow, labels, root bool, depth, most int, path string) {
	if most >= 0 && depth > most {
		t.Fail("cart-depth", "the tree of depth at most %d goes on below%s", most, path)
	}
	_, l := c.kid(true)
	_, r := c.kid(false)
	// a root that couldn't be divided stands for all rows
	whole := root && !l && !r && c.feature() == 0 && c.threshold() == 0 && c.answer(true) == c.answer(false)
	for _, left := range []bool{true, false} {
		var rs []cartRow
		for _, r := range rows {
			if (r.x[c.feature()] < c.threshold()) == left {
				rs = append(rs, r)
			}
		}
		op := ">="
		if left {
			op = "<"
		}
		p := fmt.Sprintf("%s x%d%s%v", path, c.feature(), op, c.threshold())
		k, ok := c.kid(left)
		if ok {
			if len(rs) == 0 {
				t.Fail("cart-rows", "no training row takes the branch%s", p)
			}
			t.cartNode(k, rs, labels, false, depth+1, most, p)
			continue
		}
		if len(rs) == 0 {
			if !root {
				t.Fail("cart-rows", "no training row takes the branch%s", p)
			}
			rs = rows
		}
		if len(rs) == 0 {
			return
		}
		a := c.answer(left)
		n := map[float64]int{}
		sum := 0.0
		best := 0
		for _, r := range rs {
			n[r.y]++
			best = max(best, n[r.y])
			sum += r.y
		}
		if whole {
			n, best, sum = map[float64]int{}, 0, 0
			for _, r := range rows {
				n[r.y]++
				best = max(best, n[r.y])
				sum += r.y
			}
			if !labels && math.Abs(a-sum/float64(len(rows))) > 1e-9*(1+math.Abs(a)) || labels && n[a] != best {
				t.Fail("cart-root", "the tree answers %v, its %d training rows have the mean %v and %d of that class, %d of another", a, len(rows), sum/float64(len(rows)), n[a], best)
			}
			rs = rows
		} else if labels {
			if n[a] != best {
				t.Fail("cart-label", "the branch%s answers %v although only %d of the %d training rows there are of that class, %d of another", p, a, n[a], len(rs), best)
			}
		} else if mean := sum / float64(len(rs)); math.Abs(a-mean) > 1e-9*(1+math.Abs(mean)) {
			t.Fail("cart-mean", "the branch%s answers %v, the mean of the %d training rows there is %v", p, a, len(rs), mean)
		}
		if len(n) < 2 || len(n) > 2 || (most >= 0 && depth >= most) {
			continue
		}
		// a column that tells the two values apart must have been used
		for i := range rs[0].x {
			sort.SliceStable(rs, func(a, b int) bool { return rs[a].x[i] < rs[b].x[i] })
			k := 0
			for k < len(rs) && rs[k].y == rs[0].y {
				k++
			}
			pure := rs[k-1].x[i] < rs[k].x[i]
			for _, r := range rs[k:] {
				pure = pure && r.y == rs[k].y
			}
			if pure {
				t.Fail("cart-unsplit", "the branch%s ends although column %d tells its %d training rows apart", p, i, len(rs))
			}
		}
	}
}

func runT02(t *T) {
	t.sched(false)
	labels := t.P(1, 2)
	o := gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 14, kinds: []int{kFloat}, classKind: kFloat, nClass: 1, floats: []int{0, 0, 1, 6}[t.D(4)], prec: -1, degenerate: t.P(1, 5)}
	t.enlarge(&o, "fewrows", "fewcols")
	if t.P(1, 20) {
		o.minRows, o.maxRows = 0, 1
	}
	if t.P(1, 20) {
		o.minCols, o.maxCols = 0, 1
	}
	tb := t.genTable(o)
	cc := tb.classCol()
	k := t.R(1, 5)
	for r := range tb.rows {
		if labels || t.P(1, 2) {
			tb.rows[r][cc] = fcell(float64(t.D(k)))
		}
	}
	more := t.moreRows(tb, o, t.few(8))
	for r := range more.rows {
		if labels {
			more.rows[r][cc] = fcell(float64(t.D(k + 1)))
		}
	}
	depth := []int{-1, -1, 1, 2, 3}[t.D(5)]
	tb.describe(t, "training rows")
	more.describe(t, "further rows")
	crit := "gini"
	var names []string
	rowsOf := func(tb *table) (rs []cartRow) {
		for r := range tb.rows {
			x := cartRow{y: cellFloat(tb.rows[r][cc])}
			for _, n := range names {
				x.x = append(x.x, cellFloat(tb.rows[r][tb.col(n)]))
			}
			rs = append(rs, x)
		}
		return
	}
	switch {
	case labels && t.P(1, 2):
		crit = "entropy"
	case !labels:
		crit = []string{"mae", "mse"}[t.D(2)]
	}
	var ls []int64
	for _, i := range t.perm(k) {
		ls = append(ls, int64(i))
	}
	t.Descf("%s, depth %d, labels %v", crit, depth, ls)
	t.Nontrivial()
	type tree struct {
		root    cart
		predict func(g base.FixedDataGrid) []float64
		text    string
		score   func(g base.FixedDataGrid) (float64, error)
	}
	grow := func() *tree {
		g := t.delivered(t.root(tb, false).g)
		names = nil
		for _, s := range base.ResolveAttributes(g, base.NonClassFloatAttributes(g)) {
			names = append(names, s.GetAttribute().GetName())
		}
		var err error
		x := &tree{}
		t.Must("growing a tree", func() {
			if labels {
				c := trees.NewDecisionTreeClassifier(crit, int64(depth), append([]int64{}, ls...))
				if err = c.Fit(g); err == nil {
					x.root = cart{reflect.ValueOf(c.RootNode).Elem()}
					x.text = c.String()
				}
				x.predict = func(g base.FixedDataGrid) (a []float64) {
					for _, l := range c.Predict(g) {
						a = append(a, float64(l))
					}
					return
				}
				x.score = c.Evaluate
				return
			}
			c := trees.NewDecisionTreeRegressor(crit, int64(depth))
			if err = c.Fit(g); err == nil {
				x.root = cart{reflect.ValueOf(c.RootNode).Elem()}
				x.text = c.String()
			}
			x.predict = c.Predict
		})
		if none := len(tb.rows) == 0 || len(names) == 0; none != (err != nil) {
			t.Fail("cart-grow", "growing from %d rows and %d columns: %v", len(tb.rows), len(names), err)
		}
		if err != nil {
			return nil
		}
		return x
	}
	x := grow()
	if x == nil {
		t.Probe("nothing to learn from")
		return
	}
	t.Descf("%s", strings.ReplaceAll(x.text, "\n", " "))
	rs := rowsOf(tb)
	t.cartNode(x.root, rs, labels, true, 1, depth, "")
	if y := grow(); y.text != x.text {
		t.Fail("cart-again", "the same rows gave the tree %s and delivered another way %s", x.text, y.text)
	}
	for _, of := range []*table{tb, more} {
		g := t.delivered(t.root(of, false).g)
		ws := rowsOf(of)
		check := func(g base.FixedDataGrid) {
			var a []float64
			t.Must("predicting", func() { a = x.predict(g) })
			if len(a) != len(ws) {
				t.Fail("cart-walk", "%d answers for %d rows", len(a), len(ws))
			}
			for r, w := range ws {
				if e := x.root.walk(w.x); a[r] != e && !(a[r] != a[r] && e != e) {
					t.Fail("cart-walk", "row %d ends in a branch of %v and is answered with %v", r, e, a[r])
				}
			}
		}
		check(g)
		if labels && len(ws) > 0 {
			right := 0
			for _, w := range ws {
				if x.root.walk(w.x) == w.y {
					right++
				}
			}
			var s float64
			var err error
			t.Must("scoring", func() { s, err = x.score(g) })
			if e := float64(right) / float64(len(ws)); err != nil || s != e {
				t.Fail("cart-score", "the accuracy is %v (%v) instead of %v", s, err, e)
			}
		}
		if t.P(1, 6) {
			p := t.root(of, false).g
			ask := func() { check(p) }
			t.Tasks(ask, ask)
			t.Probe("concurrent")
		}
	}
}

// isoC is the expected number of further splits among n rows.
func isoC(n int) float64 {
	return 2*(math.Log(float64(n-1))+0.5772156649) - 2*float64(n-1)/float64(n)
}

func runT03(t *T) {
	t.sched(false)
	line := t.P(1, 2)
	o := gopt{minCols: 1, maxCols: 3, minRows: 2, maxRows: 9, kinds: []int{kFloat}, classKind: kFloat, nClass: 1, floats: 0, prec: -1, learn: t.P(1, 3)}
	if line {
		o.maxCols = 1
	}
	tb := t.genTable(o)
	vary := 0
	if line {
		// the rows differ in one column at most
		vary = t.D(len(tb.cols))
		for r := range tb.rows {
			for j := range tb.cols {
				if j != vary {
					tb.rows[r][j] = tb.rows[0][j]
				} else {
					tb.rows[r][j] = fcell(float64(t.D(30)) / 2)
				}
			}
		}
	}
	n, depth, sample := 1, t.D(6), t.R(2, 12)
	if !line {
		n = t.R(1, 3)
	}
	tb.describe(t, "training rows")
	t.Descf("%d trees, depth %d, sample %d", n, depth, sample)
	// the rows asked for: those trained with, and copies which lie further
	// out in columns in which they are extreme
	ask := tb.clone()
	var twin []int
	lo, hi := make([]float64, len(tb.cols)), make([]float64, len(tb.cols))
	for j := range tb.cols {
		lo[j], hi[j] = math.Inf(1), math.Inf(-1)
		for r := range tb.rows {
			f := cellFloat(tb.rows[r][j])
			lo[j], hi[j] = math.Min(lo[j], f), math.Max(hi[j], f)
		}
	}
	for r := range tb.rows {
		row := append([]string{}, tb.rows[r]...)
		moved := false
		for j := range row {
			f := cellFloat(row[j])
			if f == hi[j] && t.P(2, 3) {
				row[j], moved = fcell(f+float64(1+t.D(50))), true
			} else if f == lo[j] && t.P(2, 3) {
				row[j], moved = fcell(f-float64(1+t.D(50))), true
			}
		}
		if moved {
			ask.rows = append(ask.rows, row)
			twin = append(twin, r)
		}
	}
	// the lengths of paths that are possible
	possible := map[int64]bool{0: true}
	q := func(f float64) int64 { return int64(math.Round(f * 1e6)) }
	most := depth
	if most < 1 {
		most = 1
	}
	for i := 0; i < n; i++ {
		next := map[int64]bool{}
		for p := range possible {
			for d := 1; d <= most; d++ {
				next[p+q(float64(d))] = true
				for k := 2; k <= sample; k++ {
					next[p+q(float64(d)+isoC(k))] = true
				}
			}
		}
		possible = next
	}
	f := trees.NewIsolationForest(n, depth, sample)
	fits := 1 + t.D(3)
	whole := 0
	for fit := 0; fit < fits; fit++ {
		rand.Seed(int64(1 + t.D(1<<20)))
		t.Must("training", func() { f.Fit(t.delivered(t.root(tb, false).g)) })
		var scores []float64
		t.Must("predicting", func() { scores = f.Predict(t.delivered(t.root(ask, false).g)) })
		if len(scores) != len(ask.rows) {
			t.Fail("predict-rows", "%d scores for %d rows", len(scores), len(ask.rows))
		}
		sum := make([]float64, len(scores))
		for r, s := range scores {
			sum[r] = -math.Log2(s) * isoC(sample) * float64(n)
			if ok := possible[q(sum[r])] || possible[q(sum[r])-1] || possible[q(sum[r])+1] || possible[q(sum[r])-2] || possible[q(sum[r])+2]; !ok {
				t.Fail("score", "row %d has score %v, which means %v splits over %d trees; no path is as long", r, s, sum[r], n)
			}
		}
		for i, r := range twin {
			if math.Abs(scores[r]-scores[len(tb.rows)+i]) > 1e-12 {
				t.Fail("extreme", "row %d has score %v, one that lies further out has %v", r, scores[r], scores[len(tb.rows)+i])
			}
		}
		for r := range tb.rows {
			for u := 0; u < r; u++ {
				if strings.Join(tb.rows[u], "|") == strings.Join(tb.rows[r], "|") && scores[u] != scores[r] {
					t.Fail("same-row", "rows %d and %d are equal, their scores %v and %v aren't", u, r, scores[u], scores[r])
				}
			}
		}
		if line {
			if t.isoLine(tb, vary, sum[:len(tb.rows)], depth, sample) {
				whole++
			}
		}
	}
	distinct := map[string]bool{}
	for r := range tb.rows {
		distinct[strings.Join(tb.rows[r], "|")] = true
	}
	if len(distinct) > 1 {
		t.Nontrivial()
	}
	// no split at all means that all rows of the sample were equal: 1 in
	// 10^13 for 3 samples of 12 from 3 different rows that are as frequent
	if line && depth > 0 && whole == 0 && fits == 3 && sample == 12 && len(distinct) >= 3 && len(distinct) == len(tb.rows) {
		t.Fail("no-split", "%d rows of %d values are never told apart", len(tb.rows), len(distinct))
	}
}

// isoLine decides whether the lengths of the paths of rows that differ in one
// column can be those of a tree over the whole sample. It returns false if
// the tree has no splits.
func (t *T) isoLine(tb *table, vary int, path []float64, depth, sample int) bool {
	at := map[float64]float64{}
	var vals []float64
	for r := range tb.rows {
		v := cellFloat(tb.rows[r][vary])
		if _, ok := at[v]; !ok {
			vals = append(vals, v)
		}
		at[v] = path[r]
	}
	sort.Float64s(vals)
	flat := true
	for _, v := range vals {
		if math.Abs(at[v]-1) > 1e-9 {
			flat = false
		}
	}
	if flat {
		// a tree without splits, or one split between two single rows
		return sample == 2
	}
	// the leaf in which a value lies: depth and number of sampled rows
	type leaf struct{ d, k int }
	leaves := func(p float64) (l []leaf) {
		for d := 1; d <= depth; d++ {
			if math.Abs(p-float64(d)) < 1e-9 {
				l = append(l, leaf{d, 1})
			}
			for k := 2; k <= sample; k++ {
				if math.Abs(p-float64(d)-isoC(k)) < 1e-9 {
					l = append(l, leaf{d, k})
				}
			}
		}
		return
	}
	// states after a value: the leaf it lies in, the share of the tree and
	// of the sample used up
	type state struct {
		l           leaf
		share, rows int
	}
	now := map[state]bool{{}: true}
	for _, v := range vals {
		next := map[state]bool{}
		for s := range now {
			for _, l := range leaves(at[v]) {
				if s.l == l {
					next[s] = true // the same leaf goes on
				}
				u := state{l, s.share + 1<<(depth-l.d), s.rows + l.k}
				if u.share <= 1<<depth && u.rows <= sample {
					next[u] = true
				}
			}
		}
		now = next
	}
	for s := range now {
		if s.share == 1<<depth && s.rows == sample {
			return true
		}
	}
	var d []string
	for _, v := range vals {
		d = append(d, fmt.Sprintf("%v: %.6g", v, at[v]))
	}
	t.Fail("tree", "no tree over %d sampled rows has paths of these lengths: %s", sample, strings.Join(d, ", "))
	return false
}
