package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{ID: "V02", Run: runV02,
		Rule: "a drawn history of views, writes, extensions and changes of the class columns; after every step drawn summaries of drawn grids (class of a row, class distributions plain, by code, by threshold and by value, float rows, columns by name and role, prediction vectors, confusion counts, compatibility, printed forms) are compared with a scan of the reference table, under drawn map orders and from several tasks at once",
		Real: "base (util_instances, util_attributes, conversion, dense, view, filtered, mat), evaluation",
		Stub: "none; the caller tasks are the simulator's",
	})
}

func runV02(t *T) {
	t.sched(false)
	o := gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, classKind: []int{kCat, kCat, kBin, kFloat}[t.D(4)], nClass: 1, minCls: 1, maxCls: 4,
		floats: t.D(4), names: t.D(2), prec: -1, classFirst: true, unusedVals: t.P(1, 2)}
	if t.P(1, 12) {
		o.nClass = 2
	}
	t.enlarge(&o, "rows", "fewrows", "cols", "vals", "long")
	var live []*vgrid
	if t.P(1, 10) {
		live = append(live, t.matRoot())
	} else if t.P(1, 10) {
		live = append(live, t.frameRoot())
	} else {
		live = append(live, t.root(t.genTable(o), true))
	}
	live[0].ref.describe(t, "dataset ("+live[0].kind+")")
	for i, n := 0, t.R(1, 5); i < n; i++ {
		v := live[t.D(len(live))]
		switch t.D(4) {
		case 0:
			w := t.stack(v, viewOpt{filters: true, copies: true, keepClass: true})
			t.Descf("op: %s", w.desc[len(w.desc)-1])
			live = append(live, w)
			t.Probe("op-" + w.kind)
		case 1:
			t.v02write(v)
		}
		for k, m := 0, t.R(1, 3); k < m; k++ {
			w := live[t.D(len(live))]
			t.summary(w, w.expect())()
		}
	}
	if t.P(1, 3) {
		// several tasks ask at once
		var fs []func()
		for i := 0; i < 3; i++ {
			w := live[t.D(len(live))]
			f := t.summary(w, w.expect())
			g := t.summary(w, w.expect())
			fs = append(fs, func() { f(); g() })
		}
		t.Tasks(fs...)
		t.Probe("concurrent")
	}
	if t.P(1, 3) {
		t.compare(live[t.D(len(live))])
	}
}

// v02write changes a dataset through its own operations.
func (t *T) v02write(v *vgrid) {
	cur := v.expect()
	n := len(cur.rows)
	if v.dense == nil || n == 0 {
		return
	}
	attrs := v.g.AllAttributes()
	c := cur.classCol()
	if c >= 0 && len(cur.classNames()) == 1 && t.P(1, 2) {
		r := t.D(n)
		cell := t.genCell(cur.cols[c])
		if cur.cols[c].kind == kFloat {
			cell = fcell(float64(t.D(4)))
		}
		s := attrs[c].GetStringFromSysVal(packCell(cell))
		t.Descf("op: class of row %d := %q", r, s)
		t.Must("SetClass", func() { base.SetClass(v.dense, r, s) })
		v.ref.rows[r][c] = cell
		t.Probe("op-setclass")
		if d := diff(v.expect(), t.snap(v.kind, v.g), cmpOpt{ordered: true}); d != "" {
			t.Fail("setclass", "after setting the class of row %d to %q: %s", r, s, d)
		}
		return
	}
	if t.P(1, 4) {
		i := t.D(len(cur.cols))
		add := t.P(1, 2)
		t.Descf("op: class %v %q", add, cur.cols[i].name)
		var err error
		t.Must("class attribute", func() {
			if add {
				err = v.g.AddClassAttribute(attrs[i])
			} else {
				err = v.g.RemoveClassAttribute(attrs[i])
			}
		})
		if err != nil {
			t.Fail("class-op", "%v", err)
		}
		v.class[cur.cols[i].name] = add
		t.Probe("op-class")
		return
	}
	r, i := t.D(n), t.D(len(cur.cols))
	cell := t.genCell(cur.cols[i])
	t.Descf("op: write row %d column %q := %s", r, cur.cols[i].name, showCell(cell))
	t.Must("Set", func() {
		s, err := v.g.GetAttribute(attrs[i])
		if err != nil {
			t.Fail("get-attribute", "%v", err)
		}
		v.dense.Set(s, r, packCell(cell))
	})
	v.ref.rows[r][i] = cell
	t.Probe("op-set")
}

// counts2 writes nested counts in one fixed way.
func counts2(m map[string]map[string]int) string {
	var out []string
	for k, c := range m {
		out = append(out, fmt.Sprintf("%q:%s", k, sortedCounts(c)))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func namesOf(as []base.Attribute) string {
	var s []string
	for _, a := range as {
		s = append(s, a.GetName())
	}
	sort.Strings(s)
	return fmt.Sprintf("%q", s)
}

// summary draws one question about a dataset and returns the function that
// asks it and compares the answer with a scan of cur, the expected rows.
func (t *T) summary(v *vgrid, cur *table) func() {
	n := len(cur.rows)
	var attrs []base.Attribute
	t.Must("AllAttributes", func() { attrs = v.g.AllAttributes() })
	str := func(r, i int) string { return attrs[i].GetStringFromSysVal(packCell(cur.rows[r][i])) }
	cls := -1
	if len(cur.classNames()) == 1 {
		cls = cur.classCol()
	}
	ask := func(what, want string, f func() string) func() {
		return func() {
			var got string
			t.Must(what+" of "+v.kind, func() { got = f() })
			if got != want {
				t.Fail("summary:"+what, "%s of a %s (%s) is %s instead of %s", what, v.kind, strings.Join(v.desc, "; "), got, want)
			}
		}
	}
	k := t.D(14)
	if cls < 0 && k < 7 {
		k += 7
	}
	if cls >= 0 {
		t.Nontrivial()
	}
	switch k {
	case 0:
		if n == 0 {
			break
		}
		r := t.D(n)
		t.Probe("ask-class")
		return ask("class", fmt.Sprintf("%q", str(r, cls)), func() string { return fmt.Sprintf("%q", base.GetClass(v.g, r)) })
	case 1:
		m := map[string]int{}
		for r := range cur.rows {
			m[str(r, cls)]++
		}
		t.Probe("ask-distribution")
		return ask("class distribution", fmt.Sprint(sortedCounts(m)), func() string { return fmt.Sprint(sortedCounts(base.GetClassDistribution(v.g))) })
	case 2:
		if cur.cols[cls].kind == kCat {
			m := make([]int, len(cur.cols[cls].vals))
			for _, row := range cur.rows {
				m[cellIdx(row[cls])]++
			}
			t.Probe("ask-codes")
			return ask("class distribution by code", fmt.Sprint(m), func() string { return fmt.Sprint(base.GetClassDistributionByCategoricalValue(v.g)) })
		}
		fallthrough
	case 3:
		if cur.cols[cls].kind == kFloat {
			m := make([]int, 2)
			for _, row := range cur.rows {
				f := cellFloat(row[cls])
				if f != f {
					m = nil
					break
				}
				if f > 0.5 {
					m[1]++
				} else {
					m[0]++
				}
			}
			if m == nil {
				break
			}
			t.Probe("ask-float-classes")
			return ask("class distribution of a float class", fmt.Sprint(m), func() string { return fmt.Sprint(base.GetClassDistributionByBinaryFloatValue(v.g)) })
		}
		fallthrough
	case 4, 5: // speculative splits
		i := t.D(len(cur.cols))
		m := map[string]map[string]int{}
		put := func(k string, r int) {
			if m[k] == nil {
				m[k] = map[string]int{}
			}
			m[k][str(r, cls)]++
		}
		if cur.cols[i].kind != kFloat || t.P(1, 4) {
			for r := range cur.rows {
				put(str(r, i), r)
			}
			t.Probe("ask-split")
			return ask("class distribution by value", counts2(m), func() string { return counts2(base.GetClassDistributionAfterSplit(v.g, attrs[i])) })
		}
		th := t.genFloat(1)
		if n > 0 && t.P(2, 3) {
			th = cellFloat(cur.rows[t.D(n)][i])
		}
		for r, row := range cur.rows {
			k := "0"
			if cellFloat(row[i]) > th {
				k = "1"
			}
			put(k, r)
		}
		t.Probe("ask-threshold")
		return ask("class distribution by threshold", counts2(m), func() string { return counts2(base.GetClassDistributionAfterThreshold(v.g, attrs[i], th)) })
	case 6: // confusion of the rows with the rows in another order
		if n == 0 || v.kind == "mat" {
			break
		}
		m := t.D(n + 1)
		vis := make([]int, n)
		want := map[string]map[string]int{}
		for r := range vis {
			vis[r] = t.D(n)
			a, b := str(r, cls), str(vis[r], cls)
			if want[a] == nil {
				want[a] = map[string]int{}
			}
			want[a][b]++
		}
		short := m < n && t.P(1, 4)
		t.Probe("ask-confusion")
		w := counts2(want)
		if short {
			w = "refused"
		}
		return ask("confusion matrix", w, func() string {
			pv := vis
			if short {
				pv = vis[:m]
			}
			g := base.NewInstancesViewFromVisible(v.g, append([]int{}, pv...), attrs)
			c, err := evaluation.GetConfusionMatrix(v.g, g)
			if err != nil {
				return "refused"
			}
			return counts2(c)
		})
	case 7, 8: // float rows
		var sel []base.Attribute
		isF := true
		for _, i := range t.subset(len(cur.cols), 1, func(i int) bool { return cur.cols[i].kind == kFloat && t.P(3, 4) }) {
			if cur.cols[i].kind != kFloat && !t.P(1, 6) {
				continue
			}
			isF = isF && cur.cols[i].kind == kFloat
			sel = append(sel, attrs[i])
		}
		if len(sel) == 0 {
			break
		}
		// the columns of a matrix are in the order of the resolved columns
		var idx []int
		t.Must("resolving", func() {
			for _, s := range base.ResolveAttributes(v.g, sel) {
				for i, a := range attrs {
					if a == s.GetAttribute() {
						idx = append(idx, i)
						break
					}
				}
			}
		})
		if len(idx) != len(sel) {
			break // the columns are resolved to other objects
		}
		row := func(r int) string {
			var s []string
			for _, i := range idx {
				s = append(s, cur.rows[r][i])
			}
			return fmt.Sprint(s)
		}
		vec := func(m *mat.Dense) string {
			var s []string
			h, w := m.Dims()
			if h != 1 {
				return fmt.Sprintf("%d rows", h)
			}
			for j := 0; j < w; j++ {
				s = append(s, fcell(m.At(0, j)))
			}
			return fmt.Sprint(s)
		}
		t.Probe("ask-floats")
		if k == 7 {
			want := ""
			for r := range cur.rows {
				want += row(r)
			}
			if !isF {
				want = "refused"
			}
			return ask("matrix of all rows", want, func() string {
				ms, err := base.ConvertAllRowsToMat64(sel, v.g)
				if err != nil {
					return "refused"
				}
				s := ""
				for _, m := range ms {
					s += vec(m)
				}
				return s
			})
		}
		if n == 0 {
			break
		}
		r := t.D(n)
		want := row(r)
		if !isF {
			want = "refused"
		}
		return ask("matrix of a row", want, func() string {
			m, err := base.ConvertRowToMat64(sel, v.g, r)
			if err != nil {
				return "refused"
			}
			return vec(m)
		})
	case 9: // columns by name and by role
		i := t.D(len(cur.cols))
		var non, nonf, cl []string
		for _, c := range cur.cols {
			switch {
			case c.class:
				cl = append(cl, c.name)
			default:
				non = append(non, c.name)
				if c.kind == kFloat {
					nonf = append(nonf, c.name)
				}
			}
		}
		q := func(s []string) string {
			s = append([]string{}, s...)
			sort.Strings(s)
			if len(s) == 0 {
				return fmt.Sprintf("%q", []string(nil))
			}
			return fmt.Sprintf("%q", s)
		}
		want := fmt.Sprintf("%v %v %s %s %s", true, true, q(cl), q(non), q(nonf))
		t.Probe("ask-columns")
		return ask("list of columns", want, func() string {
			a := base.GetAttributeByName(v.g, cur.cols[i].name)
			b := base.GetAttributeByName(v.g, "no such column of this name")
			return fmt.Sprintf("%v %v %s %s %s", a != nil && a.Equals(attrs[i]), b == nil,
				namesOf(v.g.AllClassAttributes()), namesOf(base.NonClassAttributes(v.g)), namesOf(base.NonClassFloatAttributes(v.g)))
		})
	case 10: // something to put predictions in
		var cl []int
		for i, c := range cur.cols {
			if c.class {
				cl = append(cl, i)
			}
		}
		e := cur.pick(cl)
		t.Probe("ask-vector")
		return func() {
			var got *table
			t.Must("prediction vector of "+v.kind, func() { got = snapRaw(base.GeneratePredictionVector(v.g), nil) })
			for r, row := range e.rows {
				for i := range row {
					if r < len(got.rows) && i < len(got.rows[r]) && strings.HasPrefix(got.rows[r][i], "!") {
						t.Fail("summary:prediction vector", "the prediction vector of a %s has no readable value in row %d", v.kind, r)
					}
				}
			}
			x, y := e.clone(), got.clone()
			for _, tb := range []*table{x, y} {
				for r := range tb.rows {
					for i := range tb.rows[r] {
						tb.rows[r][i] = "b0"
					}
				}
			}
			if d := diff(x, y, cmpOpt{}); d != "" {
				t.Fail("summary:prediction vector", "the prediction vector of a %s (%s): %s", v.kind, strings.Join(v.desc, "; "), d)
			}
		}
	case 11: // sets of columns
		idx := t.subset(len(cur.cols), 0, nil)
		var sub []base.Attribute
		in := map[int]bool{}
		for _, i := range idx {
			in[i] = true
			a := attrs[i]
			if t.P(1, 2) && v.kind != "filter" {
				a = cur.cols[i].newAttr()
			}
			sub = append(sub, a)
		}
		var x, y []string
		for i := range attrs {
			if in[i] {
				x = append(x, attrs[i].GetName())
			} else {
				y = append(y, attrs[i].GetName())
			}
		}
		list := func(as []base.Attribute) (s []string) {
			for _, a := range as {
				s = append(s, a.GetName())
			}
			return
		}
		t.Probe("ask-sets")
		return ask("intersection and difference of columns", fmt.Sprintf("%q %q", x, y), func() string {
			return fmt.Sprintf("%q %q", list(base.AttributeIntersect(attrs, sub)), list(base.AttributeDifference(attrs, sub)))
		})
	case 12: // the printed form
		c, h := len(cur.cols), n
		t.Probe("ask-text")
		return func() {
			var s string
			t.Must("printing a "+v.kind, func() { s = fmt.Sprint(v.g) })
			if v.kind == "mat" || v.kind == "filter" {
				return
			}
			if !strings.Contains(s, fmt.Sprintf("%d row(s)", h)) || !strings.Contains(s, fmt.Sprintf("%d attribute(s)", c)) {
				t.Fail("summary:text", "the printed form of a %s doesn't tell of %d rows and %d columns: %.200q", v.kind, h, c, s)
			}
			for r := 0; r < n && r < 30; r++ {
				for i := range cur.cols {
					if !strings.Contains(s, str(r, i)) {
						t.Fail("summary:text", "the printed form of a %s doesn't show the value %q of row %d: %.400q", v.kind, str(r, i), r, s)
					}
				}
			}
			if n > 30 && !strings.Contains(s, fmt.Sprintf("%d row(s) undisplayed", n-30)) {
				t.Fail("summary:text", "the printed form of a %s doesn't tell of the %d rows it leaves out", v.kind, n-30)
			}
		}
	}
	return ask("size", fmt.Sprint(len(cur.cols), n), func() string { c, r := v.g.Size(); return fmt.Sprint(c, r) })
}

// compare asks whether a dataset matches another one that was built from its
// rows, unchanged or changed in one respect.
func (t *T) compare(v *vgrid) {
	cur := v.expect()
	if len(cur.cols) == 0 {
		return
	}
	e := cur.clone()
	change := []string{"", "", "cell", "row", "name", "column"}[t.D(6)]
	n := len(e.rows)
	switch change {
	case "cell":
		if n == 0 {
			return
		}
		r, i := t.D(n), t.D(len(e.cols))
		c := t.genCell(e.cols[i])
		if c == e.rows[r][i] {
			return
		}
		e.rows[r][i] = c
	case "row":
		if n == 0 {
			return
		}
		if t.P(1, 2) {
			e.rows = e.rows[:n-1]
		} else {
			e.rows = append(e.rows, append([]string{}, e.rows[t.D(n)]...))
		}
	case "name":
		i := t.D(len(e.cols))
		e.cols[i].name += "'"
		if e.col(e.cols[i].name) != i {
			return
		}
	case "column":
		if len(e.cols) < 2 {
			return
		}
		i := t.D(len(e.cols))
		var idx []int
		for j := range e.cols {
			if j != i {
				idx = append(idx, j)
			}
		}
		e = e.pick(idx)
	}
	w := t.root(e, false)
	t.Descf("compared with a copy, changed: %q", change)
	same := change == "" || change == "cell" || change == "row"
	var ab, ba []base.Attribute
	t.Must("comparing columns", func() { ab, ba = base.CheckCompatible(v.g, w.g), base.CheckCompatible(w.g, v.g) })
	if v.kind != "mat" {
		if (ab != nil) != same || (ba != nil) != same || same && (len(ab) != len(cur.cols) || len(ba) != len(cur.cols)) {
			t.Fail("compatible", "a %s with columns %v and a dataset with columns %v: compatible %v and %v", v.kind, cur.cols, e.cols, ab != nil, ba != nil)
		}
	}
	var sab, sba bool
	t.Must("comparing layouts", func() { sab, sba = base.CheckStrictlyCompatible(v.g, w.g), base.CheckStrictlyCompatible(w.g, v.g) })
	if (sab || sba) && !same {
		t.Fail("strictly-compatible", "a %s with columns %v and a dataset with columns %v: strictly compatible %v and %v", v.kind, cur.cols, e.cols, sab, sba)
	}
	if v.kind == "dense" {
		var z bool
		t.Must("comparing layouts", func() { z = base.CheckStrictlyCompatible(v.g, v.g) })
		if !z {
			t.Fail("strictly-compatible", "a dataset isn't strictly compatible with itself")
		}
	}
	t.Probe("compare-" + change)
	if v.kind == "mat" {
		return
	}
	// That two different datasets are called equal is a recorded finding
	// (class equal-differing): asked rarely, so that it doesn't eat the runs.
	if change != "" && !t.P(1, 40) {
		return
	}
	var eq, qe bool
	t.Must("comparing datasets", func() { eq, qe = base.InstancesAreEqual(v.g, w.g), base.InstancesAreEqual(w.g, v.g) })
	if change == "" && (!eq || !qe) {
		t.Fail("equal-same", "a %s (%s) and a copy of its rows: equal %v and %v", v.kind, strings.Join(v.desc, "; "), eq, qe)
	}
	if change != "" && (eq || qe) {
		t.Fail("equal-differing", "a %s and a dataset which differs in one %s are called equal", v.kind, change)
	}
}
