package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register(&Property{ID: "V01", Run: runV01,
		Rule: "after every operation of the history the grid read by position and by iteration is compared with a reference table; iteration is abandoned or failed at a drawn row; reader tasks run concurrently with view building",
		Real: "base (dense, view, filtered, sort, mat, dataframe_go, util_instances), dataframe-go, filters (float, binary)",
		Stub: "none; the caller tasks are the simulator's",
	})
}

var errCaller = errors.New("caller's own error")

// check compares a grid with its reference table in both read paths.
func (t *T) checkGrid(v *vgrid, full bool) {
	want := v.expect()
	name := v.kind
	got := t.snap(name, v.g)
	if d := diff(want, got, cmpOpt{ordered: true}); d != "" {
		t.Fail("get:"+name, "%s (%s), read by position: %s", name, strings.Join(v.desc, "; "), d)
	}
	cols, rows := v.g.Size()
	if cols != len(want.cols) || rows != len(want.rows) {
		t.Fail("size:"+name, "%s: Size() is %d columns, %d rows instead of %d, %d", name, cols, rows, len(want.cols), len(want.rows))
	}
	mp, prob := t.snapMap(name, v.g)
	if prob != "" {
		t.Fail("map:"+name, "%s (%s), iteration: %s", name, strings.Join(v.desc, "; "), prob)
	}
	if d := diff(want, mp, cmpOpt{ordered: true}); d != "" {
		t.Fail("map:"+name, "%s (%s), read by iteration: %s", name, strings.Join(v.desc, "; "), d)
	}
	if full && len(want.rows) > 0 {
		t.stopIteration(v, want)
		t.rowString(v, want)
	}
	// class columns are listed once each
	var cls []string
	for _, a := range v.g.AllClassAttributes() {
		cls = append(cls, a.GetName())
	}
	sort.Strings(cls)
	wc := want.classNames()
	sort.Strings(wc)
	if !sameStrs(cls, wc) {
		t.Fail("class:"+name, "%s: class attributes %q instead of %q", name, cls, wc)
	}
}

func (t *T) stopIteration(v *vgrid, want *table) {
	n := len(want.rows)
	mode := t.D(3) // 0 stop, 1 error with stop, 2 error without stop
	stopAt := t.D(n)
	seen := 0
	var specs []base.AttributeSpec
	t.Must("resolving", func() { specs = base.ResolveAttributes(v.g, v.g.AllAttributes()[:1]) })
	var err error
	t.Must("iterating "+v.kind, func() {
		err = v.g.MapOverRows(specs, func(b [][]byte, r int) (bool, error) {
			seen++
			if seen-1 == stopAt {
				switch mode {
				case 0:
					return false, nil
				case 1:
					return false, errCaller
				case 2:
					return true, errCaller
				}
			}
			return true, nil
		})
	})
	if seen != stopAt+1 {
		t.Fail("iteration-stop:"+v.kind, "%s: the caller ended the iteration at its row %d, the function was called %d times", v.kind, stopAt, seen)
	}
	if mode > 0 && err != errCaller {
		t.Fail("iteration-error:"+v.kind, "%s: the caller's error was not handed back (got %v)", v.kind, err)
	}
	if mode == 0 && err != nil {
		t.Fail("iteration-error:"+v.kind, "%s: abandoned iteration returned %v", v.kind, err)
	}
}

func (t *T) rowString(v *vgrid, want *table) {
	if v.kind == "mat" {
		return
	}
	r := t.D(len(want.rows))
	var s string
	t.Must("RowString of "+v.kind, func() { s = v.g.RowString(r) })
	var parts []string
	for i, a := range v.g.AllAttributes() {
		parts = append(parts, a.GetStringFromSysVal(packCell(want.rows[r][i])))
	}
	if e := strings.Join(parts, " "); s != e {
		t.Fail("rowstring:"+v.kind, "%s: RowString(%d) is %q instead of %q", v.kind, r, s, e)
	}
}

func runV01(t *T) {
	t.sched(false)
	var live []*vgrid
	big := false
	if t.P(1, 8) {
		live = append(live, t.matRoot())
	} else if t.P(1, 8) {
		live = append(live, t.frameRoot())
	} else {
		o := gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, classKind: t.D(3), nClass: t.D(3), floats: t.D(4), names: t.D(2), prec: -1}
		if o.nClass == 0 {
			o.classKind = -1
		}
		o.classFirst = true
		t.enlarge(&o, "rows", "fewrows", "cols", "wide", "vals", "long")
		big = o.big
		live = append(live, t.root(t.genTable(o), true))
	}
	live[0].ref.describe(t, "dataset ("+live[0].kind+")")
	t.checkGrid(live[0], true)
	steps := t.R(1, 6)
	if big && steps > 2 {
		steps = 2
	}
	for i := 0; i < steps; i++ {
		v := live[t.D(len(live))]
		t.v01op(v, &live)
		for _, w := range live {
			t.checkGrid(w, false)
		}
	}
	v := live[len(live)-1]
	t.checkGrid(v, true)
	if len(live) > 2 {
		t.Nontrivial()
	}
	if t.P(1, 3) && (!big || t.P(1, 4)) {
		// several tasks read while another builds further views
		exps := make([]*table, len(live))
		for i, w := range live {
			exps[i] = w.expect()
		}
		reader := func(k int) func() {
			return func() {
				for j := range live {
					w := live[(j+k)%len(live)]
					tb, prob := t.snapMap(w.kind, w.g)
					if prob != "" {
						t.Fail("map-concurrent:"+w.kind, "%s read by a concurrent task: %s", w.kind, prob)
					}
					if d := diff(exps[(j+k)%len(live)], tb, cmpOpt{ordered: true}); d != "" {
						t.Fail("map-concurrent:"+w.kind, "%s read by a concurrent task: %s", w.kind, d)
					}
				}
			}
		}
		t.Descf("concurrent readers and view builder")
		t.Tasks(reader(0), reader(1), func() {
			for j := 0; j < 2; j++ {
				w := t.stack(live[j%len(live)], viewOpt{filters: true, copies: true})
				t.checkGrid(w, false)
			}
		})
		t.Probe("concurrent-readers")
	}
}

func (t *T) matRoot() *vgrid {
	n, c := t.R(1, 6), t.R(1, 3)
	tb := &table{}
	m := mat.NewDense(n, c, nil)
	for j := 0; j < c; j++ {
		tb.cols = append(tb.cols, &colDef{kind: kFloat, name: fmt.Sprint(j), prec: 2})
	}
	for i := 0; i < n; i++ {
		row := make([]string, c)
		for j := range row {
			f := t.genFloat(t.D(4))
			m.Set(i, j, f)
			row[j] = fcell(f)
		}
		tb.rows = append(tb.rows, row)
	}
	v := &vgrid{kind: "mat", ref: tb}
	t.Must("matrix dataset", func() { v.g = base.InstancesFromMat64(n, c, m) })
	v.fixClass()
	return v
}

// frameRoot converts a data frame.
func (t *T) frameRoot() *vgrid {
	n, c := t.D(7), t.R(1, 4)
	class := t.D(c)
	tb := &table{rows: make([][]string, n)}
	var ss []dataframe.Series
	for j := 0; j < c; j++ {
		d := &colDef{name: fmt.Sprint("c", j), prec: 2, class: j == class}
		var s dataframe.Series
		switch t.D(3) {
		case 0:
			s = dataframe.NewSeriesFloat64(d.name, nil)
			mode := t.D(4)
			for r := range tb.rows {
				f := t.genFloat(mode)
				switch {
				case mode > 1 && t.P(1, 6): // missing
					f = math.NaN()
					s.Append(nil)
				default:
					s.Append(f)
				}
				tb.rows[r] = append(tb.rows[r], fcell(f))
			}
		case 1:
			s = dataframe.NewSeriesInt64(d.name, nil)
			for r := range tb.rows {
				k := int64(t.D(201) - 100)
				if t.P(1, 8) {
					k <<= 40
				}
				if t.P(1, 8) {
					s.Append(nil)
					tb.rows[r] = append(tb.rows[r], fcell(math.NaN()))
					continue
				}
				s.Append(k)
				tb.rows[r] = append(tb.rows[r], fcell(float64(k)))
			}
		default:
			if n == 0 {
				// a column of no values is of no use to what follows
				s = dataframe.NewSeriesFloat64(d.name, nil)
				break
			}
			d.kind, d.prec = kCat, 0
			s = dataframe.NewSeriesString(d.name, nil)
			for r := range tb.rows {
				v := []string{"a", "b", "x y", "0", "1.5"}[t.D(5)]
				s.Append(v)
				k := 0
				for k < len(d.vals) && d.vals[k] != v {
					k++
				}
				if k == len(d.vals) {
					d.vals = append(d.vals, v)
				}
				tb.rows[r] = append(tb.rows[r], ccell(k, v))
			}
		}
		ss = append(ss, s)
		tb.cols = append(tb.cols, d)
	}
	df := dataframe.NewDataFrame(ss...)
	v := &vgrid{kind: "frame", ref: tb}
	tb.describe(t, "data frame")
	t.Must("converting a data frame", func() { v.g = base.ConvertDataFrameToInstances(df, class) })
	ref := &table{rows: make([][]string, n)}
	for _, a := range v.g.AllAttributes() {
		i := tb.col(a.GetName())
		if i < 0 {
			t.Fail("frame-column", "a column %q which the frame doesn't have", a.GetName())
		}
		ref.cols = append(ref.cols, tb.cols[i])
		for r := range tb.rows {
			ref.rows[r] = append(ref.rows[r], tb.rows[r][i])
		}
	}
	if len(ref.cols) != len(tb.cols) {
		t.Fail("frame-column", "%d columns of %d", len(ref.cols), len(tb.cols))
	}
	v.ref = ref
	if d, ok := v.g.(*base.DenseInstances); ok {
		v.dense = d
	}
	v.fixClass()
	return v
}

func (t *T) v01op(v *vgrid, live *[]*vgrid) {
	add := func(w *vgrid) { *live = append(*live, w) }
	cur := v.expect()
	n := len(cur.rows)
	attrs := v.g.AllAttributes()
	switch k := t.D(12); k {
	case 0, 1, 2:
		w := t.stack(v, viewOpt{filters: true, copies: true})
		t.Descf("op: %s", w.desc[len(w.desc)-1])
		add(w)
		t.Probe("op-" + w.kind)
	case 3: // write a cell
		if v.dense == nil || n == 0 {
			return
		}
		r, c := t.D(n), t.D(len(cur.cols))
		cell := t.genCell(cur.cols[c])
		t.Descf("op: write row %d column %q of %s := %s", r, cur.cols[c].name, v.kind, showCell(cell))
		t.Must("Set", func() {
			s, err := v.g.GetAttribute(attrs[c])
			if err != nil {
				t.Fail("get-attribute", "%v", err)
			}
			v.dense.Set(s, r, packCell(cell))
		})
		v.ref.rows[r][c] = cell
		t.Probe("op-set")
	case 4: // extend
		if v.dense == nil {
			return
		}
		k := t.R(1, 3)
		t.Descf("op: extend %s by %d rows", v.kind, k)
		t.Must("Extend", func() {
			if err := v.dense.Extend(k); err != nil {
				t.Fail("extend-error", "Extend(%d): %v", k, err)
			}
		})
		for i := 0; i < k; i++ {
			row := make([]string, len(cur.cols))
			for j, c := range cur.cols {
				switch c.kind {
				case kFloat:
					row[j] = fcell(0)
				case kCat:
					row[j] = ccell(0, c.vals[0])
				case kBin:
					row[j] = bcell(false)
				}
			}
			v.ref.rows = append(v.ref.rows, row)
		}
		t.Probe("op-extend")
	case 5, 6: // sort, lazily or in place
		t.v01sort(v, cur, k == 6, add)
	case 7: // lazy shuffle / shuffle
		dup := t.snap(v.kind, v.g)
		var g base.FixedDataGrid
		inPlace := t.P(1, 2)
		t.Must("shuffle", func() {
			if inPlace {
				g = base.Shuffle(v.g)
			} else {
				g = base.LazyShuffle(v.g)
			}
		})
		t.Descf("op: shuffle %s (in place: %v)", v.kind, inPlace)
		got := t.snap("shuffle", g)
		if d := diff(dup.pick(nil), got.pick(nil), cmpOpt{}); d != "" {
			t.Fail("shuffle-size", "%s", d)
		}
		if inPlace && v.dense != nil {
			if g != base.FixedDataGrid(v.dense) {
				t.Fail("shuffle-identity", "in-place shuffle returned another dataset")
			}
			if msg := sameMultiset(dup, got); msg != "" {
				t.Fail("shuffle-rows", "shuffle in place: %s", msg)
			}
			v.ref = got
			return
		}
		if d := diff(dup, t.snap(v.kind, v.g), cmpOpt{ordered: true}); d != "" {
			t.Fail("shuffle-source", "a lazy shuffle changed its source: %s", d)
		}
		if msg := sameMultiset(dup, got); msg != "" {
			t.Fail("shuffle-rows", "lazy shuffle: %s", msg)
		}
		w := &vgrid{g: g, kind: "lazyshuffle", ref: got, desc: append(append([]string{}, v.desc...), "lazy shuffle")}
		w.fixClass()
		// what the shuffle did is only known through its content, so it is
		// checked at once and not followed through later writes
		t.checkGrid(w, true)
		t.Probe("op-lazyshuffle")
	case 8: // class columns
		if len(attrs) == 0 {
			return
		}
		i := t.D(len(attrs))
		a := attrs[i]
		if v.kind != "filter" && t.P(1, 3) {
			a = cur.cols[i].newAttr() // equal, not identical
		}
		addIt := t.P(1, 2)
		t.Descf("op: class %v %q of %s", addIt, cur.cols[i].name, v.kind)
		var err error
		t.Must("class attribute", func() {
			if addIt {
				err = v.g.AddClassAttribute(a)
			} else {
				err = v.g.RemoveClassAttribute(a)
			}
		})
		if err != nil {
			t.Fail("class-op", "%s: class attribute %q: %v", v.kind, cur.cols[i].name, err)
		}
		if v.kind == "filter" {
			// the library maps class operations through the filter: all
			// columns made from one source column go together
			v.class = map[string]bool{}
			for _, c := range v.g.AllClassAttributes() {
				v.class[c.GetName()] = true
			}
			if v.class[cur.cols[i].name] != addIt {
				t.Fail("class-op", "filtered grid: class flag of %q is %v", cur.cols[i].name, !addIt)
			}
			return
		}
		v.class[cur.cols[i].name] = addIt
		t.Probe("op-class")
	case 9: // decompose by value
		i := t.D(len(attrs))
		if cur.cols[i].kind == kFloat || len(attrs) < 2 {
			return
		}
		var parts map[string]base.FixedDataGrid
		t.Must("decompose", func() { parts = base.DecomposeOnAttributeValues(v.g, attrs[i]) })
		t.Descf("op: decompose %s by %q", v.kind, cur.cols[i].name)
		t.v01parts(cur, i, parts, func(c string) string { return attrs[i].GetStringFromSysVal(packCell(c)) })
	case 10: // decompose by threshold
		i := t.D(len(attrs))
		if cur.cols[i].kind != kFloat || len(attrs) < 2 || n == 0 {
			return
		}
		th := cellFloat(cur.rows[t.D(n)][i])
		var parts map[string]base.FixedDataGrid
		t.Must("decompose", func() { parts = base.DecomposeOnNumericAttributeThreshold(v.g, attrs[i], th) })
		t.Descf("op: decompose %s by %q > %v", v.kind, cur.cols[i].name, th)
		t.v01parts(cur, i, parts, func(c string) string {
			if cellFloat(c) > th {
				return "1"
			}
			return "0"
		})
	case 11: // structural copy
		var d *base.DenseInstances
		t.Must("structural copy", func() { d = base.NewStructuralCopy(v.g) })
		e := cur.clone()
		e.rows = nil
		if df := diff(e, t.snap("structural copy", d), cmpOpt{}); df != "" {
			t.Fail("structural-copy", "%s", df)
		}
	}
}

func (t *T) genCell(c *colDef) string {
	switch c.kind {
	case kFloat:
		return fcell(t.genFloat(t.D(4)))
	case kCat:
		i := t.D(len(c.vals))
		return ccell(i, c.vals[i])
	}
	return bcell(t.P(1, 2))
}

// v01parts checks a decomposition into groups keyed by key(cell).
func (t *T) v01parts(cur *table, i int, parts map[string]base.FixedDataGrid, key func(string) string) {
	want := map[string][]int{}
	for r, row := range cur.rows {
		k := key(row[i])
		want[k] = append(want[k], r)
	}
	var cols []int
	for j := range cur.cols {
		if j != i {
			cols = append(cols, j)
		}
	}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(parts) != len(want) {
		t.Fail("decompose-parts", "%d parts instead of %d", len(parts), len(want))
	}
	for _, k := range keys {
		g := parts[k]
		if g == nil {
			t.Fail("decompose-parts", "part %q is missing", k)
		}
		e := cur.pick(cols).pickRows(want[k])
		got := t.snap("part", g)
		if msg := sameMultiset(e, got); msg != "" {
			t.Fail("decompose-rows", "part %q: %s", k, msg)
		}
	}
	t.Probe("op-decompose")
}

// sameMultiset compares two tables as multisets of rows.
func sameMultiset(a, b *table) string {
	x, y := a.clone(), b.clone()
	// align columns of b with a
	var idx []int
	for _, c := range x.cols {
		j := y.col(c.name)
		if j < 0 {
			return fmt.Sprintf("column %q is missing", c.name)
		}
		idx = append(idx, j)
	}
	if len(y.cols) != len(x.cols) {
		return fmt.Sprintf("%d columns instead of %d", len(y.cols), len(x.cols))
	}
	y = y.pick(idx)
	m := map[string]int{}
	for _, r := range x.rows {
		m[strings.Join(r, "\x00")]++
	}
	for i, r := range y.rows {
		k := strings.Join(r, "\x00")
		if m[k] == 0 {
			return fmt.Sprintf("row %d (%s) is not one of the %d source rows or occurs too often", i, showRow(r), len(x.rows))
		}
		m[k]--
	}
	if len(y.rows) != len(x.rows) {
		return fmt.Sprintf("%d rows instead of %d", len(y.rows), len(x.rows))
	}
	return ""
}

// sortable values have an unambiguous order.
func sortable(tb *table, i int) bool {
	for _, r := range tb.rows {
		if tb.cols[i].kind == kFloat {
			f := cellFloat(r[i])
			if f != f {
				return false
			}
		}
	}
	return true
}

func cellLess(a, b string) bool {
	switch a[0] {
	case 'f':
		return cellFloat(a) < cellFloat(b)
	case 'c':
		return cellIdx(a) < cellIdx(b)
	}
	return a < b
}

func (t *T) v01sort(v *vgrid, cur *table, inPlace bool, add func(*vgrid)) {
	if len(cur.rows) == 0 || len(cur.cols) == 0 || (inPlace && v.dense == nil) {
		return
	}
	var idx []int
	for i := range cur.cols {
		if sortable(cur, i) && t.P(1, 2) {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return
	}
	attrs := v.g.AllAttributes()
	var specs []base.AttributeSpec
	for _, i := range idx {
		s, err := v.g.GetAttribute(attrs[i])
		if err != nil {
			t.Fail("get-attribute", "%v", err)
		}
		specs = append(specs, s)
	}
	dir := base.Ascending
	if t.P(1, 2) {
		dir = base.Descending
	}
	t.Descf("op: sort %s by columns %v direction %d (in place: %v)", v.kind, idx, dir, inPlace)
	var g base.FixedDataGrid
	var err error
	t.Must("sort", func() {
		if inPlace {
			g, err = base.Sort(v.g, dir, specs)
		} else {
			g, err = base.LazySort(v.g, dir, specs)
		}
	})
	if err != nil {
		t.Fail("sort-error", "sort: %v", err)
	}
	got := t.snap("sorted", g)
	if msg := sameMultiset(cur, got); msg != "" {
		t.Fail("sort-rows", "sorted %s: %s", v.kind, msg)
	}
	for r := 1; r < len(got.rows); r++ {
		for _, i := range idx {
			a, b := got.rows[r-1][i], got.rows[r][i]
			if dir == base.Descending {
				a, b = b, a
			}
			if cellLess(b, a) {
				t.Fail("sort-order", "sorted %s: rows %d and %d are out of order in column %q", v.kind, r-1, r, got.cols[i].name)
			}
			if cellLess(a, b) {
				break
			}
		}
	}
	t.Probe("op-sort")
	if inPlace {
		v.ref = got
		return
	}
	w := &vgrid{g: g, kind: "lazysort", ref: got, desc: append(append([]string{}, v.desc...), "lazy sort")}
	w.fixClass()
	t.checkGrid(w, true)
	if d := diff(cur, t.snap(v.kind, v.g), cmpOpt{ordered: true}); d != "" {
		t.Fail("sort-source", "a lazy sort changed its source: %s", d)
	}
}
