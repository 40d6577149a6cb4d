package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{ID: "S06", Run: runS06,
		Rule: "drawn CSV text is imported through every entry point from a source that splits reads, mixes EOF with data and fails at a drawn read or seek; the result is compared with the records of the text",
		Real: "base CSV import (four entry points, streams and files), encoding/csv",
		Stub: "streams and disk are simulated",
	})
	register(&Property{ID: "S07", Run: runS07,
		Rule: "drawn dense ARFF text is imported from a simulated file or stream that splits reads, fails at a drawn read or seek, or ends inside the header; the result is compared with the records of the text",
		Real: "base ARFF import, encoding/csv, bufio",
		Stub: "streams and disk are simulated",
	})
	register(&Property{ID: "S08", Run: runS08,
		Rule: "a drawn dataset or view is exported as CSV or ARFF and imported again through split reads; columns and values at the stored precision are compared with the source",
		Real: "base CSV and ARFF export and import, dense, view and filtered grids",
		Stub: "streams and disk are simulated",
	})
}

// textCol is a column of generated text.
type textCol struct {
	name string
	num  bool
	vals []string
	as   int // what an override makes of a numeric column (S06): 0, kCat or kBin
}

// genText draws records; big makes it larger than the readers' buffers.
func (t *T) genText(quotes bool) (cols []textCol, recs [][]string) {
	t.allow(10)
	n := t.R(1, 4)
	rows := t.R(1, 8)
	if t.P(1, 5) {
		rows = 100 + t.D(300)
	}
	if t.P(1, 30) {
		n = 5 + t.D(60)
	}
	many := t.P(1, 30)
	if many {
		rows = 200 + t.D(1000)
	}
	for i := 0; i < n; i++ {
		c := textCol{name: fmt.Sprintf("col%d", i), num: t.P(1, 2)}
		if quotes && t.P(1, 5) {
			c.name = []string{"a b", "x,y", "ü", "q\"q", "%p", "a.b"}[t.D(6)] + strconv.Itoa(i)
		}
		k := t.R(1, 5)
		if many && t.P(1, 2) {
			k = 10 + t.D(400)
		}
		for j := 0; j < k; j++ {
			v := fmt.Sprintf("val%d", j)
			if t.P(1, 3) {
				vs := []string{"x", "y-z", "1a", "-", "Ünï", "v.1", "NaNa", "e5"}
				if quotes {
					vs = append(vs, "a,b", "say \"hi\"", "two words", "line\nbreak", "@at", "%pc")
				}
				v = vs[t.D(len(vs))]
			}
			if t.P(1, 40) && (k < 6 || t.P(1, 40)) {
				v = "long" + strings.Repeat("w", 3000+t.D(3000))
			}
			dup := false
			for _, o := range c.vals {
				dup = dup || o == v
			}
			if !dup {
				c.vals = append(c.vals, v)
			}
		}
		cols = append(cols, c)
	}
	for r := 0; r < rows; r++ {
		var rec []string
		for i := range cols {
			if cols[i].num {
				x := t.genFloat(1)
				s := strconv.FormatFloat(x, 'f', t.D(4), 64)
				if t.P(1, 8) {
					s = strconv.FormatFloat(x, 'e', 2, 64)
				}
				if t.P(1, 12) {
					s = "+" + strings.TrimPrefix(s, "-")
				}
				rec = append(rec, s)
			} else {
				rec = append(rec, cols[i].vals[t.D(len(cols[i].vals))])
			}
		}
		recs = append(recs, rec)
	}
	return
}

// textTable is the table the text stands for.
func textTable(cols []textCol, recs [][]string) *table {
	tb := &table{}
	idx := make([]map[string]int, len(cols))
	for i, c := range cols {
		d := &colDef{kind: kCat, name: c.name, class: i == len(cols)-1}
		if c.num {
			d.kind = kFloat
		}
		if c.as != 0 {
			d.kind = c.as
		}
		idx[i] = map[string]int{}
		tb.cols = append(tb.cols, d)
	}
	for _, rec := range recs {
		var row []string
		for i, c := range cols {
			if rec[i] == "" {
				// a missing value is left at the value of a new row
				switch tb.cols[i].kind {
				case kFloat:
					row = append(row, fcell(0))
				case kBin:
					row = append(row, bcell(false))
				default:
					row = append(row, ccell(0, tb.cols[i].vals[0]))
				}
				continue
			}
			if c.num && c.as != kCat {
				x, err := strconv.ParseFloat(strings.TrimSpace(rec[i]), 64)
				if err != nil {
					panic("harness: " + err.Error())
				}
				if c.as == kBin {
					row = append(row, bcell(x > 0))
					continue
				}
				row = append(row, fcell(x))
				continue
			}
			k, ok := idx[i][rec[i]]
			if !ok {
				k = len(idx[i])
				idx[i][rec[i]] = k
				tb.cols[i].vals = append(tb.cols[i].vals, rec[i])
			}
			row = append(row, ccell(k, rec[i]))
		}
		tb.rows = append(tb.rows, row)
	}
	return tb
}

func csvText(t *T, cols []textCol, recs [][]string, header bool) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.UseCRLF = t.P(1, 6)
	if header {
		var h []string
		for _, c := range cols {
			h = append(h, c.name)
		}
		w.Write(h)
	}
	pad := t.P(1, 5)
	for _, r := range recs {
		if pad {
			q := append([]string{}, r...)
			for i := range q {
				if q[i] != "" && t.P(1, 6) {
					q[i] = []string{" " + q[i], q[i] + " ", "  " + q[i] + "  "}[t.D(3)]
				}
			}
			r = q
		}
		w.Write(r)
	}
	w.Flush()
	s := b.Bytes()
	if t.P(1, 6) && bytes.HasSuffix(s, []byte("\n")) {
		s = bytes.TrimRight(s, "\r\n")
	}
	return s
}

func runS06(t *T) {
	cols, recs := t.genText(true)
	header := !t.P(1, 4)
	if t.P(1, 40) && len(recs) < 20 {
		// a line longer than a scanner's usual limit
		for i := range cols {
			if !cols[i].num {
				for j, n := 0, 1+t.D(3); j < n; j++ {
					recs[t.D(len(recs))][i] = "w" + strings.Repeat("x", 65500+t.D(5000))
				}
				break
			}
		}
	}
	if len(cols) > 1 && t.P(1, 5) {
		// missing values
		for k := 1; k < len(recs); k++ {
			for i := range recs[k] {
				if t.P(1, 6) {
					recs[k][i] = ""
				}
			}
		}
	}
	entry := t.D(4)
	if entry == 2 {
		for i := range cols {
			if cols[i].num && t.P(1, 6) {
				cols[i].as = []int{kCat, kBin}[t.D(2)]
			}
		}
	}
	text := csvText(t, cols, recs, header)
	if !header {
		for i := range cols {
			cols[i].name = strconv.Itoa(i)
		}
	}
	// a categorical column is told from its first record
	want := textTable(cols, recs)
	t.Descf("csv: %d bytes, %d columns, %d records, header %v", len(text), len(cols), len(recs), header)
	if len(text) < 400 {
		t.Descf("text %q", text)
	} else {
		t.Logf("text %q", text)
	}
	t.Nontrivial()

	groups := map[string]string{}
	cgroups := map[string]string{}
	override7 := map[int]bool{}
	var template *base.DenseInstances
	switch entry {
	case 2:
		for i, c := range cols {
			if t.P(1, 2) {
				if i == len(cols)-1 || t.P(1, 6) {
					cgroups[c.name] = fmt.Sprintf("CG%d%v%d", t.D(2), c.num, c.as)
				} else {
					groups[c.name] = fmt.Sprintf("G%d%v%d", t.D(3), c.num, c.as)
				}
			}
			override7[i] = c.num && c.as == 0 && t.P(1, 5)
		}
		for i, c := range want.cols {
			c.class = cgroups[cols[i].name] != ""
		}
	case 1:
		var err error
		t.Must("template import", func() {
			tt := text
			if header && t.P(1, 2) {
				// other rows, and the columns in another order
				p := t.perm(len(cols))
				var tc []textCol
				var tr [][]string
				for _, i := range p {
					tc = append(tc, cols[i])
				}
				for k := range t.perm(len(recs)) {
					if k > 0 && t.P(1, 3) {
						continue
					}
					var q []string
					for _, i := range p {
						q = append(q, recs[k][i])
					}
					tr = append(tr, q)
				}
				tt = csvText(t, tc, tr, true)
				for i := range want.cols {
					want.cols[i].class = i == p[len(p)-1]
				}
			}
			template, err = base.ParseCSVToInstancesFromReader(t.NewReader(tt, 0), header)
		})
		if err != nil {
			t.Fail("import-error", "intact CSV was refused: %v", err)
		}
	}
	viaFile := t.P(1, 3)
	imp := func(r *SimReader, path string) (in *base.DenseInstances, err error, pi *PanicInfo) {
		// an import may add values to the attributes it is given
		overrides := map[int]base.Attribute{}
		for i, c := range cols {
			switch {
			case c.as == kBin:
				overrides[i] = base.NewBinaryAttribute(c.name)
			case c.as == kCat:
				overrides[i] = base.NewCategoricalAttribute()
				overrides[i].SetName(c.name)
			case override7[i]:
				overrides[i] = &base.FloatAttribute{Name: c.name, Precision: 7}
			}
		}
		pi = t.Try(func() {
			switch entry {
			case 1:
				if r != nil {
					in, err = base.ParseCSVToTemplatedInstancesFromReader(r, header, template)
				} else {
					in, err = base.ParseCSVToTemplatedInstances(path, header, template)
				}
			case 2:
				if r != nil {
					in, err = base.ParseCSVToInstancesWithAttributeGroupsFromReader(r, groups, cgroups, overrides, header)
				} else {
					in, err = base.ParseCSVToInstancesWithAttributeGroups(path, groups, cgroups, overrides, header)
				}
			default:
				if r != nil {
					in, err = base.ParseCSVToInstancesFromReader(r, header)
				} else {
					in, err = base.ParseCSVToInstances(path, header)
				}
			}
		})
		return
	}
	judge := func(what string, in *base.DenseInstances, full *table) {
		got := t.snap("imported dataset", in)
		co := cmpOpt{noPrec: true, noVals: entry == 1}
		if d := diff(want, got, co); d != "" {
			t.Fail("import-wrong", "%s: imported dataset differs from the text: %s", what, d)
		}
		if full != nil {
			if d := diff(full, got, cmpOpt{ordered: true, noVals: entry == 1}); d != "" {
				t.Fail("import-varies", "%s: the dataset differs from that of an undisturbed import: %s", what, d)
			}
		}
	}
	// undisturbed, delivered whole
	r0 := t.NewReader(text, 0)
	in, err, pi := imp(r0, "")
	if pi != nil {
		t.Fail("panic@"+pi.Where, "importing intact CSV: %v", pi)
	}
	if err != nil {
		t.Fail("import-error", "intact CSV was refused: %v", err)
	}
	judge("undisturbed", in, nil)
	full := t.snap("imported dataset", in)
	if viaFile {
		d := t.NewDisk()
		p := d.Path("in.csv")
		d.Seed(p, text)
		run := func() {
			d.With(func() { in, err, pi = imp(nil, p) })
		}
		d.Mark()
		run()
		if pi != nil || err != nil {
			t.Fail("import-error", "intact CSV file was refused: %v %v", err, pi)
		}
		judge("file", in, full)
		ops := d.Ops()
		d.Mark()
		d.short = true
		if t.FP(2, 3) {
			if i := t.D(3); i == 0 {
				d.rate = 30 + t.F(200)
			} else {
				at, k := d.ArmOne(ops, "open", "read", "seek")
				t.Descf("disk fault %s at operation %d of %d", k, at, len(ops))
			}
		}
		run()
		if pi != nil {
			t.Fail("panic@"+pi.Where, "faults %v: %v", t.faults, pi)
		}
		if err != nil && d.fired == 0 {
			t.Fail("import-error", "intact CSV file was refused: %v", err)
		}
		if err == nil {
			judge("after a fault", in, full)
		}
		return
	}
	// the same text, delivered differently
	frag := t.D(5)
	r := t.NewReader(text, frag)
	t.Descf("fragmentation %d", frag)
	in, err, pi = imp(r, "")
	if pi != nil {
		t.Fail("panic@"+pi.Where, "importing intact CSV in fragments: %v", pi)
	}
	if err != nil {
		t.Fail("import-error", "intact CSV was refused: %v", err)
	}
	judge("fragmented", in, full)
	// and failing
	f := t.NewReader(text, frag)
	f.part = t.FP(1, 2)
	f.sticky = t.FP(1, 2)
	if t.FP(1, 3) {
		f.failSk = r.seeks - 1 - t.F(r.seeks)
	} else {
		f.failAt = r.reads - 1 - t.F(r.reads)
	}
	t.Descf("source fails at read %d / seek %d (partial %v, forever %v)", f.failAt, f.failSk, f.part, f.sticky)
	in, err, pi = imp(f, "")
	if pi != nil {
		t.Fail("panic@"+pi.Where, "the source failed: %v", pi)
	}
	if err == nil {
		judge("after a fault", in, full)
		if f.fired && f.sticky {
			t.Fail("import-hides-error", "the source failed for good and the import reported success")
		}
	} else if !f.fired {
		t.Fail("import-error", "intact CSV was refused: %v", err)
	}
	// building blocks that report errors
	g := t.NewReader(text, frag)
	g.failAt, g.part, g.sticky = t.F(r.reads/4+2), t.FP(1, 2), t.FP(1, 2)
	if t.FP(1, 4) {
		g.failAt, g.failSk = -1, 0
		g.off = int64(t.F(len(text)))
	}
	n := 0
	what := "ParseCSVGetRowsFromReader"
	if t.P(1, 2) {
		what = "ParseCSVEstimateFilePrecisionFromReader"
		m := 0
		t.Must(what, func() { m, _ = base.ParseCSVEstimateFilePrecisionFromReader(t.NewReader(text, 0)) })
		pi = t.Try(func() { n, err = base.ParseCSVEstimateFilePrecisionFromReader(g) })
		if err == nil && n != m {
			t.Fail("block-hides-error:"+what, "the source failed; %s gave %d instead of %d and no error", what, n, m)
		}
	} else {
		m := len(recs)
		if header {
			m++
		}
		pi = t.Try(func() { n, err = base.ParseCSVGetRowsFromReader(g) })
		if err == nil && (n != m || g.fired) {
			t.Fail("block-hides-error:"+what, "the source failed; %s gave %d instead of %d and no error", what, n, m)
		}
	}
	if pi != nil {
		t.Fail("panic@"+pi.Where, "the source failed: %v", pi)
	}
	if err != nil && !g.fired {
		t.Fail("import-error", "intact CSV was refused by %s: %v", what, err)
	}
}

func arffText(t *T, cols []textCol, recs [][]string) (text []byte, dataAt int) {
	var b bytes.Buffer
	quoted := func(v string) string {
		need := v == "" || strings.ContainsAny(v, " \t,{}\"'") || v[0] == '%' || v[0] == '@'
		if need || t.P(1, 12) {
			return `"` + strings.Replace(v, `"`, `""`, -1) + `"`
		}
		return v
	}
	kw := func(s string) string {
		switch t.D(3) {
		case 1:
			return strings.ToUpper(s)
		case 2:
			return strings.ToUpper(s[:2]) + s[2:]
		}
		return s
	}
	sep := "\n"
	if t.P(1, 6) {
		sep = "\r\n"
	}
	comment := func() {
		if t.P(1, 6) {
			b.WriteString("% a comment, with @data and 1.23456789" + sep)
		}
		if t.P(1, 6) {
			b.WriteString(sep)
		}
	}
	comment()
	b.WriteString(kw("@relation") + " rel" + sep + sep)
	for _, c := range cols {
		comment()
		b.WriteString(kw("@attribute") + []string{" ", "\t", "  "}[t.D(3)] + quoted(c.name) + " ")
		if c.num {
			b.WriteString(kw("real"))
		} else {
			var vs []string
			for _, v := range c.vals {
				vs = append(vs, quoted(v))
			}
			b.WriteString("{" + strings.Join(vs, []string{", ", ","}[t.D(2)]) + "}")
		}
		b.WriteString(sep)
	}
	comment()
	dataAt = b.Len()
	b.WriteString(kw("@data"))
	if t.P(1, 5) {
		b.WriteString([]string{" ", "\t", "  "}[t.D(3)])
	}
	b.WriteString(sep)
	for i, r := range recs {
		comment()
		var f []string
		for _, v := range r {
			q := quoted(v)
			if q == v && t.P(1, 8) {
				q = " " + v
			}
			f = append(f, q)
		}
		b.WriteString(strings.Join(f, ","))
		if i+1 < len(recs) || !t.P(1, 5) {
			b.WriteString(sep)
		}
	}
	return b.Bytes(), dataAt
}

func runS07(t *T) {
	special := t.P(1, 3)
	cols, recs := t.genText(special)
	for i := range cols {
		// a record is a line
		for k := range cols[i].vals {
			cols[i].vals[k] = strings.Replace(cols[i].vals[k], "\n", "/n", -1)
		}
		for _, r := range recs {
			r[i] = strings.Replace(r[i], "\n", "/n", -1)
		}
	}
	if t.P(1, 30) && len(recs) < 20 {
		// a line longer than a scanner's usual limit
		for i := range cols {
			if !cols[i].num {
				cols[i].vals[0] = "w" + strings.Repeat("x", 70000)
				for _, r := range recs {
					if r[i] != cols[i].vals[len(cols[i].vals)-1] {
						r[i] = cols[i].vals[0]
					}
				}
				for _, r := range recs {
					ok := false
					for _, v := range cols[i].vals {
						ok = ok || v == r[i]
					}
					if !ok {
						r[i] = cols[i].vals[0]
					}
				}
				break
			}
		}
	}
	text, dataAt := arffText(t, cols, recs)
	want := textTable(cols, recs)
	for i, c := range want.cols {
		if c.kind == kCat {
			// declared, not inferred
			for _, row := range want.rows {
				for k, v := range cols[i].vals {
					if v == showCell(row[i]) {
						row[i] = ccell(k, v)
						break
					}
				}
			}
			c.vals = cols[i].vals
		}
	}
	t.Descf("arff: %d bytes (header %d), %d columns, %d records", len(text), dataAt, len(cols), len(recs))
	if len(text) < 500 {
		t.Descf("text %q", text)
	} else {
		t.Logf("text %q", text)
	}
	t.Nontrivial()
	d := t.NewDisk()
	p := d.Path("in.arff")
	d.Seed(p, text)
	var in *base.DenseInstances
	var err error
	var pi *PanicInfo
	run := func() {
		d.With(func() { pi = t.Try(func() { in, err = base.ParseDenseARFFToInstances(p) }) })
	}
	judge := func(what string, full *table) {
		got := t.snap("imported dataset", in)
		if df := diff(want, got, cmpOpt{noPrec: true}); df != "" {
			t.Fail("import-wrong", "%s: imported dataset differs from the text: %s", what, df)
		}
		if full != nil {
			if df := diff(full, got, cmpOpt{ordered: true}); df != "" {
				t.Fail("import-varies", "%s: the dataset differs from that of an undisturbed import: %s", what, df)
			}
		}
	}
	run()
	if pi != nil {
		t.Fail("panic@"+pi.Where, "importing intact ARFF: %v", pi)
	}
	if err != nil {
		t.Fail("import-error", "intact ARFF was refused: %v", err)
	}
	judge("undisturbed", nil)
	full := t.snap("imported dataset", in)
	ops := d.Ops()
	switch t.D(5) {
	case 0:
		d.Mark()
		d.short = true
		run()
		if pi != nil {
			t.Fail("panic@"+pi.Where, "importing intact ARFF in fragments: %v", pi)
		}
		if err != nil {
			t.Fail("import-error", "intact ARFF was refused: %v", err)
		}
		judge("fragmented", full)
	case 1, 2:
		d.Mark()
		d.short = t.FP(1, 2)
		if t.FP(1, 4) {
			d.rate = 30 + t.F(200)
		} else {
			at, k := d.ArmOne(ops, "open", "read", "seek")
			t.Descf("disk fault %s at operation %d of %d", k, at, len(ops))
		}
		run()
		if pi != nil {
			t.Fail("panic@"+pi.Where, "faults %v: %v", t.faults, pi)
		}
		if err == nil {
			judge("after a fault", full)
		} else if d.fired == 0 {
			t.Fail("import-error", "intact ARFF was refused: %v", err)
		}
		if t.P(1, 2) {
			// the row count alone
			d.Mark()
			at, k := d.ArmOne(ops, "open", "read")
			t.Descf("disk fault %s at operation %d", k, at)
			n := 0
			d.With(func() { pi = t.Try(func() { n, err = base.ParseARFFGetRows(p) }) })
			if pi != nil {
				t.Fail("panic@"+pi.Where, "faults %v: %v", t.faults, pi)
			}
			if err == nil && n != len(recs) {
				t.Fail("block-hides-error:ParseARFFGetRows", "%d rows counted instead of %d without an error", n, len(recs))
			}
		}
	case 3:
		// ends inside the header
		cut := t.F(dataAt + 4)
		t.Descf("text ends after byte %d of a %d byte header", cut, dataAt)
		t.Fault("text-cut-in-header")
		d.Seed(p, text[:cut])
		run()
		if pi != nil {
			t.Fail("panic@"+pi.Where, "text ending inside the header: %v", pi)
		}
		if err == nil {
			t.Fail("cut-header-accepted", "the text ends inside the header and the import reported success with %d attributes", len(in.AllAttributes()))
		}
	case 4:
		// the stream entry point, into a prepared dataset
		frag := t.D(5)
		r := t.NewReader(text, frag)
		into := func() (*base.DenseInstances, []base.Attribute) {
			ret := base.NewDenseInstances()
			var as []base.Attribute
			for _, c := range want.cols {
				a := c.newAttr()
				as = append(as, a)
				ret.AddAttribute(a)
			}
			ret.AddClassAttribute(as[len(as)-1])
			ret.Extend(len(recs))
			return ret, as
		}
		var as []base.Attribute
		in, as = into()
		pi = t.Try(func() { err = base.ParseDenseARFFBuildInstancesFromReader(r, as, in) })
		if pi != nil {
			t.Fail("panic@"+pi.Where, "importing intact ARFF in fragments: %v", pi)
		}
		if err != nil {
			t.Fail("import-error", "intact ARFF was refused: %v", err)
		}
		judge("stream", nil)
		f := t.NewReader(text, frag)
		f.failAt, f.part, f.sticky = r.reads-1-t.F(r.reads), t.FP(1, 2), true
		t.Descf("source fails at read %d of %d (partial %v)", f.failAt, r.reads, f.part)
		in, as = into()
		pi = t.Try(func() { err = base.ParseDenseARFFBuildInstancesFromReader(f, as, in) })
		if pi != nil {
			t.Fail("panic@"+pi.Where, "the source failed: %v", pi)
		}
		if err == nil && f.fired {
			t.Fail("import-hides-error", "the source failed for good and the import reported success")
		}
	}
}

func runS08(t *T) {
	o := gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 8, kinds: []int{kFloat, kCat, kCat, kBin}, classKind: t.D(3), nClass: t.D(3), floats: []int{0, 1, 5, 6}[t.D(4)], prec: -1}
	if o.nClass == 0 {
		o.classKind = -1
	}
	o.classFirst = true
	if t.P(1, 10) {
		o.minRows, o.maxRows = 100, 300
	}
	if o.floats == 6 {
		o.floats = 4
	}
	if o.minRows < 100 {
		t.enlarge(&o, "cols", "vals", "long")
	}
	isCSV := t.P(1, 2)
	tb := t.genTable(o)
	if t.P(1, 2) {
		// text that has to be quoted
		sp := []string{"a,b", "x\"y", "two words", "ü", "l1\nl2", "a;b", "'q'", "#h", "\\", "%d", "@a", "{c}", "@data", "\"r\""}
		if !isCSV {
			sp[4] = "@attribute x real" // a record is a line
		}
		for i, c := range tb.cols {
			if t.P(1, 4) {
				c.name = []string{"n,m", "k l", "\"z\"", "ö"}[t.D(4)] + strconv.Itoa(i)
			}
			for k := range c.vals {
				if t.P(1, 2) {
					v := sp[t.D(len(sp))]
					ok := true
					for _, w := range c.vals {
						ok = ok && w != v
					}
					if ok {
						for _, row := range tb.rows {
							if cellIdx(row[i]) == k {
								row[i] = ccell(k, v)
							}
						}
						c.vals[k] = v
					}
				}
			}
		}
	}
	v := t.root(tb, true)
	v.ref.describe(t, "dataset")
	for i := t.D(3); i > 0; i-- {
		v = t.stack(v, viewOpt{filters: true, copies: true, minRows: 1})
	}
	for _, s := range v.desc {
		t.Descf("view: %s", s)
	}
	want := v.expect().normalised()
	if len(want.rows) == 0 && isCSV {
		return
	}
	t.Nontrivial()
	// kinds as text: a truth value is written as a number
	for i, c := range want.cols {
		if c.kind == kBin {
			c.kind, c.prec = kFloat, 0
			for _, row := range want.rows {
				row[i] = fcell(float64(row[i][1] - '0'))
			}
		}
		if c.kind == kFloat {
			for _, row := range want.rows {
				x, _ := strconv.ParseFloat(strconv.FormatFloat(cellFloat(row[i]), 'f', c.prec, 64), 64)
				if math.IsInf(x, 0) || x != x {
					return
				}
				row[i] = fcell(x)
			}
		}
	}
	var err error
	var in *base.DenseInstances
	d := t.NewDisk()
	p := d.Path("out")
	d.Seed(p, nil)
	frag := t.D(5)
	d.With(func() {
		if isCSV {
			if t.P(1, 2) {
				t.Must("export csv", func() { err = base.SerializeInstancesToCSV(v.g, p) })
			} else {
				w := t.NewWriter()
				t.Must("export csv", func() { err = base.SerializeInstancesToCSVStream(v.g, w) })
				d.Seed(p, w.b)
			}
			if err != nil {
				t.Fail("export-error:csv", "%v", err)
			}
			b := d.Current(p)
			t.Logf("text %q", b)
			d.Mark()
			d.short = frag > 0
			if t.P(1, 2) {
				t.Must("import csv", func() { in, err = base.ParseCSVToInstances(p, true) })
			} else {
				r := t.NewReader(b, frag)
				t.Must("import csv", func() { in, err = base.ParseCSVToInstancesFromReader(r, true) })
			}
		} else {
			t.Must("export arff", func() { err = base.SerializeInstancesToDenseARFF(v.g, p, "rel") })
			if err != nil {
				t.Fail("export-error:arff", "%v", err)
			}
			t.Logf("text %q", d.Current(p))
			d.Mark()
			d.short = frag > 0
			t.Must("import arff", func() { in, err = base.ParseDenseARFFToInstances(p) })
		}
	})
	what := "csv"
	if !isCSV {
		what = "arff"
	}
	if err != nil {
		t.Fail("import-error:"+what, "the exported text was refused: %v", err)
	}
	got := t.snap("imported dataset", in)
	t.reimported(what, want, got, !isCSV)
}

func (t *T) reimported(what string, want, got *table, vals bool) {
	if len(got.cols) != len(want.cols) {
		t.Fail("roundtrip-columns:"+what, "%v came back as %v", want.cols, got.cols)
	}
	// the last column of the text becomes the class of the import, the export
	// puts a class column last
	if cn := want.classNames(); len(cn) > 0 {
		if gc := got.classNames(); len(gc) != 1 || gc[0] != cn[len(cn)-1] {
			t.Fail("roundtrip-class:"+what, "class columns %q came back as %q", cn, gc)
		}
	}
	if df := diff(want, got, cmpOpt{noPrec: true, noVals: !vals, noClass: true}); df != "" {
		t.Fail("roundtrip:"+what, "imported dataset differs: %s", df)
	}
}

var _ = os.Open
