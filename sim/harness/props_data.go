package main

import (
	"bytes"
	"os"
	"strings"

	"github.com/sjwhitworth/golearn/base"
)

func init() {
	register(&Property{ID: "S01", Run: runS01,
		Rule: "a drawn dataset or view is exported to a stream or file and imported from a stream or file that splits reads, mixes EOF with data and returns empty reads; the result is compared cell by cell with the source",
		Real: "base binary container writer and reader, dense and view grids, archive/tar, compress/gzip",
		Stub: "streams and disk are simulated",
	})
	register(&Property{ID: "S02", Run: runS02,
		Rule: "an export (binary, CSV, ARFF; stream or named file with previous content) runs with one or several injected write, sync, close, open or truncate faults; success is accepted only when the stream accepted, or the simulated disk holds durably, exactly the bytes of an undisturbed export",
		Real: "base serializers, encoding/csv, archive/tar, compress/gzip",
		Stub: "streams and disk are simulated (durable = synced content)",
	})
}

// anyTable draws a dataset of any shape the storage formats accept.
func (t *T) anyTable(o gopt) gopt {
	o.classKind = t.D(3)
	o.nClass = t.D(3)
	if o.nClass == 0 {
		o.classKind = -1
	}
	o.classFirst = true
	t.enlarge(&o, "rows", "cols", "wide", "vals", "long")
	return o
}

// normalised puts class columns last, as the container does.
func (tb *table) normalised() *table {
	var idx []int
	for i, c := range tb.cols {
		if !c.class {
			idx = append(idx, i)
		}
	}
	for i, c := range tb.cols {
		if c.class {
			idx = append(idx, i)
		}
	}
	return tb.pick(idx)
}

func runS01(t *T) {
	o := t.anyTable(gopt{minCols: 1, maxCols: 5, minRows: 0, maxRows: 10, floats: t.D(4), names: t.D(2), prec: -1, unusedVals: t.P(1, 3)})
	if !o.big && t.P(1, 8) {
		o.minRows, o.maxRows, o.maxCols = 300, 1000, 6
	}
	if o.names == 1 && t.P(1, 5) {
		o.names = 2
	}
	v := t.genView(o, t.D(3), viewOpt{filters: true, copies: true})
	want := v.expect()
	notText := false
	refused := func(err error) bool {
		// the format holds text: anything else may be refused, not changed
		if err != nil && !want.isText() {
			t.Probe("not-text")
			notText = true
		}
		return notText
	}
	var in *base.DenseInstances
	var err error
	frag := t.D(5)
	if t.P(1, 3) {
		d := t.NewDisk()
		p := d.Path("data.bin")
		d.Seed(p, nil)
		d.With(func() {
			t.Must("SerializeInstancesToFile", func() { err = base.SerializeInstancesToFile(v.g, p) })
			if refused(err) {
				return
			}
			if err != nil {
				t.Fail("export-error", "exporting without any fault failed: %v", err)
			}
			d.Mark()
			d.short = frag > 0
			f, e := os.Open(p)
			if e != nil {
				panic("harness: " + e.Error())
			}
			t.Must("DeserializeInstances", func() { in, err = base.DeserializeInstances(f) })
			f.Close()
		})
		if notText {
			return
		}
	} else {
		w := t.NewWriter()
		t.Must("SerializeInstances", func() { err = base.SerializeInstances(v.g, w) })
		if refused(err) {
			return
		}
		if err != nil {
			t.Fail("export-error", "exporting without any fault failed: %v", err)
		}
		r := t.NewReader(w.b, frag)
		if t.P(1, 4) {
			// a second export of the same dataset is the same
			w2 := t.NewWriter()
			t.Must("SerializeInstances", func() { err = base.SerializeInstances(v.g, w2) })
			if err != nil || !bytes.Equal(w.b, w2.b) {
				t.Fail("export-differs", "two exports of one dataset differ (%v)", err)
			}
		}
		t.Must("DeserializeInstances", func() { in, err = base.DeserializeInstances(r) })
	}
	if err != nil {
		t.Fail("import-error", "importing an intact export failed: %v", err)
	}
	if in == nil {
		t.Fail("import-nil", "import returned neither data nor error")
	}
	got := t.snap("imported dataset", in)
	if len(want.rows) > 0 {
		t.Nontrivial()
	}
	if d := diff(want, got, cmpOpt{}); d != "" {
		t.Fail("roundtrip", "imported dataset differs: %s", d)
	}
	// the order of columns survives up to class columns moving last; the
	// imported dataset groups columns by kind, which is its own choice
	if d := diff(reorderRef(want, got), got, cmpOpt{ordered: true}); d != "" {
		t.Fail("roundtrip", "imported dataset differs: %s", d)
	}
	mp, prob := t.snapMap("imported dataset", in)
	if prob != "" {
		t.Fail("roundtrip-iteration", "imported dataset: %s", prob)
	}
	if d := diff(want, mp, cmpOpt{}); d != "" {
		t.Fail("roundtrip-iteration", "imported dataset differs when iterated: %s", d)
	}
}

func reorderRef(want, got *table) *table {
	var idx []int
	for _, c := range got.cols {
		idx = append(idx, want.col(c.name))
	}
	return want.pick(idx)
}

// exporter is one way to write a dataset out.
type exporter struct {
	name string
	file func(g base.FixedDataGrid, p string) error
	str  func(g base.FixedDataGrid, w *SimWriter) error
}

func exporters() []exporter {
	return []exporter{
		{"binary", base.SerializeInstancesToFile,
			func(g base.FixedDataGrid, w *SimWriter) error { return base.SerializeInstances(g, w) }},
		{"csv", base.SerializeInstancesToCSV,
			func(g base.FixedDataGrid, w *SimWriter) error { return base.SerializeInstancesToCSVStream(g, w) }},
		{"arff", func(g base.FixedDataGrid, p string) error { return base.SerializeInstancesToDenseARFF(g, p, "rel") },
			func(g base.FixedDataGrid, w *SimWriter) error {
				as := base.NonClassAttributes(g)
				as = append(as, g.AllClassAttributes()...)
				return base.SerializeInstancesToWriterDenseARFFWithAttributes(w, g, as, "rel")
			}},
	}
}

func runS02(t *T) {
	o := t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, floats: t.D(3), prec: -1})
	if !o.big && t.P(1, 6) {
		// larger than the buffers in between
		o.minRows, o.maxRows, o.maxCols, o.floats = 300, 600, 6, 2
	}
	v := t.genView(o, t.D(2), viewOpt{})
	if len(v.ref.rows) > 0 {
		t.Nontrivial()
	}
	ex := exporters()[t.D(3)]
	ref := t.NewWriter()
	var err error
	t.Must("export "+ex.name, func() { err = ex.str(v.g, ref) })
	if err != nil {
		t.Fail("export-error:"+ex.name, "exporting without any fault failed: %v", err)
	}
	t.Descf("export %s: %d bytes in %d writes", ex.name, len(ref.b), ref.writes)
	if t.P(1, 2) {
		w := t.NewWriter()
		if ref.writes > 0 {
			w.failAt = ref.writes - 1 - t.F(ref.writes)
		}
		w.part = t.FP(1, 2)
		w.once = t.FP(1, 3)
		t.Descf("stream fails at write %d (partial %v, once %v)", w.failAt, w.part, w.once)
		t.Must("export "+ex.name, func() { err = ex.str(v.g, w) })
		if err == nil && w.fired {
			t.Fail("stream-export-hides-error:"+ex.name, "the stream refused a write and the %s export reported success", ex.name)
		}
		if err == nil && !bytes.Equal(w.b, ref.b) {
			t.Fail("stream-export-incomplete:"+ex.name, "the %s export reported success but delivered different bytes", ex.name)
		}
		if err != nil && !w.fired {
			t.Fail("export-error:"+ex.name, "exporting without any fault failed: %v", err)
		}
		return
	}
	d := t.NewDisk()
	p := d.Path("out")
	prev := strings.Repeat("old content, and more of it\n", t.D(200))
	d.Seed(p, []byte(prev))
	run := func() {
		d.With(func() { t.Must("export "+ex.name, func() { err = ex.file(v.g, p) }) })
	}
	run()
	if err != nil {
		t.Fail("export-error:"+ex.name, "exporting without any fault failed: %v", err)
	}
	judge := func(what string) {
		if got := d.Current(p); !bytes.Equal(got, ref.b) {
			cls := "file-export-wrong:" + ex.name
			if bytes.HasPrefix(got, ref.b) {
				cls = "file-export-stale-tail:" + ex.name
			}
			t.Fail(cls, "%s: the %s export reported success; the file holds %d bytes instead of the %d exported (previous content %d bytes)", what, ex.name, len(got), len(ref.b), len(prev))
		}
		if got := d.Durable(p); !bytes.Equal(got, ref.b) {
			t.Fail("file-export-not-durable:"+ex.name, "%s: the %s export reported success; after a power loss the file holds %d of %d bytes", what, ex.name, len(got), len(ref.b))
		}
	}
	judge("no fault")
	ops := d.Ops()
	d.CloseLeaked()
	n := 1 + t.F(3)
	for i := 0; i < n; i++ {
		d.Mark()
		d.images = map[string]*image{}
		d.Seed(p, []byte(prev))
		if t.FP(1, 4) {
			d.rate = 100 + t.F(300)
		} else {
			at, k := d.ArmOne(ops, "open", "write", "sync", "close", "trunc", "rename")
			t.Descf("disk fault %s at operation %d of %d", k, at, len(ops))
		}
		run()
		if err == nil && d.fired > 0 {
			t.Note("file-export-hides-error:"+ex.name, "a file operation failed (%v) and the %s export reported success", t.faults, ex.name)
			judge("after a fault")
			panic(stopRun{})
		}
		if err == nil {
			judge("no fault fired")
		} else if d.fired == 0 {
			t.Fail("export-error:"+ex.name, "exporting without any fault failed: %v", err)
		}
		d.CloseLeaked()
	}
}
