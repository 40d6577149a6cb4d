package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"io"
	"io/ioutil"
	"os"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/verifsim"
)

func init() {
	register(&Property{ID: "S03", Run: runS03,
		Rule: "a saved dataset or model file is damaged (truncated, bits or bytes flipped, ranges zeroed, removed, duplicated or replaced by old content, power loss during the save) or its source fails while being read or repositioned; opening it must fail or give exactly what was saved, in bounded work and without a panic",
		Real: "base binary container reader, every model's loader, archive/tar, compress/gzip, liblinear model parser",
		Stub: "disk and streams are simulated; liblinear's own temporary file uses the C library directly",
	})
	register(&Property{ID: "S04", Run: runS04,
		Rule: "a drawn model is trained on drawn data, saved, loaded into a fresh object through split reads and asked for predictions on further data; both must answer alike, also for a second generation and for several models in one file",
		Real: "every savable model, its saver and loader",
		Stub: "disk is simulated",
	})
	register(&Property{ID: "S05", Run: runS05,
		Rule: "a model save runs without and with injected open, write, sync, close, seek, read and space faults; success is accepted only when no harmful fault was injected and the content that survives a power loss loads and predicts like the original",
		Real: "every savable model, its saver and loader",
		Stub: "disk is simulated (durable = synced content)",
	})
	register(&Property{ID: "S09", Run: runS09,
		Rule: "after every export, import, save and load, with and without injected faults at every kind of file operation, no file the library opened is open, no temporary file remains, and caller streams were not closed",
		Real: "all file entry points of base and of every savable model",
		Stub: "disk is simulated and counts open files",
	})
}

// trained returns a fitted model, or nil when training the case is not
// possible (other properties judge that).
func (t *T) trained(kinds ...string) *fitted {
	f := t.fitCase(kinds...)
	var err error
	if pi := t.Try(func() { err = f.l.fit(f.tg.g) }); pi != nil || err != nil {
		t.Probe("untrainable:" + f.m.kind)
		if t.verbose {
			t.Logf("untrainable: %v %v", pi, err)
		}
		return nil
	}
	return f
}

// answer predicts; ok is false when the model cannot predict this data.
func (t *T) answer(l *learner, g base.FixedDataGrid) (ans []string, err error, pi *PanicInfo) {
	pi = t.Try(func() { ans, err = l.predict(g) })
	return
}

// probeData draws the datasets a model is asked about.
func (f *fitted) probeData(t *T) []base.FixedDataGrid {
	var gs []base.FixedDataGrid
	gs = append(gs, f.tg.g)
	n := 1 + t.D(8)
	if t.P(1, 40) {
		n = 20 + t.D(50)
	}
	tb := t.moreRows(f.train, f.m.o, n)
	tb.describe(t, "test data")
	gs = append(gs, t.root(tb, t.P(1, 2)).g)
	return gs
}

// answers of a model on all probes; nil where it cannot answer.
func (t *T) answers(l *learner, gs []base.FixedDataGrid) [][]string {
	var out [][]string
	for _, g := range gs {
		a, err, pi := t.answer(l, g)
		if err != nil || pi != nil {
			t.Probe("unpredictable")
			out = append(out, nil)
			continue
		}
		if a == nil {
			a = []string{}
		}
		t.Logf("answers %q", a)
		out = append(out, a)
	}
	return out
}

func usable(ans [][]string) bool {
	for _, a := range ans {
		if a == nil {
			return false
		}
	}
	return true
}

// sameAnswers compares a loaded model with the original.
func (t *T) sameAnswers(what, kind string, l *learner, gs []base.FixedDataGrid, want [][]string) {
	if d := t.answersDiffer(what, kind, l, gs, want); d != "" {
		t.Fail("predicts-differently:"+kind, "%s: the loaded %s %s", what, kind, d)
	}
}

func (t *T) answersDiffer(what, kind string, l *learner, gs []base.FixedDataGrid, want [][]string) string {
	for i, g := range gs {
		if want[i] == nil {
			continue
		}
		a, err, pi := t.answer(l, g)
		if pi != nil {
			t.Fail("loaded-model-panics:"+kind+"@"+pi.Where, "%s: prediction with the loaded model panicked: %v", what, pi)
		}
		if err != nil {
			return "cannot predict: " + err.Error()
		}
		if len(a) != len(want[i]) {
			return "answers for a different number of rows"
		}
		for r := range a {
			if a[r] != want[i][r] {
				return "predicts " + a[r] + " instead of " + want[i][r]
			}
		}
	}
	return ""
}

// save saves through the simulated disk.
func (t *T) saveTo(d *Disk, l *learner, p, kind string) (err error) {
	d.With(func() { t.Must("Save "+kind, func() { err = l.save(p) }) })
	return
}

func (t *T) loadFrom(d *Disk, l *learner, p, kind string) (err error) {
	d.With(func() { t.Must("Load "+kind, func() { err = l.load(p) }) })
	return
}

// ---------------------------------------------------------------- S04

type prefixed interface {
	SaveWithPrefix(*base.ClassifierSerializer, string) error
	LoadWithPrefix(*base.ClassifierDeserializer, string) error
}

func runS04(t *T) {
	// how internal tables are walked while training and predicting is not the
	// question here; while saving and loading it is
	t.rawNames = true
	f := t.trained(saveKinds...)
	if f == nil {
		return
	}
	gs := f.probeData(t)
	want := t.answers(f.l, gs)
	if !usable(want) {
		return
	}
	// answers that depend on something else than the model (R04) say nothing
	// about a copy
	if t.answersDiffer("asked again", f.m.kind, f.l, gs, want) != "" {
		t.Probe("unstable")
		return
	}
	t.Nontrivial()
	d := t.NewDisk()
	p := d.Path("model")
	k := f.m.kind
	if t.P(1, 4) {
		t.severalInOne(d, f, gs, want)
		return
	}
	if t.P(1, 2) {
		d.Seed(p, bytes.Repeat([]byte("old content of the file\n"), t.D(400)))
	}
	if err := t.saveTo(d, f.l, p, k); err != nil {
		if !f.train.isText() {
			// the format holds text: anything else may be refused
			t.Probe("not-text")
			t.sameAnswers("after a refused save, the original", k, f.l, gs, want)
			return
		}
		t.Fail("save-error:"+k, "saving a trained %s without any fault failed: %v", k, err)
	}
	t.sameAnswers("after saving, the original", k, f.l, gs, want)
	gen := 1
	if t.P(1, 4) {
		gen = 2
	}
	l := f.l
	for i := 0; i < gen; i++ {
		if i > 0 {
			if err := t.saveTo(d, l, p, k); err != nil {
				t.Fail("resave-error:"+k, "saving a loaded %s failed: %v", k, err)
			}
		}
		d.Mark()
		d.short = t.P(2, 3)
		l = f.m.nw()
		if f.m.alt != nil && t.P(1, 3) {
			// settings come from the file, not from the object
			l = f.m.alt()
			t.Descf("loading into an object with other settings")
		}
		if err := t.loadFrom(d, l, p, k); err != nil {
			t.Fail("load-error:"+k, "loading an intact %s file failed: %v", k, err)
		}
		t.sameAnswers("after loading", k, l, gs, want)
	}
	// predicting in between must not change either of them
	t.sameAnswers("asked again after loading", k, l, gs, want)
	t.sameAnswers("after the copy was used, the original", k, f.l, gs, want)
}

// severalInOne stores two models under different prefixes of one file, the
// way ensembles nest their members.
func (t *T) severalInOne(d *Disk, f *fitted, gs []base.FixedDataGrid, want [][]string) {
	k := f.m.kind
	a, ok := f.l.raw.(prefixed)
	if !ok {
		return
	}
	f2 := t.trained(saveKinds...)
	if f2 == nil {
		return
	}
	b, ok := f2.l.raw.(prefixed)
	if !ok {
		return
	}
	gs2 := f2.probeData(t)
	want2 := t.answers(f2.l, gs2)
	if !usable(want2) || t.answersDiffer("again", f2.m.kind, f2.l, gs2, want2) != "" {
		return
	}
	p := d.Path("models")
	prefs := [][2]string{{"A", "B"}, {"X/1", "X/2"}, {"m", "m2"}, {"CLASSIFIERS", "CLS"}}[t.D(4)]
	md := base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "pair", ClassifierVersion: "1.0"}
	var err error
	d.With(func() {
		t.Must("save pair", func() {
			var w *base.ClassifierSerializer
			w, err = base.CreateSerializedClassifierStub(p, md)
			if err != nil {
				return
			}
			if err = a.SaveWithPrefix(w, prefs[0]); err == nil {
				err = b.SaveWithPrefix(w, prefs[1])
			}
			if e := w.Close(); err == nil {
				err = e
			}
		})
	})
	if err != nil && !(f.train.isText() && f2.train.isText()) {
		t.Probe("not-text")
		return
	}
	if err != nil {
		t.Fail("nested-save-error:"+k+","+f2.m.kind, "saving %s and %s into one file failed: %v", k, f2.m.kind, err)
	}
	la, lb := f.m.nw(), f2.m.nw()
	d.Mark()
	d.short = t.P(1, 2)
	swap := t.P(1, 2)
	which := k
	d.With(func() {
		t.Must("load pair", func() {
			var r *base.ClassifierDeserializer
			r, err = base.ReadSerializedClassifierStub(p)
			if err != nil {
				return
			}
			defer r.Close()
			if swap {
				which = f2.m.kind
				if err = lb.raw.(prefixed).LoadWithPrefix(r, prefs[1]); err == nil {
					which = k
					err = la.raw.(prefixed).LoadWithPrefix(r, prefs[0])
				}
				return
			}
			if err = la.raw.(prefixed).LoadWithPrefix(r, prefs[0]); err == nil {
				which = f2.m.kind
				err = lb.raw.(prefixed).LoadWithPrefix(r, prefs[1])
			}
		})
	})
	if err != nil {
		t.Fail("nested-load-error:"+which, "loading %s out of a file of two models failed: %v", which, err)
	}
	t.sameAnswers("from a file of two models", k, la, gs, want)
	t.sameAnswers("from a file of two models", f2.m.kind, lb, gs2, want2)
}

// ---------------------------------------------------------------- S05

// cplan plans faults of the C library's files, cfault draws one, cend ends
// the plan: it reports whether a fault fired and fails when a file stays
// open.
func (t *T) cplan(open, close int) { linear_models.VerifC(1, open, close, -1, 0) }

func (t *T) cfault(opens, closes int) {
	switch t.F(4) {
	case 0:
		i := t.F(opens)
		t.Descf("the C library's open %d of %d fails", i, opens)
		t.cplan(i, -1)
	case 2, 3:
		i, at := t.F(opens), t.F(1000)
		if t.F(2) == 0 {
			at /= 8
		}
		t.Descf("the C library's file %d of %d fails while it is read or written (at %d)", i, opens, at)
		linear_models.VerifC(1, -1, -1, i, at)
	default:
		i := t.F(closes)
		t.Descf("the C library's close %d of %d fails", i, closes)
		t.cplan(-1, i)
	}
}

func (t *T) cend(what string) bool {
	_, _, fired, open := linear_models.VerifCStats()
	t.cplan(-1, -1)
	if fired > 0 {
		t.Fault("c-file-error")
	}
	if open != 0 {
		t.Fail("open-file:"+what, "%s left %d file(s) of the C library open", what, open)
	}
	return fired > 0
}

func runS05(t *T) {
	f := t.trained(saveKinds...)
	if f == nil {
		return
	}
	gs := f.probeData(t)
	want := t.answers(f.l, gs)
	if !usable(want) || t.answersDiffer("asked again", f.m.kind, f.l, gs, want) != "" {
		return
	}
	t.Nontrivial()
	k := f.m.kind
	d := t.NewDisk()
	p := d.Path("model")
	var prev []byte
	if t.P(1, 2) {
		prev = bytes.Repeat([]byte("old content of the file\n"), t.D(400))
	}
	chk := d.Path("check")
	judge := func(what string) {
		dur := d.Durable(p)
		if err := ioutil.WriteFile(chk, dur, 0600); err != nil {
			panic("harness: " + err.Error())
		}
		l := f.m.nw()
		var err error
		if pi := t.Try(func() { err = l.load(chk) }); pi != nil || err != nil {
			t.Fail("save-incomplete:"+k, "%s: saving the %s reported success; what survives a power loss (%d bytes of %d) does not load: %v %v", what, k, len(dur), len(d.Current(p)), err, pi)
		}
		if e := t.answersDiffer(what, k, l, gs, want); e != "" {
			t.Fail("save-differs:"+k, "%s: saving the %s reported success; what survives a power loss %s", what, k, e)
		}
	}
	d.Seed(p, prev)
	if err := t.saveTo(d, f.l, p, k); err != nil {
		t.Fail("save-error:"+k, "saving a trained %s without any fault failed: %v", k, err)
	}
	judge("no fault")
	ops := d.Ops()
	t.cplan(-1, -1)
	t.saveTo(d, f.l, p, k)
	copens, ccloses, _, _ := linear_models.VerifCStats()
	n := 1 + t.F(3)
	for i := 0; i < n; i++ {
		d.reset()
		cleanDir(d.Path("tmp"))
		d.Seed(p, prev)
		t.cplan(-1, -1)
		if copens > 0 && t.FP(1, 3) {
			t.cfault(copens, ccloses)
		} else if t.FP(1, 5) {
			d.rate = 20 + t.F(200)
		} else {
			at, fk := d.ArmOne(ops, "open", "write", "sync", "close", "seek", "read", "trunc")
			t.Descf("disk fault %s at operation %d of %d", fk, at, len(ops))
		}
		err := t.saveTo(d, f.l, p, k)
		cfired := t.cend(k + " save")
		if cfired && err == nil {
			t.Fail("save-hides-error:"+k, "a temporary file of liblinear could not be opened or completed and saving the %s reported success", k)
		}
		if err == nil && d.fired > 0 && d.harmful() {
			t.Fail("save-hides-error:"+k, "a file operation failed (%v) and saving the %s reported success", d.firedOn, k)
		}
		if err != nil && d.fired == 0 && !cfired {
			t.Fail("save-error:"+k, "saving a trained %s without any fault failed: %v", k, err)
		}
		if err == nil {
			judge("after a harmless fault")
		}
		// the model itself survives a failed save
		if e := t.answersDiffer("after a failed save", k, f.l, gs, want); e != "" {
			t.Fail("failed-save-breaks-model:"+k, "after a failed save the model %s", e)
		}
	}
	if t.FP(1, 2) {
		// once faults stop, saving works
		d.reset()
		if err := t.saveTo(d, f.l, p, k); err != nil {
			t.Fail("save-after-fault:"+k, "saving still fails after the faults ended: %v", err)
		}
		judge("after faults ended")
	}
}

// ---------------------------------------------------------------- S03

// damage returns a damaged copy of b.
func (t *T) damage(b, old []byte) []byte {
	b = append([]byte{}, b...)
	n := len(b)
	if n == 0 {
		return b
	}
	// positions: anywhere, or near the ends where headers and trailers are
	pos := func() int {
		switch t.F(4) {
		case 0:
			k := 40
			if k > n {
				k = n
			}
			return n - 1 - t.F(k)
		case 1:
			k := 40
			if k > n {
				k = n
			}
			return t.F(k)
		}
		return t.F(n)
	}
	rng := func() (int, int) {
		i := pos()
		l := 1 + t.F([]int{1, 8, 64, 512, 4096}[t.F(5)])
		if i+l > n {
			l = n - i
		}
		return i, i + l
	}
	switch t.F(9) {
	case 0:
		i := pos()
		t.Fault("truncate")
		t.Descf("file cut off at %d of %d", i, n)
		return b[:i]
	case 1:
		i, k := pos(), t.F(8)
		b[i] ^= 1 << uint(k)
		t.Fault("bit-flip")
		t.Descf("bit %d of byte %d of %d flipped", k, i, n)
	case 2:
		i := pos()
		b[i] ^= byte(1 + t.F(255))
		t.Fault("byte-change")
		t.Descf("byte %d of %d changed", i, n)
	case 3:
		i, j := rng()
		for x := i; x < j; x++ {
			b[x] = 0
		}
		t.Fault("zero-fill")
		t.Descf("bytes %d..%d of %d zeroed", i, j, n)
	case 4:
		i, j := rng()
		b = append(b[:i:i], b[j:]...)
		t.Fault("lost-range")
		t.Descf("bytes %d..%d of %d lost", i, j, n)
	case 5:
		i, j := rng()
		b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		t.Fault("repeated-range")
		t.Descf("bytes %d..%d of %d repeated", i, j, n)
	case 6:
		// a torn overwrite: new content up to a sector, old content after
		i := pos()
		t.Fault("torn-overwrite")
		t.Descf("new content up to %d of %d, older content (%d bytes) after", i, n, len(old))
		b = append([]byte{}, b[:i]...)
		if len(old) > i {
			b = append(b, old[i:]...)
		}
	case 7:
		i, j := rng()
		for x := i; x < j; x++ {
			b[x] = byte(t.F(256))
		}
		t.Fault("garbage-range")
		t.Descf("bytes %d..%d of %d overwritten with garbage", i, j, n)
	case 8:
		// old content after the new one: the file was not truncated
		t.Fault("stale-tail")
		k := t.F(200)
		for x := 0; x < k; x++ {
			b = append(b, byte(t.F(256)))
		}
		b = append(b, old...)
		t.Descf("%d bytes of other content after the file's %d", k+len(old), n)
	}
	return b
}

func runS03(t *T) {
	if t.P(1, 2) {
		t.damagedData()
		return
	}
	t.damagedModel()
}

func (t *T) damagedData() {
	o := t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, floats: t.D(3), prec: -1, names: t.D(2)})
	if !o.big && t.P(1, 8) {
		o.minRows, o.maxRows = 200, 500
	}
	v := t.genView(o, t.D(2), viewOpt{})
	want := v.expect()
	var err error
	w := t.NewWriter()
	t.Must("SerializeInstances", func() { err = base.SerializeInstances(v.g, w) })
	if err != nil {
		t.Fail("export-error", "exporting without any fault failed: %v", err)
	}
	t.Nontrivial()
	// an older version of the file
	old := want.clone()
	if len(old.rows) > 0 {
		old.rows = old.rows[:t.D(len(old.rows))]
	}
	wo := t.NewWriter()
	var oldB []byte
	if e := base.SerializeInstances(t.root(old, false).g, wo); e == nil {
		oldB = wo.b
	}
	for i := 0; i < 6; i++ {
		b := w.b
		allowOld := false
		var r *SimReader
		switch k := t.F(8); {
		case k < 5:
			b = t.damage(w.b, oldB)
			r = t.NewReader(b, t.F(5))
			allowOld = true
		case k == 5: // power loss while the file is rewritten
			d := t.NewDisk()
			p := d.Path("data")
			ops := t.saveOps(d, p, oldB, func() error { return base.SerializeInstancesToFile(v.g, p) })
			d.reset()
			d.Seed(p, oldB)
			d.crashAt, d.crashOf = t.F(ops+1), p
			d.With(func() { base.SerializeInstancesToFile(v.g, p) })
			if !d.crashed {
				d.crash()
			}
			b = d.crashImg
			r = t.NewReader(b, t.F(5))
			allowOld = true
		default:
			r = t.NewReader(b, t.F(5))
			base0 := t.NewReader(b, 0)
			base.DeserializeInstances(base0)
			if t.FP(1, 3) && base0.seeks > 0 {
				r.failSk = t.F(base0.seeks)
			} else {
				r.frag = t.F(2)
				r.failAt = t.F(base0.reads + 1)
			}
			r.part = t.FP(1, 2)
			r.sticky = t.FP(1, 2)
			t.Descf("stream fails at read %d / seek %d (sticky %v)", r.failAt, r.failSk, r.sticky)
		}
		var in *base.DenseInstances
		t.Must("DeserializeInstances", func() { in, err = base.DeserializeInstances(r) })
		if err != nil {
			t.Probe("rejected")
			continue
		}
		if in == nil {
			t.Fail("import-nil", "import returned neither data nor error")
		}
		t.Probe("accepted")
		got := t.snap("imported dataset", in)
		df := diff(want, got, cmpOpt{})
		if df != "" && allowOld && diff(old, got, cmpOpt{}) == "" {
			df = ""
		}
		if df != "" {
			t.Fail("damaged-data-accepted", "importing a damaged dataset reported success but: %s", df)
		}
	}
}

// cutEntry draws an entry of an archive and an offset of the compressed archive
// up to which only the beginning of the entry can be decompressed.
func (t *T) cutEntry(gz []byte) (string, int) {
	plain := func(c int) int {
		z, err := gzip.NewReader(bytes.NewReader(gz[:c]))
		if err != nil {
			return 0
		}
		n, _ := io.Copy(ioutil.Discard, z)
		return int(n)
	}
	z, err := gzip.NewReader(bytes.NewReader(gz))
	if err != nil {
		return "", 0
	}
	all, err := ioutil.ReadAll(z)
	if err != nil {
		return "", 0
	}
	type entry struct {
		name     string
		from, to int
	}
	var es []entry
	br := bytes.NewReader(all)
	for tr := tar.NewReader(br); ; {
		h, err := tr.Next()
		if err != nil {
			break
		}
		at := len(all) - br.Len()
		es = append(es, entry{h.Name, at, at + int(h.Size)})
	}
	if len(es) == 0 {
		return "", 0
	}
	e := es[t.F(len(es))]
	lo := sort.Search(len(gz), func(c int) bool { return plain(c) >= e.from })
	hi := sort.Search(len(gz), func(c int) bool { return plain(c) >= e.to })
	if hi > lo {
		lo += t.F(hi - lo)
	}
	return e.name, lo
}

// saveOps counts the file operations of a save.
func (t *T) saveOps(d *Disk, p string, old []byte, save func() error) int {
	d.Seed(p, old)
	d.Mark()
	d.With(func() { save() })
	n := len(d.Ops())
	d.CloseLeaked()
	return n
}

func (t *T) damagedModel() {
	f := t.trained(saveKinds...)
	if f == nil {
		return
	}
	gs := f.probeData(t)
	want := t.answers(f.l, gs)
	if !usable(want) || t.answersDiffer("asked again", f.m.kind, f.l, gs, want) != "" {
		return
	}
	k := f.m.kind
	d := t.NewDisk()
	p := d.Path("model")
	// an older version of the model
	var oldB []byte
	var oldAns [][]string
	f2 := f.m.nw()
	tb := t.moreRows(f.train, f.m.o, len(f.train.rows))
	var err error
	if pi := t.Try(func() { err = f2.fit(t.root(tb, false).g) }); pi == nil && err == nil {
		oldAns = t.answers(f2, gs)
		po := d.Path("old")
		if usable(oldAns) && t.answersDiffer("asked again", k, f2, gs, oldAns) == "" && t.saveTo(d, f2, po, k) == nil {
			oldB = d.Current(po)
		}
		d.CloseLeaked()
	}
	if err := t.saveTo(d, f.l, p, k); err != nil {
		return // S05
	}
	good := d.Current(p)
	d.CloseLeaked()
	t.Nontrivial()
	nops := 0
	for i := 0; i < 6; i++ {
		d.reset()
		allowOld := false
		b := good
		mode := t.F(10)
		switch {
		case mode < 5:
			b = t.damage(good, oldB)
			allowOld = oldB != nil
		case mode == 5:
			if nops == 0 {
				nops = t.saveOps(d, p, oldB, func() error { return f.l.save(p) })
			}
			d.reset()
			d.Seed(p, oldB)
			d.crashAt, d.crashOf = t.F(nops+1), p
			t.saveTo(d, f.l, p, k)
			if !d.crashed {
				d.crash()
			}
			b = d.crashImg
			allowOld = oldB != nil
			t.Descf("power loss before operation %d of %d of the save: %d bytes", d.crashAt, nops, len(b))
			d.reset()
		}
		d.Seed(p, b)
		l := f.m.nw()
		if mode > 5 {
			ref := f.m.nw()
			if t.loadFrom(d, ref, p, k) != nil {
				return // S04
			}
			ops := d.Ops()
			t.cplan(-1, -1)
			t.loadFrom(d, f.m.nw(), p, k)
			co, cc, _, _ := linear_models.VerifCStats()
			d.reset()
			d.Seed(p, b)
			t.cplan(-1, -1)
			if co > 0 && t.FP(1, 3) {
				t.cfault(co, cc)
			} else if t.FP(1, 3) {
				// the source breaks down inside a drawn entry, in a drawn pass
				var pass []int
				for j, o := range ops {
					if o.kind == "read" && (j == 0 || ops[j-1].kind != "read") {
						pass = append(pass, j)
					}
				}
				name, c := t.cutEntry(good)
				if len(pass) > 0 && c > 0 {
					j := t.F(len(pass))
					at := pass[len(pass)-1-j] + c/4096
					d.plan[at] = "read-error-partial"
					d.cut = c % 4096
					t.Descf("the source fails after %d bytes, inside entry %s, in pass %d of %d from the end", c, name, j, len(pass))
				}
			} else if t.FP(1, 4) {
				d.rate = 50 + t.F(200)
				d.short = true
			} else {
				at, fk := d.ArmOne(ops, "read", "seek", "open", "write")
				t.Descf("disk fault %s at operation %d of %d of the load", fk, at, len(ops))
			}
		} else {
			d.short = t.FP(1, 2)
		}
		err := t.loadFrom(d, l, p, k)
		t.cend(k + " load")
		d.CloseLeaked()
		d.Mark()
		if err != nil {
			t.Probe("rejected")
			continue
		}
		t.Probe("accepted")
		// predictions with an old, whole model are fine
		bad := t.answersDiffer("damaged file", k, l, gs, want)
		if bad != "" && allowOld && t.answersDiffer("damaged file", k, l, gs, oldAns) == "" {
			bad = ""
		}
		if bad != "" {
			t.Fail("damaged-model-accepted:"+k, "loading a damaged %s file reported success, but the model %s", k, bad)
		}
	}
}

// ---------------------------------------------------------------- S09

func runS09(t *T) {
	d := t.NewDisk()
	p := d.Path("file")
	var op func() error
	name := ""
	var held *os.File
	var prep func()
	switch t.D(3) {
	case 0: // exports
		o := t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 0, maxRows: 8, floats: t.D(3), prec: -1})
		v := t.genView(o, 0, viewOpt{})
		sg := t.newSimGrid(v.g)
		if t.FP(1, 4) {
			sg.failAt, sg.failAf = t.F(3), t.F(len(v.ref.rows)+1)
		}
		ex := exporters()[t.D(3)]
		name = "export " + ex.name
		op = func() error { sg.passes = 0; return ex.file(sg, p) }
		prep = func() { d.Seed(p, []byte("old")) }
	case 1: // imports
		o := t.anyTable(gopt{minCols: 1, maxCols: 4, minRows: 1, maxRows: 8, floats: t.D(2), prec: 2})
		v := t.genView(o, 0, viewOpt{})
		ex := exporters()[t.D(3)]
		w := t.NewWriter()
		if e := ex.str(v.g, w); e != nil {
			return
		}
		b := w.b
		if t.FP(1, 3) {
			b = t.damage(b, nil)
		}
		prep = func() { d.Seed(p, b) }
		opened := func(f func(*os.File) error) func() error {
			return func() error {
				h, e := os.Open(p)
				if e != nil {
					return e
				}
				held = h
				return f(h)
			}
		}
		switch ex.name {
		case "binary":
			name = "DeserializeInstances"
			op = opened(func(h *os.File) error { _, e := base.DeserializeInstances(h); return e })
		case "csv":
			switch t.D(4) {
			case 0:
				name = "ParseCSVToInstances"
				op = func() error { _, e := base.ParseCSVToInstances(p, t.P(1, 2)); return e }
			case 1:
				name = "ParseCSVToTemplatedInstances"
				tmpl := base.NewStructuralCopy(v.g)
				op = func() error { _, e := base.ParseCSVToTemplatedInstances(p, true, tmpl); return e }
			case 2:
				name = "ParseCSVToInstancesFromReader"
				op = opened(func(h *os.File) error { _, e := base.ParseCSVToInstancesFromReader(h, true); return e })
			case 3:
				name = "ParseCSVGetRows"
				op = func() error {
					_, e := base.ParseCSVGetRows(p)
					if e == nil {
						_, _, e = base.ParseCSVGetAttributes(p, true), 0, nil
					}
					return e
				}
			}
		case "arff":
			switch t.D(3) {
			case 0:
				name = "ParseDenseARFFToInstances"
				op = func() error { _, e := base.ParseDenseARFFToInstances(p); return e }
			case 1:
				name = "ParseARFFGetRows"
				op = func() error { _, e := base.ParseARFFGetRows(p); return e }
			case 2:
				name = "ParseARFFGetAttributes"
				op = func() error { base.ParseARFFGetAttributes(p); return nil }
			}
		}
	case 2: // models
		f := t.trained(saveKinds...)
		if f == nil {
			return
		}
		k := f.m.kind
		if t.D(2) == 0 {
			name = "Save " + k
			op = func() error { return f.l.save(p) }
			prep = func() { d.Seed(p, nil) }
		} else {
			if e := t.saveTo(d, f.l, p, k); e != nil {
				return
			}
			d.CloseLeaked()
			b := d.Current(p)
			if t.FP(1, 3) {
				b = t.damage(b, nil)
			}
			name = "Load " + k
			op = func() error { return f.m.nw().load(p) }
			prep = func() { d.Seed(p, b) }
		}
	}
	t.Nontrivial()
	t.Descf("operation %s", name)
	var ops []diskOp
	copens, ccloses := 0, 0
	n := 2 + t.F(4)
	for i := 0; i < n; i++ {
		d.reset()
		cleanDir(d.Path("tmp"))
		prep()
		held = nil
		t.cplan(-1, -1)
		if i > 0 {
			if copens > 0 && t.FP(1, 4) {
				t.cfault(copens, ccloses)
			} else if t.FP(1, 4) {
				d.rate = 20 + t.F(300)
			} else {
				at, fk := d.ArmOne(ops)
				t.Descf("disk fault %s at operation %d of %d", fk, at, len(ops))
			}
		}
		var err error
		var pi *PanicInfo
		d.With(func() { pi = t.Try(func() { err = op() }) })
		if i == 0 {
			ops = append([]diskOp{}, d.Ops()...)
			copens, ccloses, _, _ = linear_models.VerifCStats()
		}
		t.cend(name)
		_ = err
		if held != nil {
			if d.files[held] == nil {
				t.Fail("caller-stream-closed:"+name, "%s closed the stream it was given", name)
			}
			if _, e := held.Stat(); e != nil {
				t.Fail("caller-stream-closed:"+name, "%s closed the stream it was given: %v", name, e)
			}
			delete(d.files, held)
			held.Close()
		}
		t.Logf("operations %v", d.Ops())
		if open := d.OpenFiles(); len(open) > 0 {
			t.Fail("open-file:"+name, "%s returned (%v, %v) and left %v open (faults: %v)", name, err, pi, open, d.firedOn)
		}
		if d.firedOn["remove tmp/*"] == 0 {
			if tmp := d.TempFiles(); len(tmp) > 0 {
				t.Fail("temp-file:"+name, "%s returned (%v) and left %d temporary file(s) behind (faults: %v)", name, err, len(tmp), d.firedOn)
			}
		}
	}
}

var _ = verifsim.NoPermute
