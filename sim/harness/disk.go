package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// Disk is the simulated disk: it sees every os.File operation on files below
// the run's scratch directory, decides faults from the fault stream and keeps
// what has been made durable.
type Disk struct {
	t    *T
	root string

	ops    []diskOp // every operation since the last Mark
	plan   map[int]string
	full   bool // no space left from now on
	short  bool // legal short reads
	rate   int  // per mille random fault rate (0: none)
	cut    int  // bytes a partial read delivers, 0: draw
	fired  int
	files  map[*os.File]*openFile
	images map[string]*image
	opened int

	crashAt  int // draw the content crashOf has after a power loss before this operation
	crashOf  string
	crashImg []byte
	crashed  bool
	firedOn  map[string]int // "kind path" of every fault fired
}

type diskOp struct {
	kind string
	path string
	n    int
}

type openFile struct {
	path string
	flag int
}

type image struct {
	durable []byte
	pending []pendWrite // writes (or truncations, b==nil) since the last sync
	exists  bool
}

type pendWrite struct {
	off  int64
	b    []byte
	trnc bool
}

func (t *T) NewDisk() *Disk {
	d := &Disk{t: t, root: t.scratch, plan: map[int]string{}, files: map[*os.File]*openFile{}, images: map[string]*image{}, crashAt: -1, firedOn: map[string]int{}}
	t.disk = d
	cleanDir(t.scratch)
	os.MkdirAll(filepath.Join(t.scratch, "tmp"), 0755)
	return d
}

func cleanDir(dir string) {
	es, err := ioutil.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

func (d *Disk) On()  { os.VerifDisk = d }
func (d *Disk) Off() { os.VerifDisk = nil }

// With runs f with the disk switched on.
func (d *Disk) With(f func()) {
	d.On()
	defer d.Off()
	f()
}

func (d *Disk) Path(name string) string { return filepath.Join(d.root, name) }

// Mark forgets the operation log and fault plan.
func (d *Disk) Mark() {
	d.ops = nil
	d.plan = map[int]string{}
	d.full, d.short, d.rate, d.fired, d.cut = false, false, 0, 0, 0
	d.crashAt, d.crashed, d.crashImg = -1, false, nil
	d.firedOn = map[string]int{}
}

func (d *Disk) Ops() []diskOp { return d.ops }

var faultsFor = map[string][]string{
	"open":   {"open-error"},
	"read":   {"read-error", "read-error-partial"},
	"write":  {"write-error", "short-write", "disk-full"},
	"sync":   {"sync-error"},
	"close":  {"close-error"},
	"seek":   {"seek-error"},
	"remove": {"remove-error"},
	"rename": {"rename-error"},
	"trunc":  {"truncate-error"},
}

// ArmOne plans one fault at one of the operations of a previous identical
// fault-free execution.
func (d *Disk) ArmOne(ops []diskOp, kinds ...string) (int, string) {
	ok := map[string]bool{}
	for _, k := range kinds {
		ok[k] = true
	}
	// choose the kind of operation first so that rare ones (close, sync) are
	// hit as often as frequent ones
	byKind := map[string][]int{}
	var ks []string
	for i, o := range ops {
		if len(kinds) > 0 && !ok[o.kind] {
			continue
		}
		if byKind[o.kind] == nil {
			ks = append(ks, o.kind)
		}
		byKind[o.kind] = append(byKind[o.kind], i)
	}
	if len(ks) == 0 {
		return -1, ""
	}
	sort.Strings(ks)
	k := ks[d.t.F(len(ks))]
	c := byKind[k]
	// later operations first: 0 means the last one
	i := c[len(c)-1-d.t.F(len(c))]
	fk := faultsFor[k][d.t.F(len(faultsFor[k]))]
	d.plan[i] = fk
	return i, fk
}

func (d *Disk) under(name string) bool { return strings.HasPrefix(name, d.root) }

func (d *Disk) rel(name string) string {
	r := strings.TrimPrefix(strings.TrimPrefix(name, d.root), "/")
	if strings.HasPrefix(r, "tmp/") {
		return "tmp/*"
	}
	return r
}

// step records an operation and returns the fault to inject, if any.
func (d *Disk) step(kind, path string, n int) string {
	i := len(d.ops)
	if i == d.crashAt {
		d.crash()
	}
	d.ops = append(d.ops, diskOp{kind, d.rel(path), n})
	f := d.plan[i]
	if f == "" && d.rate > 0 && len(faultsFor[kind]) > 0 && d.t.FP(d.rate, 1000) {
		f = faultsFor[kind][d.t.F(len(faultsFor[kind]))]
	}
	if f == "" && d.full && kind == "write" {
		f = "disk-full"
	}
	if f != "" {
		ok := false
		for _, k := range faultsFor[kind] {
			ok = ok || k == f
		}
		if !ok {
			return ""
		}
		d.fired++
		d.firedOn[kind+" "+d.rel(path)]++
		d.t.Fault(f)
	}
	return f
}

func (d *Disk) Open(name string, flag int) error {
	if !d.under(name) {
		return nil
	}
	if d.step("open", name, 0) != "" {
		return syscall.EMFILE
	}
	return nil
}

func (d *Disk) img(name string) *image {
	im := d.images[name]
	if im == nil {
		im = &image{}
		d.images[name] = im
	}
	return im
}

func (d *Disk) Opened(f *os.File, name string, flag int) {
	if !d.under(name) {
		return
	}
	d.opened++
	d.files[f] = &openFile{name, flag}
	im := d.img(name)
	im.exists = true
	if flag&os.O_TRUNC != 0 {
		im.pending = append(im.pending, pendWrite{trnc: true})
	}
}

func (d *Disk) Read(f *os.File, n int) (int, error) {
	if d.files[f] == nil {
		return n, nil
	}
	switch d.step("read", f.Name(), n) {
	case "read-error":
		return 0, syscall.EIO
	case "read-error-partial":
		// part of the data arrives, the next read fails
		d.fired--
		d.firedOn["read "+d.rel(f.Name())]--
		i := len(d.ops)
		d.plan[i] = "read-error"
		if d.cut > 0 && d.cut < n {
			return d.cut, nil
		}
		if sz := len(d.Current(f.Name())); sz > 0 && sz < n {
			n = sz
		}
		if n > 1 {
			return 1 + d.t.F(n-1), nil
		}
		return n, nil
	}
	if d.short && n > 1 {
		if k := d.t.F(n); k > 0 {
			d.t.faults["short-read"]++
			return k, nil
		}
	}
	return n, nil
}

func (d *Disk) Write(f *os.File, b []byte, off int64) (int, error) {
	if d.files[f] == nil {
		return len(b), nil
	}
	switch d.step("write", f.Name(), len(b)) {
	case "write-error":
		return 0, syscall.EIO
	case "short-write":
		return d.t.F(len(b)), syscall.ENOSPC
	case "disk-full":
		k := 0
		if !d.full {
			k = d.t.F(len(b))
		}
		d.full = true
		return k, syscall.ENOSPC
	}
	return len(b), nil
}

func (d *Disk) Wrote(f *os.File, b []byte, off int64) {
	of := d.files[f]
	if of == nil {
		return
	}
	im := d.img(of.path)
	im.pending = append(im.pending, pendWrite{off: off, b: append([]byte{}, b...)})
}

func applyWrites(b []byte, ws []pendWrite) []byte {
	b = append([]byte{}, b...)
	for _, w := range ws {
		if w.trnc {
			if int64(len(b)) > w.off {
				b = b[:w.off]
			}
			for int64(len(b)) < w.off {
				b = append(b, 0)
			}
			continue
		}
		for int64(len(b)) < w.off+int64(len(w.b)) {
			b = append(b, 0)
		}
		copy(b[w.off:], w.b)
	}
	return b
}

func (d *Disk) Sync(f *os.File) error {
	of := d.files[f]
	if of == nil {
		return nil
	}
	if d.step("sync", of.path, 0) != "" {
		return syscall.EIO
	}
	im := d.img(of.path)
	im.durable = applyWrites(im.durable, im.pending)
	im.pending = nil
	return nil
}

func (d *Disk) Truncate(f *os.File, size int64) error {
	of := d.files[f]
	if of == nil {
		return nil
	}
	if d.step("trunc", of.path, 0) != "" {
		return syscall.EIO
	}
	im := d.img(of.path)
	im.pending = append(im.pending, pendWrite{off: size, trnc: true})
	return nil
}

func (d *Disk) Seek(f *os.File, offset int64, whence int) error {
	of := d.files[f]
	if of == nil {
		return nil
	}
	if d.step("seek", of.path, 0) != "" {
		return syscall.EIO
	}
	return nil
}

func (d *Disk) Close(f *os.File) error {
	of := d.files[f]
	if of == nil {
		return nil
	}
	delete(d.files, f)
	if d.step("close", of.path, 0) != "" {
		return syscall.EIO
	}
	return nil
}

func (d *Disk) Remove(name string) error {
	if !d.under(name) {
		return nil
	}
	if d.step("remove", name, 0) != "" {
		return syscall.EIO
	}
	delete(d.images, name)
	return nil
}

func (d *Disk) Rename(o, n string) error {
	if !d.under(o) {
		return nil
	}
	if d.step("rename", n, 0) != "" {
		return syscall.EIO
	}
	d.images[n] = d.images[o]
	delete(d.images, o)
	return nil
}

// OpenFiles lists files still open.
func (d *Disk) OpenFiles() []string {
	var s []string
	for _, of := range d.files {
		s = append(s, d.rel(of.path))
	}
	sort.Strings(s)
	return s
}

// CloseLeaked closes what the library left open.
func (d *Disk) CloseLeaked() {
	d.Off()
	for f := range d.files {
		f.Close()
		delete(d.files, f)
	}
}

// TempFiles lists files left in the temporary directory.
func (d *Disk) TempFiles() []string {
	es, _ := ioutil.ReadDir(filepath.Join(d.root, "tmp"))
	var s []string
	for range es {
		s = append(s, "tmp/*")
	}
	return s
}

// Durable returns what survives a power loss now: everything synced and
// nothing else.
func (d *Disk) Durable(name string) []byte { return append([]byte{}, d.img(name).durable...) }

// Current returns what the file contains now.
func (d *Disk) Current(name string) []byte {
	im := d.img(name)
	return applyWrites(im.durable, im.pending)
}

// Seed sets the durable content of a file (written outside the simulation).
func (d *Disk) Seed(name string, b []byte) {
	d.images[name] = &image{durable: append([]byte{}, b...), exists: true}
	if err := ioutil.WriteFile(name, b, 0600); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// CrashImage draws one possible content of the file after a power loss: the
// synced content plus an arbitrary subset of the later writes, each applied
// wholly, torn at a sector boundary or not at all.
func (d *Disk) CrashImage(name string) []byte {
	im := d.img(name)
	var ws []pendWrite
	for _, w := range im.pending {
		switch d.t.F(4) {
		case 0: // lost
			d.t.Fault("crash-lost-write")
		case 1, 2:
			ws = append(ws, w)
		case 3:
			if w.trnc || len(w.b) < 2 {
				ws = append(ws, w)
				continue
			}
			d.t.Fault("crash-torn-write")
			ws = append(ws, pendWrite{off: w.off, b: w.b[:1+d.t.F(len(w.b)-1)]})
		}
	}
	return applyWrites(im.durable, ws)
}

// crash draws what a power loss at this moment leaves of the watched file.
func (d *Disk) crash() {
	d.crashed = true
	d.crashImg = d.CrashImage(d.crashOf)
	d.t.Fault("power-loss")
}

// silentFired counts fired faults that cannot harm the content of a file:
// closing or removing a temporary file.
func (d *Disk) harmful() bool {
	for k, n := range d.firedOn {
		if n > 0 && k != "close tmp/*" && k != "remove tmp/*" {
			return true
		}
	}
	return false
}

// reset forgets all simulated files and faults.
func (d *Disk) reset() {
	d.Mark()
	d.CloseLeaked()
	d.images = map[string]*image{}
}
