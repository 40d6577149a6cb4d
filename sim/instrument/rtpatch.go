package main

// Textual patches of the pinned Go 1.27 runtime and os packages. Each anchor
// must occur exactly once. With the simulator switched off (verifOn false,
// VerifDisk nil) the patched code behaves as the original.

type patch struct {
	file string
	subs [][2]string
}

var rtPatches = []patch{
	{"runtime/proc.go", [][2]string{
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"	if randomizeScheduler && next && randn(2) == 0 {\n", "	if verifOn && next {\n"},
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if verifOn {\n		return verifRunqget(pp), false\n	}\n"},
		{"func retake(now int64) uint32 {\n	n := 0\n", "func retake(now int64) uint32 {\n	n := 0\n	if verifOn {\n		return 0\n	}\n"},
		{"		} else if pd.schedwhen+forcePreemptNS <= now {\n			preemptone(pp)\n", "		} else if !verifOn && pd.schedwhen+forcePreemptNS <= now {\n			preemptone(pp)\n"},
		{"		// Take the P. Note: because we have the scan bit, the goroutine\n", "		if verifOn {\n			thread.resume()\n			goto done\n		}\n		// Take the P. Note: because we have the scan bit, the goroutine\n"},
		{"	if pp.schedtick%61 == 0 && !sched.runq.empty() {\n", "	if !verifOn && pp.schedtick%61 == 0 && !sched.runq.empty() {\n"},
		{"	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if gp := verifIdleWatcher(); gp != nil {\n		return gp, false, false\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
	}},
	{"runtime/rand.go", [][2]string{
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if verifOn {\n		return verifRand()\n	}\n"},
	}},
	{"math/rand/rand.go", [][2]string{
		{"type lockedSource struct {\n", "// VerifFilter, when set, may replace what the shared source yields.\nvar VerifFilter func(uint64) uint64\n\ntype lockedSource struct {\n"},
		{"	n = r.s.Int63()\n	r.lk.Unlock()\n", "	n = r.s.Int63()\n	if VerifFilter != nil {\n		n = int64(VerifFilter(uint64(n)) & rngMask)\n	}\n	r.lk.Unlock()\n"},
		{"	n = r.s.Uint64()\n	r.lk.Unlock()\n", "	n = r.s.Uint64()\n	if VerifFilter != nil {\n		n = VerifFilter(n)\n	}\n	r.lk.Unlock()\n"},
	}},
	{"runtime/debug.go", [][2]string{
		{"func NumCPU() int {\n", "func NumCPU() int {\n	if verifNumCPU != 0 {\n		return verifNumCPU\n	}\n"},
	}},
	{"runtime/select.go", [][2]string{
		{"j := cheaprandn(uint32(norder + 1))", "j := verifSelectn(uint32(norder + 1))"},
	}},
	{"runtime/sema.go", [][2]string{
		{"s.ticket = cheaprand() | 1", "s.ticket = verifTicket() | 1"},
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if verifOn {\n		return int64(verifSteps)\n	}\n"},
	}},
	{"os/file_posix.go", [][2]string{
		{"	n, err = f.pfd.Read(b)\n", "	if VerifDisk != nil {\n		return verifRead(f, b)\n	}\n	n, err = f.pfd.Read(b)\n"},
		{"	n, err = f.pfd.Pread(b, off)\n", "	if VerifDisk != nil {\n		return verifPread(f, b, off)\n	}\n	n, err = f.pfd.Pread(b, off)\n"},
		{"	n, err = f.pfd.Write(b)\n", "	if VerifDisk != nil {\n		return verifWrite(f, b)\n	}\n	n, err = f.pfd.Write(b)\n"},
		{"	n, err = f.pfd.Pwrite(b, off)\n", "	if VerifDisk != nil {\n		return verifPwrite(f, b, off)\n	}\n	n, err = f.pfd.Pwrite(b, off)\n"},
		{"	if e := f.pfd.Fsync(); e != nil {\n", "	if VerifDisk != nil {\n		if e := VerifDisk.Sync(f); e != nil {\n			return f.wrapErr(\"sync\", e)\n		}\n		return nil\n	}\n	if e := f.pfd.Fsync(); e != nil {\n"},
		{"	if e := f.pfd.Ftruncate(size); e != nil {\n", "	if VerifDisk != nil {\n		if e := VerifDisk.Truncate(f, size); e != nil {\n			return f.wrapErr(\"truncate\", e)\n		}\n	}\n	if e := f.pfd.Ftruncate(size); e != nil {\n"},
		{"	return f.file.close()\n}\n\n// read reads up to", "	if VerifDisk != nil {\n		return verifClose(f)\n	}\n	return f.file.close()\n}\n\n// read reads up to"},
	}},
	{"os/file_unix.go", [][2]string{
		{"	f := newFile(r, name, kindOpenFile, unix.HasNonblockFlag(flag))\n	f.pfd.SysFile = s\n	return f, nil\n", "	f := newFile(r, name, kindOpenFile, unix.HasNonblockFlag(flag))\n	f.pfd.SysFile = s\n	if VerifDisk != nil {\n		VerifDisk.Opened(f, name, flag)\n	}\n	return f, nil\n"},
		{"func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n	if VerifDisk != nil {\n		if e := VerifDisk.Open(name, flag); e != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: e}\n		}\n	}\n"},
		{"	ret, err = f.pfd.Seek(offset, whence)\n", "	if VerifDisk != nil {\n		if e := VerifDisk.Seek(f, offset, whence); e != nil {\n			return 0, e\n		}\n	}\n	ret, err = f.pfd.Seek(offset, whence)\n"},
		{"func Remove(name string) error {\n", "func Remove(name string) error {\n	if VerifDisk != nil {\n		if e := VerifDisk.Remove(name); e != nil {\n			return &PathError{Op: \"remove\", Path: name, Err: e}\n		}\n	}\n"},
		{"func rename(oldname, newname string) error {\n", "func rename(oldname, newname string) error {\n	if VerifDisk != nil {\n		if e := VerifDisk.Rename(oldname, newname); e != nil {\n			return &LinkError{\"rename\", oldname, newname, e}\n		}\n	}\n"},
	}},
	{"os/zero_copy_linux.go", [][2]string{
		{"func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n", "func (f *File) writeTo(w io.Writer) (written int64, handled bool, err error) {\n	if VerifDisk != nil {\n		return 0, false, nil\n	}\n"},
		{"func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n", "func (f *File) readFrom(r io.Reader) (written int64, handled bool, err error) {\n	if VerifDisk != nil {\n		return 0, false, nil\n	}\n"},
	}},
}
