package linear_models

/*
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>

// The C library's part of the simulated disk: liblinear opens and closes its
// temporary files through these (linked with --wrap).
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
int verif_c_opens, verif_c_closes, verif_c_fired, verif_c_open;
int verif_c_fail_open = -1, verif_c_fail_close = -1;
int verif_c_bad = -1, verif_c_bad_at; // the open whose stream fails, and where (per mille of the file, or bytes written)

typedef struct { FILE *f; long left; } verif_c_cookie;

static ssize_t verif_c_read(void *c, char *b, size_t n) {
	verif_c_cookie *k = (verif_c_cookie *)c;
	if (k->left <= 0) {
		verif_c_fired++;
		errno = EIO;
		return -1;
	}
	if ((long)n > k->left) n = k->left;
	n = fread(b, 1, n, k->f);
	k->left -= n;
	return n;
}

static ssize_t verif_c_write(void *c, const char *b, size_t n) {
	verif_c_cookie *k = (verif_c_cookie *)c;
	size_t w = (long)n > k->left ? (size_t)k->left : n;
	if (w > 0) fwrite(b, 1, w, k->f);
	k->left -= w;
	if (w < n) {
		verif_c_fired++;
		errno = ENOSPC;
		return w > 0 ? (ssize_t)w : 0;
	}
	return w;
}

static int verif_c_end(void *c) {
	verif_c_cookie *k = (verif_c_cookie *)c;
	int r = __real_fclose(k->f);
	free(k);
	return r;
}

FILE *__wrap_fopen(const char *p, const char *m) {
	int i = verif_c_opens++;
	if (i == verif_c_fail_open) {
		verif_c_fired++;
		errno = EMFILE;
		return NULL;
	}
	FILE *f = __real_fopen(p, m);
	if (f != NULL) verif_c_open++;
	if (f != NULL && i == verif_c_bad) {
		verif_c_cookie *k = (verif_c_cookie *)malloc(sizeof *k);
		cookie_io_functions_t io = {0};
		k->f = f;
		k->left = verif_c_bad_at;
		if (m[0] == 'r') {
			fseek(f, 0, SEEK_END);
			k->left = ftell(f) * (long)verif_c_bad_at / 1000;
			rewind(f);
			io.read = verif_c_read;
		} else io.write = verif_c_write;
		io.close = verif_c_end;
		f = fopencookie(k, m, io);
	}
	return f;
}

int __wrap_fclose(FILE *f) {
	int i = verif_c_closes++;
	verif_c_open--;
	if (i == verif_c_fail_close) {
		verif_c_fired++;
		// the buffered content never reaches the disk
		int fd = dup(fileno(f));
		long n = ftell(f);
		__real_fclose(f);
		if (n > 0 && ftruncate(fd, n / 2)) {}
		close(fd);
		errno = ENOSPC;
		return EOF;
	}
	return __real_fclose(f);
}

static void verif_c_reset(unsigned s, int fo, int fc, int bad, int at) {
	srand(s);
	verif_c_bad = bad;
	verif_c_bad_at = at;
	verif_c_opens = verif_c_closes = verif_c_fired = verif_c_open = 0;
	verif_c_fail_open = fo;
	verif_c_fail_close = fc;
}
*/
import "C"

// VerifC seeds the C library's generator and plans faults of its files: which
// open or close fails, or which opened file fails while it is read (after
// badAt per mille) or written (after badAt bytes).
func VerifC(seed uint32, failOpen, failClose, bad, badAt int) {
	C.verif_c_reset(C.uint(seed), C.int(failOpen), C.int(failClose), C.int(bad), C.int(badAt))
}

// VerifCStats reports opens, closes, faults and files still open since
// VerifC.
func VerifCStats() (opens, closes, fired, open int) {
	return int(C.verif_c_opens), int(C.verif_c_closes), int(C.verif_c_fired), int(C.verif_c_open)
}
